//! Drives the cases of one property: a supervisor process starts worker processes (so that an abort or a
//! stack overflow of the code under test is an observation, not the end of the check), workers generate
//! cases through a proptest strategy, shrink the first failure and report.
use crate::choices::{ChoiceStrategy, ChoiceTree, Src};
use crate::sut;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

pub struct Ctx {
    pub labels: Vec<String>,
    pub key: Option<u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    /// print the description at once (the case may bring the process down)
    pub echo: bool,
    pub dir: PathBuf,
    pub thorough: bool,
}
impl Ctx {
    pub fn new(dir: &Path) -> Ctx {
        Ctx { labels: vec![], key: None, desc: None, want_desc: false, echo: false, dir: dir.to_path_buf(), thorough: false }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    /// the case counts as non-trivial; equal keys are the same case
    pub fn nontrivial(&mut self, k: &impl Hash) {
        let mut h = DefaultHasher::new();
        k.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let d = f();
            if self.echo {
                eprintln!("{d}");
            }
            self.desc = Some(d);
        }
    }
}

pub type Res = Result<(), String>;
pub struct Pinned {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx) -> Res>,
}
pub fn pin(name: &str, f: impl Fn(&mut Ctx) -> Res + 'static) -> Pinned {
    Pinned { name: name.into(), f: Box::new(f) }
}
/// a recorded defect of the code under test: `f` fails (or crashes) as long as the defect is there
pub struct Known {
    pub id: &'static str,
    pub f: Box<dyn Fn(&mut Ctx) -> Res>,
}

#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub max: usize,
    pub quick: usize,
    pub thorough: usize,
    pub case: fn(&mut Src, &mut Ctx) -> Res,
    pub pinned: fn() -> Vec<Pinned>,
    pub known: fn() -> Vec<Known>,
    /// seconds of processor time after which a case counts as not terminating
    pub cpu: u64,
}
pub fn no_pinned() -> Vec<Pinned> {
    vec![]
}
pub fn no_known() -> Vec<Known> {
    vec![]
}

const SHARDS: usize = 8;
const STACK: usize = 64 << 20;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ evaluation of one case

fn eval(p: &Prop, choices: &[u16], ctx: &mut Ctx) -> Res {
    match sut::guard(|| (p.case)(&mut Src::new(choices), ctx)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    }
}
fn eval_pinned(f: &dyn Fn(&mut Ctx) -> Res, ctx: &mut Ctx) -> Res {
    match sut::guard(|| f(ctx)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    }
}

fn cpu_ms() -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    (t[0] as u64) * 1000 + (t[1] as u64) / 1_000_000
}
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
fn tick() {
    CASE_CPU.store(cpu_ms(), Ordering::SeqCst);
    CASE_NO.fetch_add(1, Ordering::SeqCst);
}
fn watchdog(limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let start = CASE_CPU.load(Ordering::SeqCst);
        if start != u64::MAX && cpu_ms().saturating_sub(start) > limit_s * 1000 {
            unsafe { _exit(97) }
        }
    });
}
fn limits() {
    // a case that needs more than this is not terminating
    let v = [4u64 << 30, 4u64 << 30];
    let core = [0u64, 0u64];
    unsafe {
        setrlimit(9, &v);
        setrlimit(4, &core);
    }
}
pub struct Capture;
impl Capture {
    /// what was printed to standard output since the last call
    pub fn take(dir: &Path) -> String {
        let _ = std::io::stdout().flush();
        let f = dir.join(format!("out.{}", std::process::id()));
        let s = fs::read_to_string(&f).unwrap_or_default();
        if !s.is_empty() {
            // opened in append mode: writing goes on at the new end
            let _ = fs::OpenOptions::new().write(true).open(&f).map(|h| h.set_len(0));
        }
        s
    }
}
fn redirect_stdout(dir: &Path) {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("out.{}", std::process::id())))
        .expect("capture file");
    unsafe { dup2(f.as_raw_fd(), 1) };
    std::mem::forget(f);
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().expect("worker thread")
}

fn seed_bytes(prop: &str, seed: u64, shard: usize) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        (prop, seed, shard as u64, i, "hpp").hash(&mut h);
        b[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    b
}

pub fn worker(p: &'static Prop, seed: u64, shard: usize, cases: usize, thorough: bool, dir: PathBuf) {
    limits();
    redirect_stdout(&dir);
    tick();
    watchdog(p.cpu);
    on_big_stack(move || {
        sut::install_panic_hook();
        worker_body(p, seed, shard, cases, thorough, &dir)
    });
}

fn worker_body(p: &'static Prop, seed: u64, shard: usize, cases: usize, thorough: bool, dir: &Path) {
    let cur = fs::File::create(dir.join(format!("{shard}.cur"))).unwrap();
    let note = |c: &[u16], name: &str| {
        let mut b = vec![];
        b.extend((name.len() as u32).to_le_bytes());
        b.extend((c.len() as u32).to_le_bytes());
        b.extend(name.as_bytes());
        for x in c {
            b.extend(x.to_le_bytes());
        }
        cur.write_all_at(&b, 0).unwrap();
        tick();
    };
    let mut evals = 0usize;
    let mut labels: BTreeMap<String, usize> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(String, Vec<u16>, String, String)> = None;
    let mut pinned_n = 0;

    for (i, pn) in (p.pinned)().into_iter().enumerate() {
        if i % SHARDS != shard {
            continue;
        }
        note(&[], &pn.name);
        let mut ctx = Ctx::new(dir);
        ctx.want_desc = true;
        ctx.thorough = thorough;
        let r = eval_pinned(&*pn.f, &mut ctx);
        evals += 1;
        pinned_n += 1;
        for l in ctx.labels.drain(..) {
            *labels.entry(l).or_default() += 1;
        }
        if let Some(k) = ctx.key {
            hashes.insert(k);
        }
        if let Err(m) = r {
            fail = Some((pn.name.clone(), vec![], m, ctx.desc.unwrap_or_default()));
            break;
        }
    }
    if fail.is_none() {
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(p.id, seed, shard)),
        );
        let strat = ChoiceStrategy { max: p.max };
        let step = (cases / 3).max(1);
        for n in 0..cases {
            let mut tree = strat.new_tree(&mut runner).unwrap();
            let c = tree.current();
            note(&c, "");
            let mut ctx = Ctx::new(dir);
            ctx.thorough = thorough;
            ctx.want_desc = n % step < 5 && samples.len() < 4 * (n / step + 1).min(3);
            let r = eval(p, &c, &mut ctx);
            evals += 1;
            for l in ctx.labels.drain(..) {
                *labels.entry(l).or_default() += 1;
            }
            if let Some(k) = ctx.key {
                hashes.insert(k);
                if let Some(d) = ctx.desc.take() {
                    samples.push(d);
                }
            }
            if let Err(first) = r {
                // shrink
                let mut best = (c.clone(), first);
                let t0 = Instant::now();
                let mut k = 0;
                let mut more = tree.simplify();
                while more && k < 6000 && t0.elapsed() < Duration::from_secs(25) {
                    k += 1;
                    let c = tree.current();
                    note(&c, "");
                    let mut ctx = Ctx::new(dir);
                    ctx.thorough = thorough;
                    match eval(p, &c, &mut ctx) {
                        Err(m) => {
                            best = (c, m);
                            more = tree.simplify();
                        }
                        Ok(()) => more = tree.complicate(),
                    }
                }
                note(&best.0, "");
                let mut ctx = Ctx::new(dir);
                ctx.want_desc = true;
                ctx.thorough = thorough;
                let m = eval(p, &best.0, &mut ctx).err().unwrap_or(best.1);
                fail = Some((String::new(), best.0, m, ctx.desc.unwrap_or_default()));
                break;
            }
        }
    }
    CASE_CPU.store(u64::MAX, Ordering::SeqCst);
    let mut o = String::new();
    o.push_str(&format!("evals\t{evals}\npinned\t{pinned_n}\n"));
    for (l, n) in labels {
        o.push_str(&format!("label\t{}\t{n}\n", esc(&l)));
    }
    for s in samples {
        o.push_str(&format!("sample\t{}\n", esc(&sut::clip(&s, 900))));
    }
    if let Some((name, c, m, d)) = fail {
        let cs: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("fail\t{}\t{}\t{}\t{}\n", esc(&name), cs.join(","), esc(&m), esc(&d)));
    }
    let mut hb = vec![];
    for h in hashes {
        hb.extend(h.to_le_bytes());
    }
    fs::write(dir.join(format!("{shard}.hash")), hb).unwrap();
    fs::write(dir.join(format!("{shard}.res")), o).unwrap();
}

/// evaluates one recorded case; used for crashes and for replays
pub fn eval_one(p: &'static Prop, name: String, choices: Vec<u16>, dir: PathBuf, show: bool, known: bool, thorough: bool) -> i32 {
    limits();
    redirect_stdout(&dir);
    tick();
    watchdog(p.cpu);
    on_big_stack(move || {
        sut::install_panic_hook();
        let mut ctx = Ctx::new(&dir);
        ctx.want_desc = show;
        ctx.echo = show;
        ctx.thorough = thorough;
        let r = if known {
            match (p.known)().into_iter().find(|k| k.id == name) {
                Some(k) => eval_pinned(&*k.f, &mut ctx),
                None => Ok(()),
            }
        } else if !name.is_empty() {
            match (p.pinned)().into_iter().find(|k| k.name == name) {
                Some(k) => eval_pinned(&*k.f, &mut ctx),
                None => Err(format!("no such case: {name}")),
            }
        } else {
            eval(p, &choices, &mut ctx)
        };
        if show {
            match r {
                Ok(()) => eprintln!("result: passed"),
                Err(ref m) => eprintln!("result: {m}"),
            }
        }
        i32::from(r.is_err())
    })
}

// ------------------------------------------------------------------ supervisor

fn read_cur(f: &Path) -> Option<(String, Vec<u16>)> {
    let b = fs::read(f).ok()?;
    if b.len() < 8 {
        return None;
    }
    let n = u32::from_le_bytes(b[0..4].try_into().unwrap()) as usize;
    let c = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
    let name = String::from_utf8_lossy(b.get(8..8 + n)?).into_owned();
    let v = b.get(8 + n..8 + n + 2 * c)?.chunks(2).map(|x| u16::from_le_bytes([x[0], x[1]])).collect();
    Some((name, v))
}
fn write_cur(f: &Path, name: &str, c: &[u16]) {
    let mut b = vec![];
    b.extend((name.len() as u32).to_le_bytes());
    b.extend((c.len() as u32).to_le_bytes());
    b.extend(name.as_bytes());
    for x in c {
        b.extend(x.to_le_bytes());
    }
    fs::write(f, b).unwrap();
}

/// how a finished process looks to the supervisor
#[derive(Debug, Clone, PartialEq)]
enum End {
    Pass,
    Fail,
    Crash(String),
    Hang,
    Unknown(String),
}
fn wait(mut ch: std::process::Child, limit: Duration, errfile: &Path) -> End {
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return End::Unknown(format!("wait: {e}")),
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Unknown("time limit of the supervisor".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let tail = || {
        let s = fs::read(errfile).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let v: Vec<char> = s.trim().chars().collect();
        v[v.len().saturating_sub(300)..].iter().collect::<String>()
    };
    match (st.code(), st.signal()) {
        (Some(0), _) => End::Pass,
        (Some(1), _) => End::Fail,
        (Some(97), _) => End::Hang,
        (Some(c), _) => End::Unknown(format!("exit code {c}: {}", tail())),
        (_, Some(6)) | (_, Some(11)) | (_, Some(7)) | (_, Some(4)) | (_, Some(8)) => {
            End::Crash(format!("signal {}: {}", st.signal().unwrap(), tail()))
        }
        (_, s) => End::Unknown(format!("signal {s:?}: {}", tail())),
    }
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub cases: Option<usize>,
}

fn run_eval(p: &Prop, name: &str, c: &[u16], dir: &Path, mode: &str, tier: &str) -> End {
    let f = dir.join("eval.cur");
    write_cur(&f, name, c);
    let ef = dir.join("eval.err");
    let ch = Command::new(std::env::current_exe().unwrap())
        .args([mode, p.id, f.to_str().unwrap(), dir.to_str().unwrap(), tier])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(&ef).unwrap())
        .spawn()
        .expect("spawn");
    // a case that never ends only has to describe itself
    wait(ch, Duration::from_secs(if mode == "show" { 20 } else { 300 }), &ef)
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn supervise(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let base = std::env::temp_dir().join(format!("hpp-verif.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&base).unwrap();
    let _clean = Scratch(base.clone());
    let thorough = o.tier == "thorough";
    let total = o.cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let per = total.div_ceil(SHARDS);
    let kids: Vec<_> = (0..SHARDS)
        .map(|s| {
            Command::new(std::env::current_exe().unwrap())
                .args(["worker", p.id, &o.tier, &o.seed.to_string(), &s.to_string(), &per.to_string(), base.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(fs::File::create(base.join(format!("{s}.err"))).unwrap())
                .spawn()
                .expect("spawn worker")
        })
        .collect();
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 780 });
    let mut ends = vec![];
    for (s, k) in kids.into_iter().enumerate() {
        ends.push(wait(k, limit.saturating_sub(t0.elapsed()), &base.join(format!("{s}.err"))));
    }
    let mut evals = 0usize;
    let mut pinned = 0usize;
    let mut labels: BTreeMap<String, usize> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    // (name, choices, message, description, worker whose cases before it may be needed)
    let mut fails: Vec<(String, Vec<u16>, String, String, Option<usize>)> = vec![];
    let mut crashes: Vec<(usize, End)> = vec![];
    let mut errors: Vec<String> = vec![];
    for (s, e) in ends.iter().enumerate() {
        match e {
            End::Pass => {
                let r = fs::read_to_string(base.join(format!("{s}.res"))).unwrap_or_default();
                if r.is_empty() {
                    errors.push(format!("worker {s} wrote no result"));
                }
                for l in r.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "evals" => evals += f[1].parse::<usize>().unwrap(),
                        "pinned" => pinned += f[1].parse::<usize>().unwrap(),
                        "label" => *labels.entry(unesc(f[1])).or_default() += f[2].parse::<usize>().unwrap(),
                        "sample" => samples.push(unesc(f[1])),
                        "fail" => fails.push((
                            unesc(f[1]),
                            f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                            unesc(f[3]),
                            unesc(f[4]),
                            Some(s),
                        )),
                        _ => {}
                    }
                }
                for h in fs::read(base.join(format!("{s}.hash"))).unwrap_or_default().chunks(8) {
                    hashes.insert(u64::from_le_bytes(h.try_into().unwrap()));
                }
            }
            End::Crash(_) | End::Hang => crashes.push((s, e.clone())),
            End::Fail => errors.push(format!("worker {s}: unexpected exit code 1")),
            End::Unknown(m) => errors.push(format!("worker {s}: {m}")),
        }
    }
    // an orderly failure is smaller and clearer than a crash
    if fails.is_empty() {
        for (s, e) in &crashes {
            let Some((name, c)) = read_cur(&base.join(format!("{s}.cur"))) else {
                errors.push(format!("worker {s}: {e:?} before its first case"));
                continue;
            };
            let again = run_eval(p, &name, &c, &base, "eval", &o.tier);
            match &again {
                End::Crash(_) | End::Hang | End::Fail => {}
                x => {
                    // perhaps it needs the cases before it: the whole worker again, which is deterministic
                    match run_worker(p, *s, per, o, &base) {
                        y @ (End::Crash(_) | End::Hang) => {
                            let m = format!("the process was brought down, but only together with the cases before it: {y:?}");
                            fails.push((name, c, m, String::new(), Some(*s)));
                            break;
                        }
                        y => errors.push(format!("worker {s}: {e:?}, not reproduced ({x:?}, {y:?})")),
                    }
                    continue;
                }
            }
            let mut best = c.clone();
            let mut what = again.clone();
            if name.is_empty() && !matches!(again, End::Hang) {
                let t1 = Instant::now();
                let mut tree = ChoiceTree::new(c.clone());
                let mut more = tree.simplify();
                let mut k = 0;
                while more && k < 300 && t1.elapsed() < Duration::from_secs(40) {
                    k += 1;
                    let cand = tree.current();
                    match run_eval(p, "", &cand, &base, "eval", &o.tier) {
                        x @ (End::Crash(_) | End::Fail) => {
                            best = cand;
                            what = x;
                            more = tree.simplify();
                        }
                        _ => more = tree.complicate(),
                    }
                }
            }
            // the description of a crashing case is written before the library is called
            let _ = run_eval(p, &name, &best, &base, "show", &o.tier);
            let d = fs::read_to_string(base.join("eval.err")).unwrap_or_default();
            let m = match what {
                End::Hang => format!("no end after {} s of processor time", p.cpu),
                x => format!("the process was brought down: {x:?}"),
            };
            fails.push((name, best, m, sut::clip(&d, 4000), None));
            break;
        }
    }
    // known findings
    let mut known_lines = vec![];
    let known_file = fs::read_to_string(o.verif.join("known_findings.txt")).unwrap_or_default();
    for k in (p.known)() {
        let tag = format!("known: property={} id={}", p.id, k.id);
        let listed = known_file.lines().find(|l| l.starts_with(&tag));
        match (run_eval(p, k.id, &[], &base, "known", &o.tier), listed) {
            (End::Pass, _) => {}
            (End::Unknown(m), _) => errors.push(format!("known finding {}: {m}", k.id)),
            (_, Some(l)) => known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id, l[tag.len()..].trim())),
            (e, None) => fails.push((format!("known:{}", k.id), vec![], format!("{e:?}"), String::new(), None)),
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json(p.id),
        json(&o.tier),
        o.seed
    ));
    ev.push_str(&format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n", hashes.len()));
    ev.push_str(&format!("  \"rule\": {},\n  \"pinned_cases\": {pinned},\n  \"worker_processes\": {SHARDS},\n", json(p.rule)));
    ev.push_str("  \"labels\": {");
    let mut first = true;
    for (l, n) in &labels {
        ev.push_str(&format!("{}\n   {}: {n}", if first { "" } else { "," }, json(l)));
        first = false;
    }
    ev.push_str("\n  },\n  \"samples\": [");
    let pick: Vec<&String> = if samples.len() <= 8 {
        samples.iter().collect()
    } else {
        (0..8).map(|i| &samples[i * samples.len() / 8]).collect()
    };
    for (i, s) in pick.iter().enumerate() {
        ev.push_str(&format!("{}\n   {}", if i == 0 { "" } else { "," }, json(s)));
    }
    ev.push_str(&format!("\n  ]\n }},\n \"wall_s\": {wall:.2}\n}}\n"));
    let _ = fs::create_dir_all(o.verif.join("evidence"));
    fs::write(o.verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();

    if let Some((name, c, m, d, shard)) = fails.iter().min_by_key(|f| f.1.len()) {
        // a case that fails only after others is replayed with them
        let history = shard.filter(|_| run_eval(p, name, c, &base, "eval", &o.tier) == End::Pass);
        let rd = o.verif.join("replays");
        let _ = fs::create_dir_all(&rd);
        let rf = rd.join(format!("{}.json", p.id));
        let cs: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let body = format!(
            "{{\n \"property\": {},\n \"pinned\": {},\n \"choices\": [{}],\n \"failure\": {},\n \"case\": {},\n \"seed\": {},\n \"tier\": {},\n \"history\": {},\n \"replay\": {}\n}}\n",
            json(p.id),
            json(name),
            cs.join(","),
            json(m),
            json(d),
            o.seed,
            json(&o.tier),
            json(&history.map(|s| format!("{s}:{per}")).unwrap_or_default()),
            json(&format!("bash /verif/check.sh replay {}", rf.display()))
        );
        fs::write(&rf, body).unwrap();
        println!("case:\n{}", sut::clip(d, 3000));
        println!("failure: {}", sut::clip(m, 3000));
        println!("VIOLATION property={} replay={}", p.id, rf.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("check error: {e}");
        }
        return 2;
    }
    println!(
        "{}: held on {evals} cases ({} distinct non-trivial), {wall:.1} s",
        p.id,
        hashes.len()
    );
    0
}

/// one worker once more
fn run_worker(p: &Prop, shard: usize, per: usize, o: &Opts, base: &Path) -> End {
    let dir = base.join("again");
    let _ = fs::create_dir_all(&dir);
    let ef = dir.join("again.err");
    let ch = Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, &o.tier, &o.seed.to_string(), &shard.to_string(), &per.to_string(), dir.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(&ef).unwrap())
        .spawn()
        .expect("spawn worker");
    let e = wait(ch, Duration::from_secs(if o.tier == "thorough" { 6 * 3600 } else { 400 }), &ef);
    let res = fs::read_to_string(dir.join(format!("{shard}.res"))).unwrap_or_default();
    match e {
        End::Pass if res.lines().any(|l| l.starts_with("fail\t")) => {
            for l in res.lines().filter(|l| l.starts_with("fail\t")) {
                for f in l.split('\t').skip(3) {
                    eprintln!("{}", unesc(f));
                }
            }
            End::Fail
        }
        e => e,
    }
}
/// replays all cases of a worker up to the failing one
pub fn replay_history(p: &'static Prop, history: &str, seed: u64, tier: &str, dir: &Path) -> i32 {
    let (shard, per) = history.split_once(':').expect("history");
    let o = Opts { tier: tier.into(), seed, verif: PathBuf::new(), cases: None };
    let e = run_worker(p, shard.parse().unwrap(), per.parse().unwrap(), &o, dir);
    eprintln!("result: {e:?}");
    i32::from(e != End::Pass)
}

pub struct Replay {
    pub id: String,
    pub pinned: String,
    pub choices: Vec<u16>,
    pub tier: String,
    pub history: String,
    pub seed: u64,
}
pub fn load_replay(file: &str) -> Option<Replay> {
    let s = fs::read_to_string(file).ok()?;
    let field = |k: &str| -> Option<String> {
        let key = format!("\"{k}\": \"");
        let a = s.find(&key)? + key.len();
        let mut o = String::new();
        let mut it = s[a..].chars();
        loop {
            match it.next()? {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    x => o.push(x),
                },
                x => o.push(x),
            }
        }
    };
    let a = s.find("\"choices\": [")? + 12;
    let list = s[a..].split(']').next()?;
    let c = list.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let seed = s.find("\"seed\": ").and_then(|a| s[a + 8..].split(',').next()?.trim().parse().ok()).unwrap_or(1);
    Some(Replay { id: field("property")?, pinned: field("pinned")?, choices: c, tier: field("tier")?, history: field("history").unwrap_or_default(), seed })
}
pub fn load_cur(f: &str) -> Option<(String, Vec<u16>)> {
    read_cur(Path::new(f))
}

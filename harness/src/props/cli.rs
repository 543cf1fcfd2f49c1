//! C22: the command line tool.
use super::gram::{gram_of, mutate_grammar, opts, usable};
use super::lang::lang_grammar;
use super::notation::{action_text, broken_text, ignore_case};
use crate::choices::Src;
use crate::grammar::*;
use crate::reader::{read, Verdict};
use crate::refll::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn binary() -> PathBuf {
    let v = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    Path::new(&v).join("harness/target/cli/debug/henriks-parsing-project")
}

struct Seen {
    code: Option<i32>,
    signal: Option<i32>,
    stderr: Vec<u8>,
    stdout: Vec<u8>,
}
/// how a file is handed to the tool
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Path,
    /// by a path relative to the working directory
    Relative,
    Link,
    /// standard input is a pipe that the content comes through in pieces of this size
    Pipe(usize),
}
#[derive(Clone, Copy, Debug)]
struct Call {
    ways: [Way; 2],
    names: [&'static [u8]; 2],
    env: &'static [(&'static str, &'static str)],
}
const PLAIN: Call = Call { ways: [Way::Path; 2], names: [b"rules", b"script"], env: &[] };
const NAMES: [&[u8]; 12] = [
    b"space behind ",
    b"\t in front",
    b"with space",
    "日本 é".as_bytes(),
    b"-h",
    b"--",
    b"a;b $(c) *",
    b"line\nend",
    b"rules",
    b"script.txt.bnf",
    b"caf\xe9",
    b"\xff\xfe",
];
const ENVS: [&[(&str, &str)]; 5] =
    [&[("RUST_BACKTRACE", "1")], &[("LC_ALL", "C")], &[("LC_ALL", "de_DE.UTF-8")], &[("LANG", "tr_TR.UTF-8"), ("TERM", "dumb")], &[("RUST_BACKTRACE", "full"), ("NO_COLOR", "1")]];
fn gen_call(s: &mut Src) -> Call {
    let mut k = PLAIN;
    if s.chance(70) {
        return k;
    }
    for i in 0..2 {
        k.ways[i] = match s.below(7) {
            0 | 1 => Way::Relative,
            2 => Way::Link,
            3 if k.ways[0] == Way::Path => Way::Pipe(*s.pick(&[1, 2, 3, 7, 100, 5000, 1_000_000])),
            _ => Way::Path,
        };
        if s.chance(60) {
            k.names[i] = s.pick(&NAMES);
        }
    }
    if s.chance(40) {
        k.env = s.pick(&ENVS);
    }
    k
}

fn run_tool(dir: &Path, args: &[PathBuf], env: &[(&str, &str)], pipe: Option<(&[u8], usize)>) -> Result<Seen, String> {
    let pid = std::process::id();
    let (eo, oo) = (dir.join(format!("cli.{pid}.err")), dir.join(format!("cli.{pid}.out")));
    let mut ch = Command::new(binary())
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .envs(env.iter().copied())
        .stdin(if pipe.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(fs::File::create(&oo).map_err(|e| e.to_string())?)
        .stderr(fs::File::create(&eo).map_err(|e| e.to_string())?)
        .spawn()
        .unwrap_or_else(|e| {
            // not the code under test
            eprintln!("cannot start {}: {e}", binary().display());
            std::process::exit(3)
        });
    if let (Some((b, size)), Some(mut i)) = (pipe, ch.stdin.take()) {
        let b = b.to_vec();
        // ends when the tool has read everything or has gone
        std::thread::spawn(move || {
            let size = size.max(b.len() / 200);
            for (k, x) in b.chunks(size.max(1)).enumerate() {
                if k < 20 {
                    std::thread::sleep(Duration::from_micros(300));
                }
                if i.write_all(x).is_err() {
                    break;
                }
            }
        });
    }
    let t0 = Instant::now();
    let mut nap = 100;
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the tool had not ended after 120 s".into());
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    };
    Ok(Seen { code: st.code(), signal: st.signal(), stderr: fs::read(&eo).unwrap_or_default(), stdout: fs::read(&oo).unwrap_or_default() })
}

/// what a file is
#[derive(Clone, Debug)]
enum File {
    Bytes(Vec<u8>),
    Missing,
    Directory,
    NotPassed,
}
fn text_file(t: &str) -> File {
    File::Bytes(t.as_bytes().to_vec())
}
impl File {
    fn show(&self) -> String {
        match self {
            File::Bytes(b) => match std::str::from_utf8(b) {
                Ok(t) => format!("{:?}", clip(t, 1500)),
                Err(_) => format!("bytes {:?}", clip(&String::from_utf8_lossy(b), 600)),
            },
            o => format!("{o:?}"),
        }
    }
    fn text(&self) -> Option<&str> {
        match self {
            File::Bytes(b) => std::str::from_utf8(b).ok(),
            _ => None,
        }
    }
}
/// makes the file; what is passed to the tool
fn place(dir: &Path, name: &str, f: &File, way: Way, called: &[u8]) -> PathBuf {
    // a folder of its own, so that any file name will do
    let home = dir.join(format!("{name}.{}", std::process::id()));
    let _ = fs::remove_dir_all(&home);
    fs::create_dir(&home).expect("scratch directory");
    let p = home.join(std::ffi::OsStr::from_bytes(called));
    let real = if way == Way::Link { home.join("real file") } else { p.clone() };
    match f {
        File::Bytes(b) => fs::write(&real, b).expect("scratch file"),
        File::Directory => fs::create_dir(&real).expect("scratch directory"),
        _ => {}
    }
    match way {
        Way::Path => p,
        Way::Relative => Path::new(home.file_name().unwrap()).join(p.file_name().unwrap()),
        Way::Link => {
            std::os::unix::fs::symlink("real file", &p).expect("scratch link");
            p
        }
        Way::Pipe(_) => PathBuf::from("/dev/stdin"),
    }
}
/// `want`: the grammar is usable and generates the content of the script file
fn check_cli(rules: &File, script: &File, want: bool, call: Call, c: &mut Ctx) -> Res {
    let mut call = call;
    let mut pipe = None;
    for (w, f) in call.ways.iter_mut().zip([rules, script]) {
        if let Way::Pipe(n) = *w {
            match f {
                File::Bytes(b) if pipe.is_none() && Path::new("/dev/stdin").exists() => pipe = Some((&b[..], n)),
                _ => *w = Way::Path,
            }
        }
    }
    let plain = call.ways == PLAIN.ways && call.names == PLAIN.names && call.env.is_empty();
    c.describe(|| {
        format!(
            "rule file: {}\nscript file: {}\nexpected: {}{}",
            rules.show(),
            script.show(),
            if want { "success" } else { "failure" },
            if plain { String::new() } else { format!("\nhow: {:?} {:?} {:?}", call.ways, call.names.map(|n| String::from_utf8_lossy(n).into_owned()), call.env) }
        )
    });
    if !plain {
        c.label("unusual file name, link, relative path, pipe or environment");
        c.label_if(pipe.is_some(), "through a pipe");
        c.label_if(call.names.iter().any(|n| std::str::from_utf8(n).is_err()), "file name that is not UTF-8");
    }
    let dir = c.dir.clone();
    let mut args = vec![];
    if !matches!(rules, File::NotPassed) {
        args.push(place(&dir, "rules", rules, call.ways[0], call.names[0]));
        if !matches!(script, File::NotPassed) {
            args.push(place(&dir, "script", script, call.ways[1], call.names[1]));
        }
    }
    let r = run_tool(&dir, &args, call.env, pipe.filter(|_| args.len() == 2))?;
    let err = clip(&String::from_utf8_lossy(&r.stderr), 500);
    c.label(if want { "success expected" } else { "failure expected" });
    let got = format!("exit status {:?}, signal {:?}, standard error {err:?}, standard output {:?}", r.code, r.signal, clip(&String::from_utf8_lossy(&r.stdout), 200));
    if r.signal.is_some() {
        return Err(format!("the tool was killed by a signal: {got}"));
    }
    match (want, r.code) {
        (true, Some(0)) => Ok(()),
        (false, Some(n)) if n != 0 => {
            if r.stderr.iter().all(|b| b.is_ascii_whitespace()) {
                Err(format!("failure without a message: {got}"))
            } else {
                Ok(())
            }
        }
        (true, _) => Err(format!("the grammar generates the script, but: {got}")),
        (false, _) => Err(format!("success reported for something that is not a sentence of a usable grammar: {got}")),
    }
}

fn of_rules(r: &CRules) -> Grammar {
    let mut names: Vec<String> = r.keys().cloned().collect();
    let mut out = vec![];
    for alts in r.values() {
        out.push(
            alts.iter()
                .map(|a| {
                    a.iter()
                        .map(|(nt, x)| {
                            if !nt {
                                return Sym::T(x.clone());
                            }
                            Sym::N(names.iter().position(|n| n == x).unwrap_or_else(|| {
                                names.push(x.clone());
                                names.len() - 1
                            }))
                        })
                        .collect::<Alt>()
                })
                .collect::<Vec<Alt>>(),
        );
    }
    while out.len() < names.len() {
        out.push(vec![]);
    }
    let start = names.iter().position(|n| n == "start").unwrap_or(usize::MAX);
    Grammar { names, rules: out, start }
}
fn accepts(g: &Grammar, x: &str) -> bool {
    usable(g).is_ok() && run_ll(g, &LlTable::new(g), g.start, x).err.is_none()
}
fn actions(s: &mut Src, st: &mut [Stmt]) {
    let pct = *s.pick(&[0, 0, 30, 70]);
    for x in st.iter_mut() {
        if s.chance(pct) {
            x.action = Some(action_text(s));
        }
    }
}
fn script_of(s: &mut Src, g: &Grammar) -> String {
    let mut x = if g.productive().iter().all(|x| *x) { gen_script(s, g, 40).0 } else { "a".into() };
    if x.chars().count() > 3000 {
        x = x.chars().take(3000).collect();
    }
    if s.chance(20) {
        x += s.pick(&["\n", "\r\n", " ", "\0", "\n\n", "\u{feff}"]);
    } else if s.chance(4) {
        x.insert(0, '\u{feff}');
    }
    x
}

fn c22(s: &mut Src, c: &mut Ctx) -> Res {
    let call = gen_call(s);
    match s.weighted(&[50, 14, 10, 12, 14]) {
        0 => {
            let mut g = lang_grammar(s);
            g.names[g.start] = "start".into();
            if (0..g.n()).any(|i| i != g.start && g.names[i] == "start") {
                return Ok(());
            }
            let l = Layout::gen(s);
            let mut st = scatter(s, plain_stmts(&g));
            actions(s, &mut st);
            let text = render(s, &l, &g.names, &st, None);
            let x = script_of(s, &g);
            let want = Recogniser::new(&g, &x).accepts(g.start);
            c.label("usable grammar");
            c.label_if(st.iter().any(|x| x.action.is_some()), "with actions");
            if want && x.is_empty() || g.rules.iter().all(|r| r.len() < 2) {
                c.label("trivial");
            } else {
                c.nontrivial(&(&text, &x));
            }
            check_cli(&text_file(&text), &text_file(&x), want, call, c)
        }
        1 => {
            let o = opts(s);
            let mut g = if s.chance(50) { raw_grammar(s, &o) } else { lang_grammar(s) };
            for _ in 0..s.range(0, 2) {
                mutate_grammar(s, &mut g);
            }
            if g.start < g.n() && !g.names.contains(&"start".to_string()) {
                g.names[g.start] = "start".into();
            }
            g.start = g.names.iter().position(|n| n == "start").unwrap_or(usize::MAX);
            let l = Layout::gen(s);
            let mut st = scatter(s, plain_stmts(&g));
            actions(s, &mut st);
            let text = render(s, &l, &g.names, &st, None);
            let ok = usable(&g);
            let x = if ok.is_ok() { script_of(s, &g) } else { s.pick(&["", "a", "x"]).to_string() };
            c.label(format!("any grammar: {}", ok.err().unwrap_or("usable")));
            c.nontrivial(&(&text, &x));
            check_cli(&text_file(&text), &text_file(&x), accepts(&g, &x), call, c)
        }
        2 => {
            let (mut g, over, file) = ignore_case(s);
            g.start = g.names.iter().position(|n| n == "start").unwrap_or(usize::MAX);
            let l = Layout::gen(s);
            let mut st = plain_stmts(&g);
            for x in st.iter_mut() {
                x.over = over[x.rule];
            }
            let text = render(s, &l, &g.names, &st, file);
            let eff: Vec<Option<usize>> = over.iter().map(|o| o.unwrap_or(file)).collect();
            let w = weave(&g, &eff);
            let x = if usable(&w).is_ok() { script_of(s, &w) } else { "~".into() };
            c.label("with ignored symbols");
            c.nontrivial(&(&text, &x));
            check_cli(&text_file(&text), &text_file(&x), accepts(&w, &x), call, c)
        }
        3 => {
            let (text, _) = broken_text(s);
            let g = match read(&text) {
                Verdict::Valid(r) => Some(of_rules(&r)),
                Verdict::Invalid(_) => None,
                Verdict::Open(_) => {
                    c.label("not decided by the notation (skipped)");
                    return Ok(());
                }
            };
            let x = match &g {
                Some(g) if usable(g).is_ok() => script_of(s, g),
                _ => s.pick(&["", "a"]).to_string(),
            };
            let want = g.as_ref().is_some_and(|g| accepts(g, &x));
            c.label(if g.is_some() { "edited grammar text, readable" } else { "edited grammar text, not readable" });
            c.nontrivial(&(&text, &x));
            check_cli(&text_file(&text), &text_file(&x), want, call, c)
        }
        _ => {
            let k = s.below(14);
            let mut g = lang_grammar(s);
            g.names[g.start] = "start".into();
            let good = render_plain(&g);
            let x = script_of(s, &g);
            let mut rules = text_file(&good);
            let mut script = text_file(&x);
            let cut = |s: &mut Src, t: &str| {
                let mut b = t.as_bytes().to_vec();
                let at = s.below(b.len() + 1);
                match s.below(4) {
                    0 => b.insert(at, 0xff),
                    1 => b.insert(at, 0x80),
                    2 => b.extend([0xe3, 0x81]),
                    _ => {
                        b.splice(at..at, [0xed, 0xa0, 0x80]);
                    }
                }
                File::Bytes(b)
            };
            match k {
                0 => rules = File::Missing,
                1 => script = File::Missing,
                2 => rules = File::Directory,
                3 => script = File::Directory,
                4 => rules = cut(s, &good),
                5 => script = cut(s, &x),
                6 => rules = File::NotPassed,
                7 => script = File::NotPassed,
                8 => rules = text_file(s.pick(&["", " ", "\n", ";", "\u{feff}start -> \"a\";"])),
                10..=13 => {
                    // whatever a tolerant reader puts in the place of the bytes, what it
                    // gets is a grammar and a sentence of it
                    let d = *s.pick(&["\u{fffd}", "", "\u{ff}", "?"]);
                    let (u, v) = (*s.pick(&["", "u", "é"]), *s.pick(&["v", "ß"]));
                    let bad: &[u8] = s.pick(&[&b"\xff"[..], b"\x80", b"\xc0", b"\xe9"]);
                    let raw = [u.as_bytes(), bad, v.as_bytes()].concat();
                    let dec = format!("{u}{d}{v}");
                    let w = if g.productive().iter().all(|x| *x) { yield_of(&derive(s, &g, &g.min_alt(), g.start, 10)) } else { return Ok(()) };
                    let old = g.start;
                    g.names[old] = (0..).map(|i| format!("old{i}")).find(|n| !g.names.contains(n)).unwrap();
                    g.names.push("start".into());
                    g.rules.push(vec![vec![Sym::T(dec.clone()), Sym::N(old)]]);
                    g.start = g.n() - 1;
                    if (0..old).chain(old + 1..g.start).any(|i| g.names[i] == "start") {
                        return Ok(());
                    }
                    let mut t = render_plain(&g).into_bytes();
                    if k == 13 {
                        let i = t.iter().position(|b| *b == b';').unwrap();
                        match s.below(2) {
                            0 => t.extend([b"zz -> \"a\" {".as_slice(), &raw, b"};"].concat()),
                            _ => {
                                let f = format!("\"{dec}\"");
                                let i = String::from_utf8_lossy(&t).rfind(&f).unwrap_or(i);
                                t.splice(i + 1..i + 1 + dec.len(), raw.clone());
                            }
                        }
                        rules = File::Bytes(t);
                        script = text_file(&format!("{dec}{w}"));
                    } else {
                        rules = File::Bytes(t);
                        script = File::Bytes([raw.as_slice(), w.as_bytes()].concat());
                    }
                }
                _ => {
                    rules = text_file(&x);
                    script = text_file(&good);
                    if !matches!(read(&x), Verdict::Invalid(_)) {
                        return Ok(());
                    }
                }
            }
            if k >= 10 && rules.text().is_some() && script.text().is_some() {
                return Err("harness: the bytes are valid UTF-8".into());
            }
            if k == 4 && rules.text().is_some() || k == 5 && script.text().is_some() {
                return Err("harness: the bytes are valid UTF-8".into());
            }
            if k == 8 && !matches!(read(rules.text().unwrap()), Verdict::Invalid(_)) && rules.text().unwrap().contains("start") {
                c.label("byte order mark in front of the grammar (skipped)");
                return Ok(());
            }
            let what = ["no rule file", "no script file", "rule file is a directory", "script file is a directory", "rule file is not UTF-8", "script file is not UTF-8", "no arguments", "one argument", "empty grammar", "files swapped", "script bytes that could be decoded leniently", "script bytes that could be decoded leniently", "script bytes that could be decoded leniently", "rule bytes that could be decoded leniently"][k];
            c.label(what);
            c.nontrivial(&(what, &good, &x));
            check_cli(&rules, &script, false, call, c)
        }
    }
}
fn c22_pinned() -> Vec<Pinned> {
    let g1 = gram_of(&[("start", &[&["\"a\""]])]);
    let nest = "start -> \"(\" start \")\" start | #;";
    let mut v = vec![];
    let mut p = |n: &str, rules: File, script: File, want: bool| v.push(pin(n, move |c| check_cli(&rules, &script, want, PLAIN, c)));
    let t1 = render_plain(&g1);
    p("sentence", text_file(&t1), text_file("a"), true);
    p("left-over character", text_file(&t1), text_file("ab"), false);
    p("line end after the sentence", text_file(&t1), text_file("a\n"), false);
    p("empty script file", text_file(&t1), text_file(""), false);
    p("empty sentence", text_file(nest), text_file(""), true);
    p("deeply nested script", text_file(nest), text_file(&("(".repeat(60_000) + &")".repeat(60_000))), true);
    p("deeply nested script, one bracket short", text_file(nest), text_file(&("(".repeat(60_000) + &")".repeat(59_999))), false);
    p("long script", text_file(nest), text_file(&"()".repeat(100_000)), true);
    p("long script that goes wrong at its end", text_file(nest), text_file(&("()".repeat(100_000) + ")")), false);
    p("left recursion", text_file("start -> start \"a\" | #;"), text_file("a"), false);
    p("conflict", text_file("start -> \"a\" \"b\" | \"a\" \"c\";"), text_file("ab"), false);
    p("undefined rule", text_file("start -> \"a\" | x;"), text_file("a"), false);
    p("no start rule", text_file("begin -> \"a\";"), text_file("a"), false);
    p("unfinished grammar", text_file("start -> \"a\""), text_file("a"), false);
    p("actions are not looked at", text_file("start -> \"a\" {no such; } -> {\\} |} ;"), text_file("a"), false);
    p("action with an escaped brace", text_file("start -> \"a\" {no such; -> {\\} |} ;"), text_file("a"), true);
    for n in NAMES {
        for (w, x, want) in [(Way::Path, "a", true), (Way::Relative, "a", true), (Way::Relative, "b", false), (Way::Link, "a", true)] {
            let t1 = t1.clone();
            v.push(pin(Box::leak(format!("files called {:?}, {w:?}, script {x}", String::from_utf8_lossy(n)).into_boxed_str()), move |c| {
                check_cli(&text_file(&t1), &text_file(x), want, Call { ways: [w; 2], names: [n; 2], env: &[] }, c)
            }));
        }
    }
    for size in [1, 7, 4096, 1 << 20] {
        for (bad, want) in [("", true), (")", false)] {
            v.push(pin(Box::leak(format!("long script through a pipe in pieces of {size}, then {bad:?}").into_boxed_str()), move |c| {
                let x = "()".repeat(100_000) + bad;
                check_cli(&text_file("start -> \"(\" start \")\" start | #;"), &text_file(&x), want, Call { ways: [Way::Path, Way::Pipe(size)], ..PLAIN }, c)
            }));
            v.push(pin(Box::leak(format!("long grammar through a pipe in pieces of {size}, then {bad:?}").into_boxed_str()), move |c| {
                let t = format!("{}start -> \"(\" start \")\" start | #;{bad}", " \n".repeat(50_000));
                check_cli(&text_file(&t), &text_file("()"), want, Call { ways: [Way::Pipe(size), Way::Path], ..PLAIN }, c)
            }));
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "A case is a rule file and a script file handed to the binary: usable grammars in random layouts with and without actions and with sentences and near misses, arbitrary and mutated grammars, grammars with ignored symbols, grammar texts edited character by character, and faulty files (missing, directory, not UTF-8, empty, swapped, not passed); the files are also passed by relative paths, links, unusual names and through a pipe, in various environments. The exit status and the message are compared with the reference reader, the reference analysis and the reference recogniser. Non-trivial: the grammar has a rule with two alternatives and the script is not the empty sentence, or the pair comes from one of the faulty classes.",
        max: 700, quick: 40_000, thorough: 600_000, case: c22, pinned: c22_pinned, known: no_known, cpu: 200,
    }]
}

//! C27, C28, C30: what may not make a difference.
use super::gram::*;
use super::lang::{check_log, lang_grammar};
use crate::build::build_shuffled;
use crate::choices::Src;
use crate::grammar::*;
use crate::refll::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use crate::vm::*;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parse_funcs::parse_whitespace;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::{PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

// ------------------------------------------------------------------ C27

type CharMap = BTreeMap<char, char>;
fn map_text(m: &CharMap, x: &str) -> String {
    x.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect()
}
fn map_terminal(m: &CharMap, x: &str) -> String {
    map_text(m, x)
}
/// other characters for the given ones, one for one; quote and backslash stay what they are
fn char_map(s: &mut Src, chars: &BTreeSet<char>) -> CharMap {
    let from: Vec<char> = chars.iter().copied().filter(|c| *c != '"' && *c != '\\').collect();
    let mut m = CharMap::new();
    match s.below(4) {
        0 => {}
        1 => {
            // among themselves
            let mut to = from.clone();
            s.shuffle(&mut to);
            m = from.into_iter().zip(to).collect();
        }
        k => {
            let mut used = BTreeSet::from(['"', '\\']);
            for c in from {
                let mut d = match (k, s.below(4)) {
                    (2, 0 | 1) => *s.pick(UNSEEN),
                    (2, _) => relative(s, c),
                    (_, 0) => char::from_u32(s.below(128) as u32).unwrap_or('q'),
                    (_, 1) => c,
                    _ => char::from_u32(s.size(0x10ffff) as u32).unwrap_or('\u{3042}'),
                };
                while !used.insert(d) {
                    d = char::from_u32(d as u32 + 1).unwrap_or('!');
                }
                m.insert(c, d);
            }
        }
    }
    m
}
/// another name for every rule; the rule named start keeps its name
fn rename(s: &mut Src, g: &Grammar) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    match s.below(4) {
        0 => return g.names.clone(),
        1 => {
            // the same names on other rules
            let mut pool: Vec<String> = g.names.iter().filter(|n| *n != "start").cloned().collect();
            s.shuffle(&mut pool);
            for n in &g.names {
                names.push(if n == "start" { n.clone() } else { pool.pop().unwrap_or_default() });
            }
            return names;
        }
        2 => {
            for (i, n) in g.names.iter().enumerate() {
                if n == "start" {
                    names.push(n.clone());
                    continue;
                }
                // like a terminal of the grammar, like start, like a word of the notation
                let ts: Vec<String> = g.chars().into_iter().filter(|c| c.is_alphabetic()).map(String::from).collect();
                let mut x = match s.below(4) {
                    0 if !ts.is_empty() => s.pick(&ts).clone(),
                    1 => s.pick(&["IGNORE", "start_", "start1", "starts", "Start", "terminate", "Terminate", "empty", "Empty", "end", "root", "None", "eof", "EOF", "x"]).to_string(),
                    2 => format!("{n}{n}"),
                    _ => format!("r{}", g.n() - i),
                };
                while x == "start" || names.contains(&x) {
                    x.push(*s.pick(&['_', '0', 'a', 'ä']));
                }
                names.push(x);
            }
        }
        _ => {
            let fresh = gen_names(s, g.n() + 1, true);
            let mut it = fresh.into_iter().skip(1);
            for n in &g.names {
                names.push(if n == "start" { n.clone() } else { it.next().unwrap_or_default() });
            }
        }
    }
    names
}
struct Twin {
    g: Grammar,
    chars: CharMap,
    /// rule i of the original is rule at[i] of the twin
    at: Vec<usize>,
}
fn twin(s: &mut Src, g: &Grammar, scripts: &[String]) -> Twin {
    let mut all = g.chars();
    for x in scripts {
        all.extend(x.chars());
    }
    let chars = char_map(s, &all);
    let names = rename(s, g);
    let mut order: Vec<usize> = (0..g.n()).collect();
    if s.chance(60) {
        s.shuffle(&mut order);
    }
    let mut at = vec![0; g.n()];
    for (new, &old) in order.iter().enumerate() {
        at[old] = new;
    }
    let perm = s.chance(60);
    let mut rules = vec![];
    let mut nn = vec![];
    for &old in &order {
        nn.push(names[old].clone());
        let mut alts: Vec<Alt> = g.rules[old]
            .iter()
            .map(|a| {
                a.iter()
                    .map(|y| match y {
                        Sym::T(t) => Sym::T(map_terminal(&chars, t)),
                        Sym::N(j) => Sym::N(at[*j]),
                    })
                    .collect()
            })
            .collect();
        if perm {
            s.shuffle(&mut alts);
        }
        rules.push(alts);
    }
    Twin { g: Grammar { names: nn, rules, start: at[g.start] }, chars, at }
}
/// the analysis, by rule number of the grammar
type Analysis = Result<Vec<((BTreeSet<char>, bool, bool), BTreeSet<Look>)>, String>;
fn analysis(pd: &ParserData<NullVm>, g: &Grammar) -> Result<Analysis, String> {
    let ids: Vec<Option<usize>> = g.names.iter().map(|n| pd.get_element_nt_index(n)).collect();
    let Some(st) = ids[g.start] else { return Ok(Err("no start".into())) };
    let first = match guard(|| get_first_sets(pd)).map_err(|m| format!("get_first_sets: {m}"))? {
        Ok(f) => f,
        Err(e) => return Ok(Err(format!("{e:?}"))),
    };
    let follow = match guard(|| get_follow_sets(st, &first, pd)).map_err(|m| format!("get_follow_sets: {m}"))? {
        Ok(f) => f,
        Err(e) => return Ok(Err(format!("{e:?}"))),
    };
    let mut v = vec![];
    for (i, id) in ids.iter().enumerate() {
        let (Some(f), Some(o)) = (id.and_then(|x| first.get(&x)), id.and_then(|x| follow.get(&x))) else {
            return Ok(Err(format!("no sets for {}", g.names[i])));
        };
        v.push((firsts(f), looks(o)));
    }
    Ok(Ok(v))
}
/// one way of getting the grammar into the library
fn enter(s: &mut Src, g: &Grammar, c: &mut Ctx) -> Result<(ParserData<NullVm>, usize), String> {
    if s.chance(50) {
        let text = {
            let l = Layout::gen(s);
            let st = if s.chance(30) { scatter(s, plain_stmts(g)) } else { plain_stmts(g) };
            render(s, &l, &g.names, &st, None)
        };
        let pd = match read_text(&text, &NullVm::new()) {
            Ok(Ok(pd)) => pd,
            Ok(Err(e)) => return Err(format!("grammar text refused: {e}\n{text}")),
            Err(m) => return Err(format!("reading the grammar text: {m}\n{text}")),
        };
        c.label("entered as text");
        let ix = pd.get_element_nt_index(&g.names[g.start]).ok_or("the start rule has no number")?;
        Ok((pd, ix))
    } else {
        let instr = (0..g.n()).map(|_| None).collect();
        let (pd, map) = build_shuffled::<NullVm>(s, g, instr, true);
        c.label("entered in code");
        Ok((pd, map[g.start]))
    }
}
fn c27(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = match s.weighted(&[60, 20, 20]) {
        0 => lang_grammar(s),
        1 => raw_grammar(s, &GenOpts { max_rules: 12, ..GenOpts::default() }),
        _ => {
            let mut g = lang_grammar(s);
            for _ in 0..s.range(1, 2) {
                mutate_grammar(s, &mut g);
            }
            g
        }
    };
    if g.rules[g.start].is_empty() {
        g.rules[g.start].push(vec![]);
    }
    let good = usable(&g).is_ok();
    let scripts: Vec<String> = if good && g.productive().iter().all(|x| *x) {
        (0..s.range(1, 4)).map(|_| clip(&gen_script(s, &g, 25).0, 400)).collect()
    } else {
        vec![]
    };
    let w = twin(s, &g, &scripts);
    c.describe(|| format!("{}scripts: {scripts:?}\nthe same grammar with other names, characters and orders:\n{}", render_plain(&g), render_plain(&w.g)));
    let changed = w.g.rules != g.rules || w.g.names != g.names;
    c.label_if(w.g.names != g.names, "other names or order of rules");
    c.label_if(w.chars.iter().any(|(a, b)| a != b), "other characters");
    c.label(if good { "usable grammar" } else { "unusable grammar" });
    if changed && (!good || scripts.iter().any(|x| !x.is_empty())) {
        c.nontrivial(&(&g.rules, &w.g.rules, &g.names, &w.g.names, &scripts));
    }
    let (pa, ia) = enter(s, &g, c)?;
    let (pb, ib) = enter(s, &w.g, c)?;
    // the analysis
    match (analysis(&pa, &g)?, analysis(&pb, &w.g)?) {
        (Ok(a), Ok(b)) => {
            let f = |x: &char| *w.chars.get(x).unwrap_or(x);
            for i in 0..g.n() {
                let (fi, fo) = &a[i];
                let want = ((fi.0.iter().map(f).collect::<BTreeSet<char>>(), fi.1, fi.2), fo.iter().map(|l| l.as_ref().map(f)).collect::<BTreeSet<Look>>());
                if b[w.at[i]] != want {
                    return Err(format!("the sets of {} are {:?}, but those of {} in the changed grammar {:?}, should be {want:?}", g.names[i], a[i], w.g.names[w.at[i]], b[w.at[i]]));
                }
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("the analysis gives {} but {} for the changed grammar", short(&a), short(&b))),
    }
    // the parser, each built twice
    let vm = NullVm::new();
    let (pa2, ia2) = enter(s, &g, c)?;
    let (pb2, ib2) = enter(s, &w.g, c)?;
    let mk = |pd: ParserData<NullVm>, ix: usize| guard(|| Parser::new_from_parser_data(pd, ix, &vm));
    let mut ps = vec![mk(pa, ia), mk(pa2, ia2), mk(pb, ib), mk(pb2, ib2)];
    let oks: Vec<bool> = ps.iter().map(|p| p.is_ok()).collect();
    if oks.iter().any(|x| *x != oks[0]) {
        return Err(format!("built: {oks:?} (grammar, again, changed grammar, again)"));
    }
    if !oks[0] {
        return Ok(());
    }
    let twins: Vec<String> = scripts.iter().map(|x| map_text(&w.chars, x)).collect();
    for (x, y) in scripts.iter().zip(&twins) {
        let n = x.chars().count();
        let tr = |o: Outcome, map: bool| -> Outcome {
            let f = |t: &str| if map { map_text(&w.chars, t) } else { t.to_string() };
            match o {
                Outcome::Tree(t) => Outcome::Tree(t.into_iter().map(|(d, t)| (d, f(&t))).collect()),
                Outcome::Unexpected { pos, chr, .. } => {
                    if pos >= n {
                        Outcome::End { pos }
                    } else {
                        Outcome::Unexpected { pos, chr: f(&chr.to_string()).chars().next().unwrap(), expected: String::new() }
                    }
                }
                o => o,
            }
        };
        let mut got = vec![];
        for (k, p) in ps.iter_mut().enumerate() {
            let Ok(p) = p else { continue };
            let mut st = NullVm::create_new_state();
            let o = parse_with(p, if k < 2 { x } else { y }, &mut st);
            if let Outcome::Panic(m) = &o {
                return Err(format!("script {x:?}: {m}"));
            }
            got.push(tr(o, k < 2));
        }
        for k in 1..got.len() {
            if got[k] != got[0] {
                return Err(format!("script {:?} gives (written in the characters of the changed grammar) {}, but {} {}", clip(x, 200), got[0].short(), ["", "built again", "with other names, characters and orders", "with other names, characters and orders, built again"][k], got[k].short()));
            }
        }
    }
    Ok(())
}
fn short(a: &Analysis) -> String {
    match a {
        Ok(_) => "the sets".into(),
        Err(e) => format!("the error {e}"),
    }
}

// ------------------------------------------------------------------ C28

/// read statement by statement and put together by the caller
fn read_by_statements<T: VM>(text: &str, vm: &T) -> Result<Result<ParserData<T>, String>, String> {
    guard(|| {
        let mut pw = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pw, vm);
        loop {
            parse_whitespace(&mut rp.parse_process);
            if rp.parse_process.peek().is_none() {
                break;
            }
            let (key, mut rule) = match rp.parse_rule() {
                Ok(x) => x,
                Err(e) => return Err(format!("{e:?}")),
            };
            match rp.parser_data.parse_rules.rules.get_mut(&key) {
                Some(r) => r.possible_productions.append(&mut rule.possible_productions),
                None => {
                    rp.parser_data.parse_rules.rules.insert(key, rule);
                }
            }
        }
        Ok(rp.parser_data)
    })
}
/// the stages one after the other
fn by_stages<'a, T: VM>(pd: ParserData<T>, start: usize, vm: &'a T, twice: bool) -> Result<Parser<'a, T>, String> {
    guard(|| {
        let mut first = get_first_sets(&pd).map_err(|e| format!("{e:?}"))?;
        if twice {
            first = get_first_sets(&pd).map_err(|e| format!("second time: {e:?}"))?;
        }
        let mut follow = get_follow_sets(start, &first, &pd).map_err(|e| format!("{e:?}"))?;
        if twice {
            follow = get_follow_sets(start, &first, &pd).map_err(|e| format!("second time: {e:?}"))?;
        }
        let el = pd.get_elements_verbose();
        let maps = get_steuermaps(&first, &follow, pd).map_err(|e| format!("{e:?}"))?;
        Ok(Parser::new(maps, el, vm))
    })
    .and_then(|x| x)
}
fn c28(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = lang_grammar(s);
    let broken = s.chance(15);
    if broken {
        mutate_grammar(s, &mut g);
        if g.rules[g.start].is_empty() || g.names[g.start] != "start" {
            return Ok(());
        }
    }
    let good = usable(&g).is_ok() && g.productive().iter().all(|x| *x);
    let mut stmts = plain_stmts(&g);
    let mut n_instr = vec![0; g.n()];
    for st in &mut stmts {
        if s.chance(40) {
            st.action = Some(s.pick(&["", " ", "PushConst 7;", "a"]).to_string());
            n_instr[st.rule] = s.range(1, 3);
        }
    }
    let stmts = if s.chance(40) { scatter(s, stmts) } else { stmts };
    let l = Layout::gen(s);
    let text = render(s, &l, &g.names, &stmts, None);
    let scripts: Vec<String> = if good { (0..s.range(1, 4)).map(|_| clip(&gen_script(s, &g, 25).0, 400)).collect() } else { vec![] };
    c.describe(|| format!("{text}\nscripts: {scripts:?}"));
    c.label(if good { "usable grammar" } else { "unusable grammar" });
    let plans = || -> VecDeque<CallPlan> {
        stmts.iter().filter(|x| x.action.is_some()).map(|x| CallPlan { n_instr: n_instr[x.rule], ..Default::default() }).collect()
    };
    let vms: Vec<TraceVm> = (0..7)
        .map(|_| {
            let v = TraceVm::default();
            *v.plans.borrow_mut() = plans();
            v
        })
        .collect();
    let names = ["from text", "from data read from the text", "from data read from the text, stage by stage", "from data built in code, stage by stage", "from statements read one by one", "from statements read one by one, stage by stage", "from data built in code"];
    let instr = || (0..g.n()).map(|i| if n_instr[i] > 0 { Some((0..n_instr[i]).map(|k| TInstr { rule: g.names[i].clone(), k }).collect()) } else { None }).collect();
    let start_of = |pd: &ParserData<TraceVm>| pd.get_element_nt_index("start").unwrap_or(usize::MAX);
    let mut ps: Vec<Result<Parser<TraceVm>, String>> = vec![];
    for (k, vm) in vms.iter().enumerate() {
        let data = match k {
            1 | 2 => match read_text(&text, vm)? {
                Ok(pd) => Some(pd),
                Err(e) => return Err(format!("grammar text refused: {e}")),
            },
            4 | 5 => match read_by_statements(&text, vm)? {
                Ok(pd) => Some(pd),
                Err(e) => return Err(format!("grammar text refused, read statement by statement: {e}")),
            },
            3 | 6 => Some(build_shuffled::<TraceVm>(s, &g, instr(), true).0),
            _ => None,
        };
        ps.push(match (k, data) {
            (2 | 3 | 5, Some(pd)) => {
                let ix = start_of(&pd);
                by_stages(pd, ix, vm, s.chance(30))
            }
            (_, Some(pd)) => {
                let ix = start_of(&pd);
                guard(|| Parser::new_from_parser_data(pd, ix, vm))
            }
            _ => parser_text(&text, vm),
        });
    }
    let oks: Vec<bool> = ps.iter().map(|p| p.is_ok()).collect();
    if let Some(k) = (1..ps.len()).find(|&k| oks[k] != oks[0]) {
        let e = ps.iter().filter_map(|p| p.as_ref().err()).next().cloned().unwrap_or_default();
        return Err(format!("a parser {} can{} be built, but {} it can{}: {e}", names[0], if oks[0] { "" } else { "not" }, names[k], if oks[k] { "" } else { "not" }));
    }
    if good != oks[0] && !broken {
        return Err(format!("the grammar is usable but refused: {}", ps[0].as_ref().err().cloned().unwrap_or_default()));
    }
    if !oks[0] || !good {
        return Ok(());
    }
    let mut key = false;
    for x in &scripts {
        let mut got: Vec<(Outcome, Vec<Exec>)> = vec![];
        for p in ps.iter_mut() {
            let Ok(p) = p else { continue };
            let mut st = TState::default();
            let o = parse_with(p, x, &mut st);
            got.push((o.canon(), st.log));
        }
        key |= !x.is_empty();
        for k in 1..got.len() {
            if got[k].0 != got[0].0 {
                return Err(format!("script {:?}: {} {}, {} {}", clip(x, 200), names[0], got[0].0.short(), names[k], got[k].0.short()));
            }
            if got[k].1 != got[0].1 {
                return Err(format!("script {:?}: {} actions {}, {} {} (or others)", clip(x, 200), got[0].1.len(), names[0], got[k].1.len(), names[k]));
            }
        }
    }
    if key {
        c.nontrivial(&(&g.rules, &text, &scripts));
    }
    // started with another rule of the same text
    let mut h = g.clone();
    h.start = s.below(g.n());
    if h.start != g.start {
        let vm = NullVm::new();
        let pd = read_text(&text.clone(), &vm)?.map_err(|e| format!("grammar text refused: {e}"))?;
        let ix = pd.get_element_nt_index(&h.names[h.start]).ok_or("a rule of the text has no number")?;
        let u = usable(&h).is_ok();
        let sc: Vec<String> = if u { (0..s.range(1, 3)).map(|_| clip(&gen_script(s, &h, 20).0, 400)).collect() } else { vec![] };
        let p = guard(|| Parser::new_from_parser_data(pd, ix, &vm));
        c.label(if u { "started with another rule" } else { "unusable from another rule" });
        match (p, u) {
            (Ok(mut p), true) => {
                let t = LlTable::new(&h);
                for x in &sc {
                    let run = run_ll(&h, &t, h.start, x);
                    let mut st = NullVm::create_new_state();
                    let o = parse_with(&mut p, x, &mut st);
                    let fine = match (&run.err, &o) {
                        (None, Outcome::Tree(f)) => *f == flat_of(&run.dtree),
                        (Some(_), o) => o.refused(),
                        _ => false,
                    };
                    if !fine {
                        return Err(format!("started with {}: script {:?} should be {} but gives {}", h.names[h.start], clip(x, 200), if run.err.is_none() { "accepted" } else { "refused" }, o.short()));
                    }
                }
            }
            (Err(_), false) => {}
            (p, u) => return Err(format!("the grammar is {}usable when started with {}, but a parser can{} be built", if u { "" } else { "not " }, h.names[h.start], if p.is_ok() { "" } else { "not" })),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C30

/// every (kind, name) and its number
fn numbers<T: VM>(pd: &ParserData<T>) -> Result<Vec<(bool, String)>, String> {
    let v: Vec<(bool, String)> = (0..pd.get_elements_verbose().len()).map(|ix| elem(pd, ix)).collect();
    for (ix, (nt, name)) in v.iter().enumerate() {
        let found = if *nt { pd.get_element_nt_index(name) } else { pd.get_element_t_index(name) };
        if found != Some(ix) {
            return Err(format!("{} {name:?} has the number {ix} but is found as {found:?}", if *nt { "rule" } else { "terminal" }));
        }
    }
    Ok(v)
}
/// a rule (or two) for what may be ignored, put behind the other rules
fn add_ignored(s: &mut Src, g: &mut Grammar) -> Option<usize> {
    let used: BTreeSet<char> = g.rules.iter().flatten().flatten().filter_map(|x| if let Sym::T(t) = x { Some(t.chars()) } else { None }).flatten().collect();
    let a = ['~', ' ', '_', '\u{1f}'].into_iter().find(|x| !used.contains(x))?;
    if g.names.iter().any(|x| x == "ws" || x == "blank") {
        return None;
    }
    let w = g.n();
    g.names.push("ws".into());
    let t = Sym::T(a.into());
    match s.below(3) {
        0 => g.rules.push(vec![vec![t], vec![]]),
        1 => g.rules.push(vec![vec![t, Sym::N(w)], vec![]]),
        _ => {
            g.rules.push(vec![vec![Sym::N(w + 1), Sym::N(w)], vec![]]);
            g.names.push("blank".into());
            g.rules.push(vec![vec![t]]);
        }
    }
    Some(w)
}

fn c30(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = lang_grammar(s);
    let own = g.n();
    let ws = if s.chance(30) { add_ignored(s, &mut g) } else { None };
    let mut n_instr = vec![0; g.n()];
    let mut stmts = plain_stmts(&g);
    for st in &mut stmts {
        if s.chance(40) {
            st.action = Some(s.pick(&["", " ", "PushConst 7;", "a", "\\}"]).to_string());
            n_instr[st.rule] = s.range(1, 3);
        }
    }
    let ignored = stmts.split_off(stmts.iter().position(|x| x.rule >= own).unwrap_or(stmts.len()));
    // instructions that are set by a call of their own
    let mut alone: Vec<Stmt> = vec![];
    for st in &mut stmts {
        if st.action.is_some() && s.chance(25) {
            let action = st.action.take();
            alone.push(Stmt { rule: st.rule, alts: vec![], action, over: None });
        }
    }
    let mut stmts = scatter(s, stmts);
    let mut at = 0;
    let late = s.chance(40);
    for st in ignored {
        if late {
            at = s.range(at, stmts.len());
        }
        stmts.insert(at, st);
        at += 1;
    }
    // parts, each a text or a list of calls
    let mut parts: Vec<(bool, Vec<Stmt>)> = vec![];
    let mut text = s.chance(50);
    for st in stmts {
        if parts.is_empty() || s.chance(30) {
            parts.push((text, vec![]));
            text = if s.chance(30) { text } else { !text };
        }
        parts.last_mut().unwrap().1.push(st);
    }
    if s.chance(10) {
        let at = s.below(parts.len() + 1);
        parts.insert(at, (true, vec![]));
    }
    let has_alone = !alone.is_empty();
    for st in alone {
        let at = s.below(parts.len() + 1);
        parts.insert(at, (false, vec![st]));
    }
    // the part from which on the texts have the ignore production: what it reaches must be known
    let known_from = parts.iter().rposition(|p| p.1.iter().any(|x| x.rule >= own)).map_or(0, |k| k + 1 - parts[k].0 as usize);
    let woven_from = ws.map(|_| match s.weighted(&[64, 16, 20]) {
        0 => known_from,
        1 => known_from + 1,
        _ => s.below(known_from + 1),
    });
    let mut twice_woven = 0;
    let instr = |i: usize| -> Vec<TInstr> { (0..n_instr[i]).map(|k| TInstr { rule: g.names[i].clone(), k }).collect() };
    let vm = TraceVm::default();
    let mut pd = ParserData::<TraceVm>::new();
    let mut so_far: Vec<Vec<Alt>> = vec![vec![]; g.n()];
    let mut log = String::new();
    let l = Layout::gen(s);
    let mut known: Vec<(bool, String)> = vec![];
    let mut res = Ok(());
    for (k, (text, stmts)) in parts.iter().enumerate() {
        let ignore = ws.filter(|_| woven_from.is_some_and(|f| k >= f));
        if *text {
            let mut stmts = stmts.clone();
            let off: Vec<bool> = (0..g.n()).map(|_| ignore.is_some() && s.chance(15)).collect();
            for st in &mut stmts {
                if off[st.rule] {
                    st.over = Some(None);
                }
            }
            let t = render(s, &l, &g.names, &stmts, ignore);
            log.push_str(&format!("part {k}, text: {t}\n"));
            vm.plans.borrow_mut().extend(stmts.iter().filter(|x| x.action.is_some()).map(|x| CallPlan { n_instr: n_instr[x.rule], ..Default::default() }));
            let before = std::mem::replace(&mut pd, ParserData::new());
            let r = guard(|| {
                let mut pw = PeekableWrapper::from_str(&t);
                let mut rp = RuleParser::new(&mut pw, &vm);
                rp.parser_data = before;
                let e = rp.parse_rules().err().map(|e| format!("{e:?}"));
                (rp.parser_data, e)
            });
            match r {
                Err(m) => res = Err(format!("reading part {k}: {m}")),
                Ok((_, Some(_))) if ignore.is_some() && k < known_from => {
                    c.describe(|| log.clone());
                    c.label("refused, what is ignored leads to rules that come later");
                    return Ok(());
                }
                Ok((_, Some(e))) => res = Err(format!("part {k} is refused: {e}")),
                Ok((d, None)) => pd = d,
            }
            twice_woven += (ignore.is_some() && stmts.iter().flat_map(|x| &x.alts).any(|a| a.len() > 1)) as usize;
            for st in &stmts {
                so_far[st.rule].extend(st.alts.iter().map(|a| match ignore {
                    Some(w) if st.rule < own && !off[st.rule] => {
                        let mut v = vec![];
                        for (i, x) in a.iter().enumerate() {
                            if i > 0 {
                                v.push(Sym::N(w));
                            }
                            v.push(x.clone());
                        }
                        v
                    }
                    _ => a.clone(),
                }));
            }
        } else {
            log.push_str(&format!("part {k}, calls\n"));
            for st in stmts {
                let ix = pd.get_or_add_non_terminal(&g.names[st.rule]);
                let late = s.chance(50);
                if st.action.is_some() && !late {
                    pd.add_instructions(ix, instr(st.rule));
                }
                let ids = |pd: &mut ParserData<TraceVm>, a: &Alt| -> Vec<usize> {
                    a.iter()
                        .map(|x| match x {
                            Sym::N(i) => pd.get_or_add_non_terminal(&g.names[*i]),
                            Sym::T(t) => pd.get_or_add_terminal(t),
                        })
                        .collect()
                };
                so_far[st.rule].extend(st.alts.iter().cloned());
                if st.alts.is_empty() {
                    log.push_str(&format!("  instructions of {}\n", g.names[st.rule]));
                } else if s.chance(25) {
                    log.push_str(&format!("  set {} {:?}\n", g.names[st.rule], so_far[st.rule]));
                    let all = so_far[st.rule].iter().map(|a| ids(&mut pd, a)).collect();
                    pd.set_productions(ix, all);
                } else {
                    for a in &st.alts {
                        log.push_str(&format!("  add {} {a:?}\n", g.names[st.rule]));
                        let v = ids(&mut pd, a);
                        pd.add_production(ix, v);
                    }
                }
                if st.action.is_some() && late {
                    pd.add_instructions(ix, instr(st.rule));
                }
            }
        }
        if res.is_ok() {
            res = numbers(&pd).and_then(|now| {
                if !now.starts_with(&known) {
                    return Err(format!("after part {k} the symbols are {now:?}, before it they were {known:?}"));
                }
                let distinct: BTreeSet<_> = now.iter().collect();
                if distinct.len() != now.len() {
                    return Err(format!("after part {k} a symbol has two numbers: {now:?}"));
                }
                known = now;
                let want: CRules = (0..g.n()).filter(|i| !so_far[*i].is_empty()).map(|i| (g.names[i].clone(), so_far[i].iter().map(|a| c_alt(&g, a)).collect())).collect();
                let mut got = rules_of(&pd);
                got.retain(|_, alts| !alts.is_empty()); // only instructions so far
                if got != want {
                    return Err(format!("after part {k} the rules are {got:?}, should be {want:?}"));
                }
                Ok(())
            });
        }
        if res.is_err() {
            break;
        }
    }
    if res.is_err() {
        c.describe(|| log.clone());
        return res;
    }
    // the grammar that has been put together
    let g = Grammar { rules: so_far, ..g };
    if g.left_recursion().is_some() || g.conflict(&g.sets()).is_some() || !g.productive().iter().all(|x| *x) {
        // can only be because of what may be ignored
        c.describe(|| log.clone());
        c.label("not LL(1) with what may be ignored");
        if ws.is_none() {
            return Err("HARNESS: the grammar should be LL(1)".into());
        }
        return Ok(());
    }
    let scripts: Vec<String> = (0..s.range(1, 4)).map(|_| clip(&gen_script(s, &g, 25).0, 400)).collect();
    c.describe(|| format!("{log}scripts: {scripts:?}"));
    c.label_if(has_alone, "instructions without alternatives");
    c.label_if(twice_woven > 0, "a text with an ignore production");
    c.label_if(twice_woven > 1, "several texts with an ignore production");
    let texts = parts.iter().filter(|p| p.0).count();
    c.label(match (texts, parts.len() - texts) {
        (0, _) => "calls only",
        (1, 0) => "one text",
        (_, 0) => "several texts",
        (1, _) => "a text and calls",
        _ => "several texts and calls",
    });
    let start = pd.get_element_nt_index(&g.names[g.start]).ok_or("the start rule has no number")?;
    let mut p = guard(|| Parser::new_from_parser_data(pd, start, &vm)).map_err(|e| format!("the grammar is refused: {e}"))?;
    let t = LlTable::new(&g);
    let mut key = false;
    for x in &scripts {
        let run = run_ll(&g, &t, g.start, x);
        if run.dtree.len() > 600 {
            c.label("too large, skipped");
            continue;
        }
        let mut st = TState::default();
        let o = parse_with(&mut p, x, &mut st);
        let fine = match (&run.err, &o) {
            (None, Outcome::Tree(f)) => *f == flat_of(&run.dtree),
            (Some(_), o) => o.refused(),
            _ => false,
        };
        if !fine {
            return Err(format!("script {:?} should be {} but gives {}", clip(x, 200), if run.err.is_none() { "accepted" } else { "refused" }, o.short()));
        }
        check_log(&g, &run, &n_instr, &st.log).map_err(|e| format!("script {:?}: {e}", clip(x, 200)))?;
        key |= !x.is_empty();
    }
    if key && parts.len() > 1 {
        c.nontrivial(&(&g.rules, &log, &scripts));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "A case is a grammar (usable or not), up to four scripts, and the same grammar with its rules renamed, its characters replaced one for one, and its rules and alternatives reordered; both are entered twice, as text in random layouts or by shuffled building calls, and FIRST/FOLLOW sets, verdicts, trees and error places are compared through the renaming. Non-trivial: something was changed, and the grammar is unusable or a script is not empty.",
            max: 2400, quick: 120_000, thorough: 5_000_000, case: c27, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C28",
            rule: "A case is a grammar with actions and up to four scripts; seven parsers are assembled from it in different ways (text; data read from text, whole or statement by statement; data built in code; constructor or the stages by hand) and compared, and one more is started with another rule and compared with the reference. Non-trivial: the grammar is usable and a script is not empty.",
            max: 2400, quick: 80_000, thorough: 3_000_000, case: c28, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C30",
            rule: "A case is a grammar with actions (three in ten with something to ignore) whose statements are split into parts, each read as a text into the same grammar data or entered by building calls (adding or replacing alternatives, instructions before or after); after every part the rules and the numbers of the symbols are compared with what has been put in so far, and at the end 1-4 scripts are run and verdict, tree and actions compared with the reference. Non-trivial: more than one part and a script that is not empty.",
            max: 2400, quick: 150_000, thorough: 6_000_000, case: c30, pinned: no_pinned, known: no_known, cpu: 30,
        },
    ]
}

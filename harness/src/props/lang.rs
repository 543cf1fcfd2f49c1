//! C01 - C03, C12 - C14: parsing scripts.
use std::collections::HashMap;
use super::gram::{chain_grammar, gram_of};
use crate::build::build_shuffled;
use crate::choices::Src;
use crate::grammar::*;
use crate::refll::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use crate::vm::*;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::{BTreeSet, VecDeque};

pub fn lang_grammar(s: &mut Src) -> Grammar {
    let o = GenOpts { max_rules: if s.chance(3) { 30 } else { 10 }, ..GenOpts::default() };
    match s.weighted(&[75, 25]) {
        0 => ll1_grammar(s, &o),
        _ => {
            let mut g = chain_grammar(s);
            make_ll1(s, &mut g);
            g
        }
    }
}
pub fn layout_text(s: &mut Src, g: &Grammar) -> String {
    let l = Layout::gen(s);
    let st = if s.chance(30) { scatter(s, plain_stmts(g)) } else { plain_stmts(g) };
    render(s, &l, &g.names, &st, None)
}
fn scripts(s: &mut Src, g: &Grammar, max: usize, fuel: usize) -> Vec<String> {
    let n = s.range(1, max);
    let wide = is_wide(g);
    let cap = if wide { 4000 } else { 600 };
    (0..n)
        .map(|_| {
            let f = if s.chance(12) && !wide { fuel + s.size(300) } else { fuel };
            let t = gen_script(s, g, f).0;
            if t.chars().count() > cap {
                t.chars().take(cap).collect()
            } else {
                t
            }
        })
        .collect()
}
/// some alternative or terminal is far longer than usual
fn is_wide(g: &Grammar) -> bool {
    g.rules.iter().flatten().any(|a| a.len() > 60 || a.iter().any(|y| matches!(y, Sym::T(t) if t.len() > 300)))
}
fn show(g: &Grammar, text: &str, sc: &[String]) -> String {
    let _ = g;
    let list: Vec<String> = sc.iter().map(|x| format!("{:?}", clip(x, 200))).collect();
    format!("grammar text:\n{}\nscripts: {}", clip(text, 2500), list.join(", "))
}

// ------------------------------------------------------------------ C01

fn check_c01(g: &Grammar, text: &str, sc: &[String], c: &mut Ctx) -> Res {
    c.describe(|| show(g, text, sc));
    let vm = NullVm::new();
    let t = LlTable::new(g);
    c.label_if(is_wide(g), "very long alternative or terminal");
    c.label_if(sc.iter().any(|x| x.len() > 256), "script longer than 256 bytes");
    let (mut acc, mut rej) = (false, false);
    for x in sc {
        let mut p = parser_text(text, &vm).map_err(|e| format!("the grammar is LL(1) but was refused: {e}"))?;
        let mut st = NullVm::create_new_state();
        // long scripts: the search over all derivations would take too long
        let want = if x.len() > 700 { run_ll(g, &t, g.start, x).err.is_none() } else { Recogniser::new(g, x).accepts(g.start) };
        let got = parse_with(&mut p, x, &mut st);
        c.label(if want { "sentence" } else { "no sentence" });
        if want && !x.is_empty() {
            acc = true;
        }
        rej |= !want;
        match (&got, want) {
            (Outcome::Tree(_), true) => {}
            (o, false) if o.refused() => {}
            (o, true) => return Err(format!("{:?} is a sentence of the grammar, but the parser says {}", clip(x, 300), o.short())),
            (o, false) => return Err(format!("{:?} is no sentence of the grammar, but the parser says {}", clip(x, 300), o.short())),
        }
    }
    if g.rules.iter().any(|r| r.len() > 1) && (acc || rej) {
        c.nontrivial(&(&g.rules, sc));
    }
    Ok(())
}
fn c01(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let text = layout_text(s, &g);
    let sc = scripts(s, &g, 6, 40);
    check_c01(&g, &text, &sc, c)
}
fn c01_pinned() -> Vec<Pinned> {
    let v: Vec<(&str, Grammar, Vec<&str>)> = vec![
        ("left-over characters", gram_of(&[("start", &[&["\"a\""]])]), vec!["a", "aa", "ab", "a ", "", "b", "a\n"]),
        ("empty language sentence", gram_of(&[("start", &[&[]])]), vec!["", "a", "#", "\0"]),
        (
            "nested brackets",
            gram_of(&[("start", &[&["\"(\"", "start", "\")\"", "start"], &[]])]),
            vec!["", "()", "(())()", "(()", "())", ")(", "((()))", "(x)"],
        ),
        (
            "optional symbols in a row",
            gram_of(&[("start", &[&["a", "b", "c", "\"!\""]]), ("a", &[&["\"x\""], &[]]), ("b", &[&["\"y\""], &[]]), ("c", &[&["\"z\""], &[]])]),
            vec!["!", "x!", "y!", "z!", "xy!", "xz!", "yz!", "xyz!", "zx!", "xx!", "xyz", "!!"],
        ),
        ("characters of several bytes", gram_of(&[("start", &[&["\"äö\"", "start"], &["\"日本\""]])]), vec!["日本", "äö日本", "äö", "ä日本", "äöäö日本", "日本日本"]),
    ];
    v.into_iter()
        .map(|(n, g, sc)| {
            let sc: Vec<String> = sc.into_iter().map(String::from).collect();
            pin(n, move |c| check_c01(&g, &render_plain(&g), &sc, c))
        })
        .collect()
}

// ------------------------------------------------------------------ C02

fn c02(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let text = layout_text(s, &g);
    let min = g.min_alt();
    let fuel = if s.chance(15) { s.size(1200) } else { s.below(70) };
    let mut d = derive(s, &g, &min, g.start, fuel);
    if d.len() > 3000 {
        d = derive(s, &g, &min, g.start, 5);
    }
    if d.len() > 6000 {
        return Ok(());
    }
    let script = yield_of(&d);
    let want = flat_of(&d);
    c.describe(|| format!("{}\ntree of {} nodes", show(&g, &text, &[script.clone()]), want.len()));
    let vm = NullVm::new();
    let mut p = parser_text(&text, &vm).map_err(|e| format!("the grammar is LL(1) but was refused: {e}"))?;
    let mut st = NullVm::create_new_state();
    let t = match guard(|| p.parse(&script, &mut st)) {
        Err(m) => return Err(format!("parse panicked: {m}")),
        Ok(Err(e)) => return Err(format!("sentence refused: {e:?}")),
        Ok(Ok(t)) => t,
    };
    let rules = d.iter().filter(|n| matches!(n, DNode::Rule { .. })).count();
    c.label(match want.len() {
        0..=3 => "1-3 nodes",
        4..=20 => "4-20 nodes",
        21..=100 => "21-100 nodes",
        _ => "more than 100 nodes",
    });
    c.label_if(d.iter().any(|n| matches!(n, DNode::Rule { rule, alt, .. } if g.rules[*rule][*alt].is_empty())), "empty alternative used");
    c.label_if(want.iter().any(|n| n.0 > 8), "deeper than 8");
    c.label_if(want.iter().any(|n| n.0 > 130), "deeper than 130");
    c.label_if(d.iter().any(|n| matches!(n, DNode::Rule { rule, alt, .. } if g.rules[*rule][*alt].len() > 256)), "node with more than 256 children");
    if rules > 2 {
        c.nontrivial(&(&g.rules, &script));
    }
    let cmp = |what: &str, got: &FlatTree| -> Res {
        if *got == want {
            return Ok(());
        }
        let k = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]).unwrap_or(got.len().min(want.len()));
        Err(format!(
            "tree {what} differs from the derivation at node {k} in preorder: is {:?}, should be {:?} (depth, text); {} nodes, should be {}",
            got.get(k),
            want.get(k),
            got.len(),
            want.len()
        ))
    };
    cmp("by child lists", &flatten(&t, ROOT)?)?;
    cmp("by child numbers", &flatten_by_index(&t, ROOT)?)?;
    // descendants of the root: all other nodes, each once
    let ds = guard(|| t.get_descendants(ROOT)).map_err(|m| format!("get_descendants: {m}"))?;
    let set: BTreeSet<(usize, usize)> = ds.iter().map(|x| (x.node_ptr, x.node_pk)).collect();
    if ds.len() != want.len() - 1 || set.len() != ds.len() {
        return Err(format!("{} descendants ({} different) for {} nodes", ds.len(), set.len(), want.len()));
    }
    // paths
    let (kid_list, height) = shape_of(&want);
    for n in 0..5 {
        let mut at = 0usize;
        let mut path = vec![];
        let mut found = true;
        let steps = match n {
            4 => want.len(),
            3 => s.size(300),
            _ => s.below(8),
        };
        for _ in 0..steps {
            let kids = &kid_list[at];
            let down = (0..kids.len()).max_by_key(|&k| height[kids[k]]);
            let k = if let (true, Some(k)) = (n > 2 && !s.chance(5), down) {
                k
            } else if kids.is_empty() || s.chance(15) {
                match s.below(4) {
                    0 => kids.len() + 255,
                    1 => kids.len() + s.size(70_000),
                    _ => s.below(kids.len() + 2),
                }
            } else {
                s.below(kids.len())
            };
            path.push(k);
            match kids.get(k) {
                Some(&x) => at = x,
                None => {
                    found = false;
                    break;
                }
            }
        }
        c.label_if(path.len() > 30 && found, "path of more than 30 steps");
        let got = t.get_by_path_or_none(ROOT, path.iter().copied()).map_err(|e| format!("path {path:?}: {e}"))?;
        let want_d = if found { Some(want[at].1.as_str()) } else { None };
        if got.map(|n| n.data.as_str()) != want_d {
            return Err(format!("path {path:?} leads to {:?}, should lead to {want_d:?}", got.map(|n| &n.data)));
        }
    }
    Ok(())
}
/// children and height of every node
fn shape_of(f: &FlatTree) -> (Vec<Vec<usize>>, Vec<usize>) {
    let mut kids = vec![vec![]; f.len()];
    let mut up: Vec<usize> = vec![];
    for (k, x) in f.iter().enumerate() {
        while up.last().is_some_and(|&u| f[u].0 >= x.0) {
            up.pop();
        }
        if let Some(&u) = up.last() {
            kids[u].push(k);
        }
        up.push(k);
    }
    let mut h = vec![0; f.len()];
    for k in (0..f.len()).rev() {
        h[k] = kids[k].iter().map(|&x| h[x] + 1).max().unwrap_or(0);
    }
    (kids, h)
}

// ------------------------------------------------------------------ C03

pub fn check_error(g: &Grammar, t: &LlTable, script: &str, run: &Run, got: &Outcome) -> Res {
    let chars: Vec<char> = script.chars().collect();
    let Some((pos, stop)) = &run.err else {
        return Ok(());
    };
    let at = chars.get(*pos).copied();
    let head = format!("script {:?}: first impossible character is {at:?} at {pos} ({stop:?})", clip(script, 300));
    let row: BTreeSet<Look> = match stop {
        Stop::Terminal(c) => [Some(*c)].into(),
        Stop::Rule(i) => t.rows[*i].keys().cloned().collect(),
        Stop::Trailing => [None].into(),
    };
    let _ = g;
    match (got, at) {
        (Outcome::Unexpected { pos: p, chr, expected }, Some(a)) => {
            if p != pos || *chr != a {
                return Err(format!("{head}, but reported is {chr:?} at {p}"));
            }
            if !expected_matches(expected, &row) {
                return Err(format!("{head}; expected there is {row:?} (None = end), but listed is {expected:?}"));
            }
            Ok(())
        }
        (Outcome::Unexpected { pos: p, expected, .. }, None) => {
            if p != pos {
                return Err(format!("{head}, but reported is position {p}"));
            }
            if !expected_matches(expected, &row) {
                return Err(format!("{head}; expected there is {row:?}, but listed is {expected:?}"));
            }
            Ok(())
        }
        (Outcome::End { pos: p }, None) => {
            if p != pos {
                return Err(format!("{head}, but reported is position {p}"));
            }
            Ok(())
        }
        (o, _) => Err(format!("{head}, but the parser says {}", o.short())),
    }
}

fn check_c03(g: &Grammar, text: &str, sc: &[String], c: &mut Ctx) -> Res {
    c.describe(|| show(g, text, sc));
    let vm = NullVm::new();
    let t = LlTable::new(g);
    let mut key = false;
    for x in sc {
        let run = run_ll(g, &t, g.start, x);
        match &run.err {
            None => {
                c.label("sentence");
                continue;
            }
            Some((pos, st)) => {
                let n = x.chars().count();
                c.label(match st {
                    Stop::Terminal(_) => "stops inside a terminal",
                    Stop::Rule(_) => "stops at the beginning of a rule",
                    Stop::Trailing => "characters left over",
                });
                c.label_if(*pos == n, "script ends too early");
                c.label_if(x.chars().take(*pos).any(|c| c.len_utf8() > 1), "multi-byte characters before the error");
                key |= *pos > 0;
            }
        }
        let mut p = parser_text(text, &vm).map_err(|e| format!("the grammar is LL(1) but was refused: {e}"))?;
        let mut st = NullVm::create_new_state();
        let got = parse_with(&mut p, x, &mut st);
        check_error(g, &t, x, &run, &got)?;
    }
    if key {
        c.nontrivial(&(&g.rules, sc));
    }
    Ok(())
}
fn c03(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let text = layout_text(s, &g);
    let sc = scripts(s, &g, 6, 40);
    check_c03(&g, &text, &sc, c)
}
fn c03_pinned() -> Vec<Pinned> {
    let v: Vec<(&str, Grammar, Vec<&str>)> = vec![
        ("after an optional rule", gram_of(&[("start", &[&["a", "\"b\""]]), ("a", &[&["\"x\"", "a"], &[]])]), vec!["xxc", "", "x", "xxbb", "c"]),
        ("inside a long terminal", gram_of(&[("start", &[&["\"äbcäbcäbc\""]])]), vec!["äbcäbcäb", "äbcäbcäbä", "äbcx", "äbcäbcäbcä", "b"]),
    ];
    v.into_iter()
        .map(|(n, g, sc)| {
            let sc: Vec<String> = sc.into_iter().map(String::from).collect();
            pin(n, move |c| check_c03(&g, &render_plain(&g), &sc, c))
        })
        .collect()
}

// ------------------------------------------------------------------ actions

/// statements with an action section on some of the rules; the text can be read by every machine
pub fn action_stmts(s: &mut Src, g: &Grammar) -> (Vec<Stmt>, Vec<bool>) {
    let pct = *s.pick(&[50u32, 100, 20]);
    let mut has = vec![false; g.n()];
    let st = plain_stmts(g)
        .into_iter()
        .map(|mut st| {
            if s.chance(pct) {
                has[st.rule] = true;
                st.action = Some(s.pick(&["", " ", "PushConst 7;", "Digit;", "PushConst 3; PushReg; "]).to_string());
            }
            st
        })
        .collect();
    (st, has)
}

/// executions the derivation (complete or not) asks for: (rule, k, preorder index of the node)
fn want_execs(g: &Grammar, run: &Run, n_instr: &[usize]) -> Vec<(String, usize, usize)> {
    let mut v = vec![];
    for &ix in &run.done {
        if let DNode::Rule { rule, .. } = run.dtree[ix] {
            for k in 0..n_instr[rule] {
                v.push((g.names[rule].clone(), k, ix));
            }
        }
    }
    v
}

pub fn check_log(g: &Grammar, run: &Run, n_instr: &[usize], log: &[Exec]) -> Res {
    let want = want_execs(g, run, n_instr);
    let flat = flat_of(&run.dtree);
    for (i, w) in want.iter().enumerate() {
        let Some(e) = log.get(i) else {
            return Err(format!("execution {i} is missing: instruction {} of {} ({} executed, {} due)", w.1, w.0, log.len(), want.len()));
        };
        if e.rule != w.0 || e.k != w.1 {
            return Err(format!("execution {i} is instruction {} of {}, should be instruction {} of {}", e.k, e.rule, w.1, w.0));
        }
        if !e.exists {
            return Err(format!("execution {i} ({}): the current node is not in the tree", w.0));
        }
        let sub = sub_of(&flat, w.2);
        if e.sub != Ok(sub.clone()) {
            return Err(format!("execution {i} ({}): below the current node is {:?}, should be {:?} (depth, text)", w.0, e.sub, sub));
        }
    }
    if log.len() > want.len() {
        let e = &log[want.len()];
        return Err(format!("{} executions instead of {}; first extra one: instruction {} of {}", log.len(), want.len(), e.k, e.rule));
    }
    Ok(())
}

fn c12(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let (stmts, has) = action_stmts(s, &g);
    let l = Layout::gen(s);
    let mut stmts = stmts;
    s.shuffle(&mut stmts);
    let text = render(s, &l, &g.names, &stmts, None);
    // instructions per rule
    let n_instr: Vec<usize> = (0..g.n()).map(|i| if !has[i] { 0 } else if s.chance(3) { s.size(400) } else { s.weighted(&[5, 60, 25, 10]) }).collect();
    let vm = TraceVm::default();
    let plans: VecDeque<CallPlan> =
        stmts.iter().filter(|st| st.action.is_some()).map(|st| CallPlan { n_instr: n_instr[st.rule], ..Default::default() }).collect();
    *vm.plans.borrow_mut() = plans;
    let sc = scripts(s, &g, 3, 25);
    c.describe(|| show(&g, &text, &sc));
    let t = LlTable::new(&g);
    let via_calls = s.chance(30);
    let mut p = if via_calls {
        let instr = (0..g.n())
            .map(|i| if has[i] { Some((0..n_instr[i]).map(|k| TInstr { rule: g.names[i].clone(), k }).collect()) } else { None })
            .collect();
        let (pd, map) = build_shuffled::<TraceVm>(s, &g, instr, true);
        guard(|| Parser::new_from_parser_data(pd, map[g.start], &vm)).map_err(|e| format!("grammar refused: {e}"))?
    } else {
        parser_text(&text, &vm).map_err(|e| format!("grammar refused: {e}"))?
    };
    let mut key = false;
    for x in &sc {
        let run = run_ll(&g, &t, g.start, x);
        let due = want_execs(&g, &run, &n_instr).len();
        if run.dtree.len() > 400 && run.dtree.len() * due > 400_000 || due > 20_000 {
            c.label("too large, skipped");
            continue;
        }
        let mut st = TState::default();
        let o = parse_with(&mut p, x, &mut st);
        if let Outcome::Panic(m) = &o {
            return Err(format!("script {x:?}: panic: {m}"));
        }
        let w = want_execs(&g, &run, &n_instr);
        c.label(if run.err.is_some() { "refused script" } else { "accepted script" });
        c.label_if(run.err.is_some() && !w.is_empty(), "refused after some actions");
        key |= w.len() >= 3;
        check_log(&g, &run, &n_instr, &st.log).map_err(|e| format!("script {:?}: {e}", clip(x, 200)))?;
    }
    if key {
        c.nontrivial(&(&g.rules, &n_instr, &sc));
    }
    // the counting machine executes one instruction per action
    let vm2 = CountingVm {};
    let empty: Vec<Stmt> = stmts.iter().map(|x| Stmt { action: x.action.as_ref().map(|_| String::new()), ..x.clone() }).collect();
    let text2 = render(s, &Layout::plain(), &g.names, &empty, None);
    let mut p2 = parser_text(&text2, &vm2).map_err(|e| format!("counting machine: grammar refused: {e}"))?;
    let one: Vec<usize> = has.iter().map(|h| usize::from(*h)).collect();
    for x in &sc {
        let run = run_ll(&g, &t, g.start, x);
        let mut n = CountingVm::create_new_state();
        let _ = parse_with(&mut p2, x, &mut n);
        let want = want_execs(&g, &run, &one).len();
        if n != want {
            return Err(format!("counting machine: script {x:?} counts {n}, should count {want}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

fn trace_parser<'a>(text: &str, vm: &'a TraceVm) -> Result<Parser<'a, TraceVm>, String> {
    parser_text(text, vm).map_err(|e| format!("grammar refused: {e}"))
}

/// a grammar that is easily confused with `g`
fn relative_of(s: &mut Src, g: &Grammar) -> (Grammar, &'static str) {
    let mut h = g.clone();
    let many: Vec<usize> = (0..g.n()).filter(|&i| g.rules[i].len() > 1).collect();
    let what = match s.below(5) {
        0 | 1 if !many.is_empty() => {
            let i = *s.pick(&many);
            let k = s.below(h.rules[i].len());
            h.rules[i].remove(k);
            "an alternative is missing"
        }
        2 => {
            // the rules have each other's names
            let k = s.below(h.n());
            h.names.rotate_left(k);
            h.start = h.names.iter().position(|n| *n == g.names[g.start]).unwrap_or(h.start);
            "the same rules under other names"
        }
        3 => {
            let i = s.below(h.n());
            let k = s.below(h.rules[i].len());
            let c = *s.pick(&['a', 'b', '0', '+', 'é']);
            h.rules[i][k].push(Sym::T(c.to_string()));
            "an alternative is longer"
        }
        _ => return (lang_grammar(s), "another grammar"),
    };
    if h.is_ll1() && !h.productive().contains(&false) {
        (h, what)
    } else {
        (lang_grammar(s), "another grammar")
    }
}
/// what a call has to do, known without the library
fn right_call(g: &Grammar, t: &LlTable, n_instr: &[usize], x: &str, o: &Outcome, st: &TState) -> Res {
    let run = run_ll(g, t, g.start, x);
    if run.err.is_some() {
        check_error(g, t, x, &run, o)?;
    } else if *o != Outcome::Tree(flat_of(&run.dtree)) {
        return Err(format!("script {:?}: should be accepted with its derivation, but: {}", clip(x, 200), o.short()));
    }
    let due = want_execs(g, &run, n_instr).len();
    if run.dtree.len() > 400 && run.dtree.len() * due > 400_000 {
        return Ok(());
    }
    check_log(g, &run, n_instr, &st.log).map_err(|e| format!("script {:?}: {e}", clip(x, 200)))
}
/// parsers of two grammars, used in turns or at the same time
fn c13_two(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let (h, how) = relative_of(s, &g);
    let gs = [g, h];
    let mut texts = vec![];
    let mut instr: Vec<Vec<usize>> = vec![];
    let mut pool: Vec<String> = vec![];
    for g in &gs {
        let (stmts, has) = action_stmts(s, g);
        let l = Layout::gen(s);
        texts.push(render(s, &l, &g.names, &stmts, None));
        instr.push(has.iter().map(|h| usize::from(*h)).collect());
        pool.extend(scripts(s, g, 3, 15));
    }
    let tables: Vec<LlTable> = gs.iter().map(LlTable::new).collect();
    let len = s.range(2, 12);
    // (grammar, script, a new parser, a used state)
    let hist: Vec<(usize, usize, bool, bool)> = (0..len).map(|_| (s.below(2), s.below(pool.len()), s.chance(15), s.chance(25))).collect();
    let threads = if s.chance(6) { s.range(2, 4) } else { 1 };
    c.describe(|| {
        format!(
            "{}\nsecond {}\nscripts: {:?}\ncalls (grammar, script, new parser, used state): {hist:?}, {threads} threads",
            show(&gs[0], &texts[0], &[]),
            show(&gs[1], &texts[1], &[]),
            pool.iter().map(|x| clip(x, 60)).collect::<Vec<_>>()
        )
    });
    let go = |turn: usize| -> Res {
        let vms: Vec<TraceVm> = (0..2 + len).map(|_| TraceVm::default()).collect();
        let mut ps: Vec<Option<Parser<TraceVm>>> = vec![None, None];
        let mut shared = TState::default();
        for i in 0..len {
            let k = (i + turn) % len;
            let (w, x, new, used) = hist[k];
            let x = &pool[x];
            if new || ps[w].is_none() {
                ps[w] = Some(trace_parser(&texts[w], &vms[k])?);
            }
            let p = ps[w].as_mut().unwrap();
            let mut st = TState::default();
            let o = if used {
                let before = shared.log.len();
                let o = parse_with(p, x, &mut shared);
                st.log = shared.log.split_off(before.min(shared.log.len()));
                o
            } else {
                parse_with(p, x, &mut st)
            };
            right_call(&gs[w], &tables[w], &instr[w], x, &o, &st).map_err(|e| format!("call {k} to grammar {}: {e}", w + 1))?;
        }
        Ok(())
    };
    if threads == 1 {
        go(0)?;
    } else {
        let go = &go;
        std::thread::scope(|sc| {
            let v: Vec<_> = (0..threads)
                .map(|k| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || go(k)).expect("thread"))
                .collect();
            let mut all = Ok(());
            for t in v {
                let r = t.join().unwrap_or(Err("a thread panicked".into()));
                if all.is_ok() {
                    all = r;
                }
            }
            all
        })?;
        c.label("in several threads at once");
    }
    c.label(format!("two grammars: {how}"));
    if hist.iter().any(|x| x.0 == 0) && hist.iter().any(|x| x.0 == 1) {
        c.nontrivial(&(&texts, &pool, &hist));
    }
    Ok(())
}

fn c13(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(40) {
        return c13_two(s, c);
    }
    let g = lang_grammar(s);
    let (stmts, _) = action_stmts(s, &g);
    let l = Layout::gen(s);
    let text = render(s, &l, &g.names, &stmts, None);
    let pool = scripts(s, &g, 4, 25);
    // a history with repeats
    let len = s.range(2, 12);
    let mut hist: Vec<&String> = (0..len).map(|_| s.pick(&pool)).collect();
    if s.chance(1) {
        let n = s.size(1000);
        for k in 0..n {
            hist.push(&pool[(k * 7 + k / 5) % pool.len()]);
        }
    }
    let len = hist.len();
    c.describe(|| format!("{}\nhistory: {:?}", show(&g, &text, &pool), hist.iter().map(|x| clip(x, 60)).collect::<Vec<_>>()));
    let vm = TraceVm::default();
    let vmb = TraceVm::default();
    let mut a = trace_parser(&text, &vm)?;
    let mut b = trace_parser(&text, &vmb)?;
    if *vm.calls.borrow() != *vmb.calls.borrow() {
        return Err("the machine was asked differently for the same grammar text".into());
    }
    let mut shared_state = TState::default();
    let (mut ok, mut bad) = (0, 0);
    let mut once: HashMap<&String, (Outcome, TState)> = HashMap::new();
    for (k, x) in hist.iter().enumerate() {
        if k < 12 || !once.contains_key(x) {
            let vmf = TraceVm::default();
            let mut fresh = trace_parser(&text, &vmf)?;
            let mut st = TState::default();
            let want = parse_with(&mut fresh, x, &mut st);
            once.insert(x, (want, st));
        }
        let (want, st) = &once[x];
        if want.accepted() {
            ok += 1
        } else {
            bad += 1
        }
        let which = s.below(3);
        let (got, log) = match which {
            0 => {
                let mut st2 = TState::default();
                (parse_with(&mut a, x, &mut st2), st2.log)
            }
            1 => {
                let mut st2 = TState::default();
                (parse_with(&mut b, x, &mut st2), st2.log)
            }
            _ => {
                // a state that has been used before keeps what is in it
                if shared_state.log.len() > 20_000 {
                    shared_state = TState::default();
                }
                let before = shared_state.log.len();
                let kept = shared_state.log.clone();
                let o = parse_with(&mut a, x, &mut shared_state);
                if shared_state.log.len() < before || shared_state.log[..before] != kept[..] {
                    return Err(format!("call {k} changed what earlier calls had recorded in the machine state"));
                }
                (o, shared_state.log[before..].to_vec())
            }
        };
        if got.canon() != want.canon() {
            return Err(format!("call {k} with {:?}: {} but a new parser says {}", clip(x, 200), got.short(), want.short()));
        }
        if log != st.log {
            return Err(format!("call {k} with {:?}: {} actions differ from the {} of a new parser", clip(x, 200), log.len(), st.log.len()));
        }
    }
    c.label(format!("{} calls", if len < 5 { "2-4" } else if len < 13 { "5-12" } else { "more than 12" }));
    c.label_if(ok > 0 && bad > 0, "accepted and refused scripts mixed");
    if ok > 0 && bad > 0 {
        c.nontrivial(&(&g.rules, &hist));
    }
    // other machines
    fn other<T: VM>(vm: &T, text: &str, x: &String) -> Result<Outcome, String> {
        // the lifetime of the script is tied to the parser
        let mut p = parser_text(text, vm).map_err(|e| format!("grammar refused: {e}"))?;
        let mut st = T::create_new_state();
        Ok(parse_with(&mut p, x, &mut st))
    }
    for x in &pool {
        let want = other(&TraceVm::default(), &text, x)?.canon();
        for (n, o) in [
            ("NullVm", other(&NullVm::new(), &text, x)?),
            ("CountingVm", other(&CountingVm {}, &text, x)?),
            ("SimpleStackVm", other(&SimpleStackVm {}, &text, x)?),
            ("StackVm", other(&StackVm {}, &text, x)?),
        ] {
            if o.canon() != want {
                return Err(format!("script {:?}: with {n} {} but with a recording machine {}", clip(x, 200), o.short(), want.short()));
            }
        }
    }
    Ok(())
}

fn c13_pinned() -> Vec<Pinned> {
    vec![pin("70000 calls on one parser", |_| {
        let vm = TraceVm::default();
        let mut p = trace_parser("start -> \"a\" more {x};more -> \"b\" | # {y};", &vm)?;
        let scripts: Vec<String> = ["ab", "a", "", "b", "abb"].iter().map(|x| x.to_string()).collect();
        for k in 0..70_000 {
            let x = &scripts[k % 5];
            let mut st = TState::default();
            let o = parse_with(&mut p, x, &mut st);
            if o.accepted() != (k % 5 < 2) || k % 5 < 2 && st.log.len() != 2 {
                return Err(format!("call {k} with {x:?}: {}, {} actions", o.short(), st.log.len()));
            }
        }
        Ok(())
    })]
}

// ------------------------------------------------------------------ C14

fn c14(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(8) {
        return c14_refused(s, c);
    }
    let mut g = lang_grammar(s);
    // any rule may be the start rule, and no rule needs to be called start
    let st = s.below(g.n());
    if s.chance(50) {
        g.start = st;
    }
    if s.chance(40) {
        g.names[0] = "first_rule".into();
        while g.names[1..].contains(&g.names[0]) {
            g.names[0].push('_');
        }
    }
    if !g.is_ll1() {
        make_ll1(s, &mut g);
    }
    // text: the chosen start rule has to be called start
    let mut gt = g.clone();
    let old = gt.names.iter().position(|n| n == "start");
    if let Some(i) = old {
        gt.names[i] = "was_start".into();
        while gt.names.iter().filter(|n| **n == gt.names[i]).count() > 1 {
            gt.names[i].push('_');
        }
    }
    gt.names[g.start] = "start".into();
    let (stmts, has) = action_stmts(s, &gt);
    let n_instr: Vec<usize> = (0..g.n()).map(|i| if has[i] { s.range(1, 2) } else { 0 }).collect();
    let vt = TraceVm::default();
    *vt.plans.borrow_mut() =
        stmts.iter().filter(|x| x.action.is_some()).map(|x| CallPlan { n_instr: n_instr[x.rule], ..Default::default() }).collect();
    let l = Layout::gen(s);
    let text = render(s, &l, &gt.names, &stmts, None);
    let mut sc = scripts(s, &g, 5, 25);
    if s.chance(30) {
        let r = s.below(g.n());
        let min = g.min_alt();
        sc.push(clip(&yield_of(&derive(s, &g, &min, r, 10)), 300));
    }
    c.describe(|| format!("start rule in code: {}\n{}", g.names[g.start], show(&gt, &text, &sc)));
    let instr = (0..g.n())
        .map(|i| if has[i] { Some((0..n_instr[i]).map(|k| TInstr { rule: gt.names[i].clone(), k }).collect()) } else { None })
        .collect();
    let (pd, map) = build_shuffled::<TraceVm>(s, &g, instr, true);
    let vc = TraceVm::default();
    let mut pc = guard(|| Parser::new_from_parser_data(pd, map[g.start], &vc)).map_err(|e| format!("grammar built in code refused: {e}"))?;
    let mut pt = trace_parser(&text, &vt)?;
    let t = LlTable::new(&g);
    let mut multi = 0;
    for x in &sc {
        let (mut sa, mut sb) = (TState::default(), TState::default());
        let a = parse_with(&mut pc, x, &mut sa);
        let b = parse_with(&mut pt, x, &mut sb);
        if a.canon() != b.canon() {
            return Err(format!("script {:?}: built in code {}, from text {}", clip(x, 200), a.short(), b.short()));
        }
        if sa.log != sb.log {
            return Err(format!("script {:?}: {} actions when built in code, {} from text (or in another order)", clip(x, 200), sa.log.len(), sb.log.len()));
        }
        // and both are right
        let run = run_ll(&g, &t, g.start, x);
        if run.err.is_none() != a.accepted() {
            return Err(format!("script {:?}: built in code {}, should be {}", clip(x, 200), a.short(), if run.err.is_none() { "accepted" } else { "refused" }));
        }
        multi += usize::from(run.dtree.len() > 3);
    }
    c.label_if(g.names[g.start] != "start", "start rule with another name");
    c.label_if(g.start != 0, "start rule is not the first rule");
    c.label_if(g.names.iter().any(|n| n == "start") && g.names[g.start] != "start", "a different rule is called start");
    if multi > 0 {
        c.nontrivial(&(&g.rules, g.start, &g.names, &sc));
    }
    Ok(())
}

/// a grammar of which one alternative is written twice, or is the beginning of another one
fn c14_refused(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = lang_grammar(s);
    let i = s.below(g.n());
    let mut a = s.pick(&g.rules[i]).clone();
    if s.chance(30) {
        a.push(Sym::T("x".into()));
    }
    let at = s.below(g.rules[i].len() + 1);
    g.rules[i].insert(at, a);
    g.start = g.names.iter().position(|n| n == "start").unwrap_or(g.start);
    let usable = g.is_ll1();
    let text = layout_text(s, &g);
    c.describe(|| format!("{text}\nusable: {usable}"));
    c.label(if usable { "one alternative more" } else { "clashing alternatives, in code and as text" });
    let instr = (0..g.n()).map(|_| None).collect();
    let (pd, map) = build_shuffled::<NullVm>(s, &g, instr, true);
    let vm = NullVm::new();
    let code = guard(|| Parser::new_from_parser_data(pd, map[g.start], &vm)).is_ok();
    let txt = parser_text(&text, &vm).is_ok();
    if code != usable || txt != usable {
        return Err(format!("the grammar {} usable; built in code it is {}, from text it is {}", if usable { "is" } else { "is not" }, if code { "taken" } else { "refused" }, if txt { "taken" } else { "refused" }));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is an LL(1) grammar (repaired random grammar or chain of nullable rules) written as text in a random layout and 1-6 scripts: derived sentences, edited sentences, random strings over the grammar's characters, sentences of other rules, two sentences glued. The oracle searches all derivations. Non-trivial: some rule has several alternatives and the scripts include a non-empty sentence or a non-sentence.",
            max: 2400, quick: 240_000, thorough: 10_000_000, case: c01, pinned: c01_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C02",
            rule: "A case is an LL(1) grammar and a derivation of up to some thousand nodes; the tree is compared by child lists, child numbers, paths and descendants. Non-trivial: more than two rule applications.",
            max: 2400, quick: 320_000, thorough: 12_000_000, case: c02, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C03",
            rule: "A case is an LL(1) grammar and 1-6 scripts, mostly edited sentences; for each refused one position, character and expected list are compared with a table-driven reference. Non-trivial: a script is refused behind its first character.",
            max: 2400, quick: 240_000, thorough: 10_000_000, case: c03, pinned: c03_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C12",
            rule: "A case is an LL(1) grammar with actions of 0-3 instructions on a random subset of its rules (as text or built in code) and 1-3 scripts; the log of a recording machine, with the subtree below the current node at each execution, is compared with the derivation. Non-trivial: at least three executions are due for one script.",
            max: 2400, quick: 200_000, thorough: 8_000_000, case: c12, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C13",
            rule: "A case is a grammar with actions and a history of 2-12 parse calls with repeats, spread over two parsers and fresh or used machine states; every call is compared with a newly built parser, and every script with four other machines. In two of five cases the calls go in turns (some of them in several threads at once) to parsers of two grammars, often nearly the same one, and tree, error and actions of every call are compared with the table-driven reference. Non-trivial: the history mixes accepted and refused scripts, or calls of both grammars.",
            max: 2400, quick: 80_000, thorough: 3_000_000, case: c13, pinned: c13_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C14",
            rule: "A case is a grammar with a start rule of any name and position, assembled by a random order of interning, adding, replacing and instruction calls, and also written as text; 1-6 scripts are run through both with a recording machine. Non-trivial: some script has a derivation (or a prefix of one) of more than three nodes.",
            max: 2400, quick: 200_000, thorough: 8_000_000, case: c14, pinned: no_pinned, known: no_known, cpu: 30,
        },
    ]
}

//! C04 - C07: grammar analysis.
use crate::build::build_shuffled;
use crate::choices::Src;
use crate::grammar::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;
use std::collections::{BTreeMap, BTreeSet};

pub fn opts(s: &mut Src) -> GenOpts {
    GenOpts { max_rules: if s.chance(4) { 40 } else { 12 }, ..GenOpts::default() }
}

/// a grammar without left recursion, all rules defined, otherwise arbitrary (conflicts and unproductive
/// rules included)
pub fn nlr_grammar(s: &mut Src) -> Grammar {
    let o = opts(s);
    let mut g = match s.weighted(&[60, 20, 20]) {
        0 => raw_grammar(s, &o),
        1 => ll1_grammar(s, &o),
        _ => chain_grammar(s),
    };
    let mut k = 0;
    break_left_recursion(s, &mut g, &mut k);
    if s.chance(10) {
        // rules may also be used with no sentence below them
        let n = g.n();
        let i = s.below(n);
        g.rules[i] = vec![vec![Sym::T("u".into()), Sym::N(i)]];
        break_left_recursion(s, &mut g, &mut k);
    }
    g.start = if s.chance(30) { s.below(g.n()) } else { 0 };
    g
}

/// long chains of nullable symbols and tail positions, the cases in which propagation matters
pub fn chain_grammar(s: &mut Src) -> Grammar {
    let n = if s.chance(3) { s.range(14, 70) } else { s.range(3, 14) };
    let mut names = gen_names(s, n, true);
    names.truncate(n);
    let al: Vec<char> = "abcdefghijklmnop".chars().collect();
    let mut rules: Vec<Vec<Alt>> = vec![];
    for i in 0..n {
        let mut alts = vec![];
        // first alternative: a chain of later rules
        let mut a = vec![];
        let long = if s.chance(2) { s.size(60) } else { s.range(1, 5) };
        for _ in 0..long {
            if i + 1 < n {
                a.push(Sym::N(s.range(i + 1, (i + 3).min(n - 1))));
            }
        }
        match s.below(3) {
            0 => a.push(Sym::N(s.below(n))), // tail position, may point anywhere
            1 => a.push(Sym::T(al[s.below(al.len())].to_string())),
            _ => {}
        }
        if a.is_empty() {
            a.push(Sym::T(al[i % al.len()].to_string()));
        }
        if s.chance(70) {
            // guarded loop back: tail cycles in FOLLOW
            let c = al[(i * 5 + 1) % al.len()].to_string();
            alts.push(vec![Sym::T(c), Sym::N(s.below(n))]);
        }
        alts.push(a);
        if s.chance(60) {
            alts.push(vec![]);
        } else if s.chance(20) {
            alts.push(vec![Sym::T(String::new())]);
        }
        s.shuffle(&mut alts);
        rules.push(alts);
    }
    Grammar { names, rules, start: 0 }
}

/// through text or through building calls in any order: (grammar store, number of each rule)
pub fn load(s: &mut Src, g: &Grammar, c: &mut Ctx) -> Result<(ParserData<NullVm>, Vec<usize>), String> {
    if s.chance(60) {
        c.label("built by calls");
        let none = (0..g.n()).map(|_| None).collect();
        Ok(build_shuffled::<NullVm>(s, g, none, false))
    } else {
        c.label("read from text");
        let l = Layout::gen(s);
        let st = scatter(s, plain_stmts(g));
        let text = render(s, &l, &g.names, &st, None);
        let vm = NullVm::new();
        let mut pd = read_text(&text, &vm)
            .map_err(|p| format!("reading the grammar text: {p}"))?
            .map_err(|e| format!("grammar text refused: {e}\n{text}"))?;
        let map = g.names.iter().map(|n| pd.get_or_add_non_terminal(n)).collect();
        Ok((pd, map))
    }
}
/// statements keep their alternatives per rule but splitting changes nothing about the set of rules
pub fn shape_labels(g: &Grammar, st: &Sets, c: &mut Ctx) {
    c.label(match g.n() {
        0..=3 => "1-3 rules",
        4..=6 => "4-6 rules",
        7..=12 => "7-12 rules",
        _ => "13 and more rules",
    });
    c.label_if(st.nullable.iter().any(|x| *x), "has a nullable rule");
    c.label_if(g.rules.iter().flatten().any(|a| a.len() > 1 && alt_nullable(a, &st.nullable)), "nullable alternative of several symbols");
    c.label_if(g.rules.iter().flatten().flatten().any(|x| matches!(x, Sym::T(t) if t.is_empty())), "empty terminal");
    c.label_if(g.rules.iter().flatten().flatten().any(|x| matches!(x, Sym::T(t) if t.chars().any(|c| c as u32 > 127))), "non-ASCII terminal");
    c.label_if(g.rules.iter().flatten().flatten().any(|x| matches!(x, Sym::T(t) if t.len() > 255)), "terminal longer than 255");
    c.label_if(g.rules.iter().any(|r| r.len() > 5), "rule with more than 5 alternatives");
    c.label_if(g.productive().iter().any(|x| !x), "unproductive rule");
}

// ------------------------------------------------------------------ C04

/// a terminal that begins with this character and can be written between quotes
fn lit(c: char) -> String {
    if c == '\\' {
        "\\\\".into()
    } else {
        c.to_string()
    }
}
pub fn mutate_grammar(s: &mut Src, g: &mut Grammar) {
    // an earlier change may have added an undefined rule
    let n = (0..g.n()).take_while(|&i| !g.rules[i].is_empty()).count();
    if n == 0 {
        return;
    }
    match s.below(9) {
        0 => {
            // same leading character twice
            let i = s.below(n);
            let k = s.below(g.rules[i].len());
            let st = g.sets();
            let p: Vec<Look> = g.predict(&st, i, &g.rules[i][k]).into_iter().collect();
            if let Some(Some(c)) = p.first() {
                g.rules[i].push(vec![Sym::T(lit(*c)), Sym::T("z".into())]);
            }
        }
        1 => {
            // second empty alternative
            let i = s.below(n);
            g.rules[i].push(vec![]);
        }
        2 => {
            // FOLLOW clash: optional rule in front of what it can begin with
            let i = s.below(n);
            let st = g.sets();
            if let Some(c) = st.first[i].iter().next() {
                let j = s.below(n);
                let k = s.below(g.rules[j].len());
                g.rules[j][k].push(Sym::N(i));
                g.rules[j][k].push(Sym::T(lit(*c)));
            }
        }
        3 => {
            // direct left recursion
            let i = s.below(n);
            let k = s.below(g.rules[i].len());
            g.rules[i][k].insert(0, Sym::N(i));
        }
        4 => {
            // left recursion behind symbols or through other rules
            let st = g.sets();
            let i = s.below(n);
            let j = s.below(n);
            let nl: Vec<usize> = (0..n).filter(|&x| st.nullable[x]).collect();
            let mut a = vec![];
            for _ in 0..s.below(3) {
                if !nl.is_empty() {
                    a.push(Sym::N(*s.pick(&nl)));
                } else {
                    a.push(Sym::T(String::new()));
                }
            }
            a.push(Sym::N(j));
            g.rules[i].push(a);
        }
        5 => {
            // mention a rule that is not defined, anywhere
            let i = s.below(n);
            let k = s.below(g.rules[i].len());
            let p = s.below(g.rules[i][k].len() + 1);
            let u = g.n();
            let mut nm = "undefined".to_string();
            while g.names.contains(&nm) {
                nm.push('_');
            }
            g.names.push(nm);
            g.rules.push(vec![]);
            g.rules[i][k].insert(p, Sym::N(u));
        }
        6 => {
            // duplicate an alternative
            let i = s.below(n);
            let k = s.below(g.rules[i].len());
            let a = g.rules[i][k].clone();
            g.rules[i].push(a);
        }
        7 => {
            // drop the guard in front of an alternative
            let i = s.below(n);
            let k = s.below(g.rules[i].len());
            if !g.rules[i][k].is_empty() {
                g.rules[i][k].remove(0);
            }
        }
        _ => {
            // make something optional
            let i = s.below(n);
            g.rules[i].insert(0, vec![]);
        }
    }
}

pub fn usable(g: &Grammar) -> Result<(), &'static str> {
    if g.start >= g.n() || g.rules[g.start].is_empty() {
        return Err("no start rule");
    }
    if g.undefined_used() {
        return Err("undefined rule");
    }
    if g.left_recursion().is_some() {
        return Err("left recursion");
    }
    if let Some((i, a, b)) = g.conflict(&g.sets()) {
        let st = g.sets();
        let nl = alt_nullable(&g.rules[i][a], &st.nullable) || alt_nullable(&g.rules[i][b], &st.nullable);
        return Err(if nl { "conflict that involves FOLLOW" } else { "conflict between FIRST sets" });
    }
    Ok(())
}

fn pipeline(pd: ParserData<NullVm>, start: Option<usize>) -> Result<Result<(), String>, String> {
    guard(|| {
        let first = get_first_sets(&pd).map_err(|e| format!("{e:?}"))?;
        let start = start.ok_or("no start")?;
        let follow = get_follow_sets(start, &first, &pd).map_err(|e| format!("{e:?}"))?;
        get_steuermaps(&first, &follow, pd).map_err(|e| format!("{e:?}"))?;
        Ok(())
    })
}

fn check_c04(g: &Grammar, s: &mut Src, c: &mut Ctx) -> Res {
    let want = usable(g);
    let l = Layout::gen(s);
    let stmts = scatter(s, plain_stmts(g));
    let text = render(s, &l, &g.names, &stmts, None);
    c.describe(|| format!("{}\nexpected: {want:?}", clip(&render_plain(g), 3000)));
    c.label(want.err().unwrap_or("usable"));
    shape_labels(g, &g.sets(), c);
    c.nontrivial(&(&g.names, &g.rules, g.start));
    let verdict = |what: &str, got: bool, detail: &str| -> Res {
        match (&want, got) {
            (Ok(()), true) | (Err(_), false) => Ok(()),
            (Ok(()), false) => Err(format!("{what}: a usable grammar was refused ({detail})")),
            (Err(w), true) => Err(format!("{what}: a grammar with {w} was accepted")),
        }
    };
    let vm = NullVm::new();
    // in text the start rule is the one called start
    let text_start_ok = g.names[g.start] == "start" || !g.names.iter().any(|n| n == "start");
    if text_start_ok {
        let pd = match read_text(&text, &vm) {
            Err(p) => return Err(format!("reading the text panicked: {p}")),
            Ok(Err(e)) => return Err(format!("the text was refused: {e}\n{text}")),
            Ok(Ok(pd)) => pd,
        };
        let st = pd.get_element_nt_index(&g.names[g.start]);
        match pipeline(pd, st) {
            Err(p) => return Err(format!("grammar analysis panicked instead of reporting: {p} (expected {want:?})")),
            Ok(r) => verdict("analysis", r.is_ok(), &format!("{r:?}"))?,
        }
        if g.names[g.start] == "start" || want.is_ok() {
            // the constructor reports a refusal by panicking; a rule called start must be there
            let r = parser_text(&text, &vm);
            if g.names[g.start] == "start" {
                verdict("Parser::new_from_text", r.is_ok(), &r.err().unwrap_or_default())?;
            } else if r.is_ok() {
                return Err("Parser::new_from_text: a grammar without start rule was accepted".into());
            }
        }
    }
    let none = (0..g.n()).map(|_| None).collect();
    let (pd, map) = build_shuffled::<NullVm>(s, g, none, true);
    let ix = map.get(g.start).copied().unwrap_or(0);
    let r = guard(|| Parser::new_from_parser_data(pd, ix, &vm));
    verdict("Parser::new_from_parser_data", r.is_ok(), &r.err().unwrap_or_default())
}

fn c04(s: &mut Src, c: &mut Ctx) -> Res {
    let o = opts(s);
    let mut g = match s.weighted(&[30, 15, 35, 10, 10]) {
        0 => ll1_grammar(s, &o),
        1 => raw_grammar(s, &o),
        2 => {
            let mut g = ll1_grammar(s, &o);
            for _ in 0..s.range(1, 2) {
                mutate_grammar(s, &mut g);
            }
            g
        }
        3 => chain_grammar(s),
        _ => {
            let mut g = chain_grammar(s);
            make_ll1(s, &mut g);
            if s.chance(40) {
                mutate_grammar(s, &mut g);
            }
            g
        }
    };
    match s.weighted(&[85, 8, 7]) {
        0 => {}
        1 => {
            // a rule that is mentioned nowhere as start
            g.start = s.below(g.n());
        }
        _ => {
            // start rule not defined
            if s.chance(50) {
                g.rules[g.start].clear();
            } else {
                // renamed: the text has no start rule at all
                g.names[0] = "begin_".into();
            }
        }
    }
    if g.rules.iter().all(|r| r.is_empty()) {
        return Ok(());
    }
    check_c04(&g, s, c)
}

pub fn gram_of(rules: &[(&str, &[&[&str]])]) -> Grammar {
    // symbols in double quotes are terminals
    let mut names: Vec<String> = rules.iter().map(|r| r.0.to_string()).collect();
    let mut out: Vec<Vec<Alt>> = vec![];
    for (_, alts) in rules {
        let mut v = vec![];
        for a in *alts {
            let mut x = vec![];
            for t in *a {
                if let Some(u) = t.strip_prefix('"') {
                    x.push(Sym::T(u.trim_end_matches('"').to_string()));
                } else {
                    let i = names.iter().position(|n| n == t).unwrap_or_else(|| {
                        names.push(t.to_string());
                        names.len() - 1
                    });
                    x.push(Sym::N(i));
                }
            }
            v.push(x);
        }
        out.push(v);
    }
    while out.len() < names.len() {
        out.push(vec![]);
    }
    Grammar { names, rules: out, start: 0 }
}

fn c04_pinned() -> Vec<Pinned> {
    let list: Vec<(&str, Grammar)> = vec![
        ("direct left recursion", gram_of(&[("start", &[&["start", "\"a\""], &["\"b\""]])])),
        ("indirect left recursion", gram_of(&[("start", &[&["a", "\"x\""]]), ("a", &[&["start"], &["\"b\""]])])),
        ("hidden left recursion", gram_of(&[("start", &[&["e", "start", "\"x\""], &["\"b\""]]), ("e", &[&[]])])),
        ("hidden behind empty terminal", gram_of(&[("start", &[&["\"\"", "start", "\"x\""], &["\"b\""]])])),
        ("left recursion in an unreachable rule", gram_of(&[("start", &[&["\"a\""]]), ("x", &[&["x", "\"a\""]])])),
        ("right recursion is fine", gram_of(&[("start", &[&["\"a\"", "start"], &[]])])),
        ("optional before optional", gram_of(&[("start", &[&["a", "b"]]), ("a", &[&["\"x\""], &[]]), ("b", &[&["\"y\""], &[]])])),
        (
            "optional first symbol, context decides",
            gram_of(&[("start", &[&["a", "\"x\""], &["\"y\"", "a", "\"z\""]]), ("a", &[&["\"w\""], &[]])]),
        ),
        ("empty terminal alternative", gram_of(&[("start", &[&["\"\""], &["\"a\"", "start"]])])),
        ("two ways to be empty", gram_of(&[("start", &[&["\"\""], &[]])])),
        ("self embedding with follow clash", gram_of(&[("start", &[&["a", "\"x\""]]), ("a", &[&["\"x\""], &[]])])),
        ("undefined rule in unreachable rule", gram_of(&[("start", &[&["\"a\""]]), ("x", &[&["\"b\"", "nowhere"]])])),
        ("no terminal at all", gram_of(&[("start", &[&["a"]]), ("a", &[&["b"]]), ("b", &[&[]])])),
    ];
    list.into_iter()
        .map(|(n, g)| pin(n, move |c| check_c04(&g, &mut Src::new(&[]), c)))
        .collect()
}

// ------------------------------------------------------------------ C05

fn c05(s: &mut Src, c: &mut Ctx) -> Res {
    let g = nlr_grammar(s);
    let st = g.sets();
    c.describe(|| render_plain(&g));
    shape_labels(&g, &st, c);
    let deep = g.rules.iter().flatten().any(|a| matches!(a.first(), Some(Sym::N(_))));
    if deep {
        c.nontrivial(&g.rules);
    }
    let (pd, map) = load(s, &g, c)?;
    let first = guard(|| get_first_sets(&pd)).map_err(|p| format!("get_first_sets: {p}"))?.map_err(|e| format!("get_first_sets refused: {e:?}"))?;
    if first.len() != g.n() {
        return Err(format!("{} FIRST sets for {} rules", first.len(), g.n()));
    }
    for i in 0..g.n() {
        let Some(f) = first.get(&map[i]) else {
            return Err(format!("no FIRST set for {}", g.names[i]));
        };
        let got = firsts(f);
        let want = (st.first[i].clone(), st.nullable[i], false);
        if got != want {
            return Err(format!("FIRST({}) = {got:?}, should be {want:?} (characters, empty, end)", g.names[i]));
        }
    }
    for _ in 0..s.range(1, 4) {
        let mut seq: Alt = vec![];
        let all: Vec<&Sym> = g.rules.iter().flatten().flatten().collect();
        let empties: Vec<usize> = (0..g.n()).filter(|i| st.nullable[*i]).collect();
        let long = if s.chance(3) { s.size(300) } else { 0 };
        for j in 0..long {
            if !empties.is_empty() {
                seq.push(Sym::N(empties[j % empties.len()]));
            }
        }
        c.label_if(long > 16 && !empties.is_empty(), "long nullable sequence");
        for _ in 0..s.range(1, 6) {
            if s.chance(60) || all.is_empty() {
                seq.push(Sym::N(s.below(g.n())));
            } else {
                seq.push((*s.pick(&all)).clone());
            }
        }
        let ids: Vec<usize> = seq
            .iter()
            .map(|x| match x {
                Sym::N(i) => map[*i],
                Sym::T(t) => pd.get_element_t_index(t).unwrap_or(usize::MAX),
            })
            .collect();
        if ids.contains(&usize::MAX) {
            return Err("a terminal of the grammar has no number".into());
        }
        let f = guard(|| first_set_of_partial(&ids, &first, &pd)).map_err(|p| format!("first_set_of_partial: {p}"))?.map_err(|e| format!("{e:?}"))?;
        let want = (seq_first(&seq, &st.nullable, &st.first), alt_nullable(&seq, &st.nullable), false);
        c.label_if(want.1, "nullable sequence");
        if firsts(&f) != want {
            return Err(format!("FIRST({:?}) = {:?}, should be {want:?}", c_alt(&g, &seq), firsts(&f)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06(s: &mut Src, c: &mut Ctx) -> Res {
    let g = nlr_grammar(s);
    let st = g.sets();
    c.describe(|| format!("{}start rule: {}", render_plain(&g), g.names[g.start]));
    shape_labels(&g, &st, c);
    // non-trivial: something is propagated from the rule on the left
    let tail = (0..g.n()).any(|i| {
        g.rules[i].iter().any(|a| {
            (0..a.len()).any(|k| matches!(a[k], Sym::N(j) if j != i && alt_nullable(&a[k + 1..], &st.nullable)) && !st.follow[i].is_empty())
        })
    });
    if tail {
        c.nontrivial(&(&g.rules, g.start));
    }
    let (pd, map) = load(s, &g, c)?;
    for _ in 0..2 {
        let first = guard(|| get_first_sets(&pd)).map_err(|p| format!("get_first_sets: {p}"))?.map_err(|e| format!("get_first_sets refused: {e:?}"))?;
        let fo = guard(|| get_follow_sets(map[g.start], &first, &pd))
            .map_err(|p| format!("get_follow_sets: {p}"))?
            .map_err(|e| format!("get_follow_sets refused: {e:?}"))?;
        if fo.len() != g.n() {
            return Err(format!("{} FOLLOW sets for {} rules", fo.len(), g.n()));
        }
        for i in 0..g.n() {
            let Some(f) = fo.get(&map[i]) else {
                return Err(format!("no FOLLOW set for {}", g.names[i]));
            };
            if looks(f) != st.follow[i] {
                return Err(format!("FOLLOW({}) = {:?}, should be {:?} (None = end)", g.names[i], looks(f), st.follow[i]));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

/// lookaheads to ask a table with: all characters of the grammar, the end, and some others
fn asked_with(g: &Grammar, s: &mut Src) -> BTreeSet<Look> {
    let cs: Vec<char> = g.chars().into_iter().collect();
    let mut v: BTreeSet<Look> = cs.iter().take(80).map(|&c| Some(c)).collect();
    v.insert(None);
    for _ in 0..3 {
        let c = if cs.is_empty() { 'x' } else { *s.pick(&cs) };
        v.insert(Some(relative(s, c)));
    }
    v
}
fn c07(s: &mut Src, c: &mut Ctx) -> Res {
    let o = opts(s);
    let g = match s.weighted(&[65, 35]) {
        0 => ll1_grammar(s, &o),
        _ => {
            let mut g = chain_grammar(s);
            make_ll1(s, &mut g);
            g
        }
    };
    let mut g = g;
    if s.chance(15) {
        g.start = s.below(g.n());
        make_ll1(s, &mut g);
    }
    let st = g.sets();
    c.describe(|| format!("{}start rule: {}", render_plain(&g), g.names[g.start]));
    shape_labels(&g, &st, c);
    let ctx_dep = (0..g.n()).any(|i| g.rules[i].len() > 1 && g.rules[i].iter().any(|a| matches!(a.first(), Some(Sym::N(_)))));
    if ctx_dep {
        c.nontrivial(&(&g.rules, g.start));
    }
    let (pd, map) = load(s, &g, c)?;
    let first = guard(|| get_first_sets(&pd)).map_err(|p| format!("get_first_sets: {p}"))?.map_err(|e| format!("get_first_sets refused: {e:?}"))?;
    let fo = guard(|| get_follow_sets(map[g.start], &first, &pd))
        .map_err(|p| format!("get_follow_sets: {p}"))?
        .map_err(|e| format!("get_follow_sets refused: {e:?}"))?;
    let dec = guard(|| get_steuer_sets(&first, &fo)).map_err(|p| format!("get_steuer_sets: {p}"))?.map_err(|e| format!("get_steuer_sets refused: {e:?}"))?;
    let elems = pd.get_elements_verbose();
    let maps = guard(|| get_steuermaps(&first, &fo, pd)).map_err(|p| format!("get_steuermaps: {p}"))?.map_err(|e| format!("get_steuermaps refused: {e:?}"))?;
    if maps.len() != g.n() || dec.len() != g.n() {
        return Err(format!("{} tables and {} decision sets for {} rules", maps.len(), dec.len(), g.n()));
    }
    for i in 0..g.n() {
        let mut want: BTreeMap<Look, CAlt> = BTreeMap::new();
        let mut want_set: BTreeSet<Look> = BTreeSet::new();
        for a in &g.rules[i] {
            for l in g.predict(&st, i, a) {
                want.insert(l, c_alt(&g, a));
                want_set.insert(l);
            }
        }
        let Some(m) = maps.get(&map[i]) else {
            return Err(format!("no table for {}", g.names[i]));
        };
        let got: BTreeMap<Look, CAlt> = m
            .steuermap
            .iter()
            .map(|(k, p)| {
                let alt = match &**p {
                    henriks_parsing_project::parser_data::Production::Empty => vec![],
                    henriks_parsing_project::parser_data::Production::NotEmpty(v) => v
                        .iter()
                        .map(|&ix| {
                            let e = &elems[ix];
                            (e.et == henriks_parsing_project::parser_data::ElementType::NonTerminal, e.name.clone())
                        })
                        .collect(),
                };
                (look_of(*k), alt)
            })
            .collect();
        if got != want {
            let diff: Vec<Look> = got.keys().chain(want.keys()).filter(|k| got.get(k) != want.get(k)).cloned().collect();
            return Err(format!(
                "table of {}: lookaheads {:?} differ; is {:?}, should be {:?}",
                g.names[i],
                diff,
                diff.iter().map(|d| got.get(d)).collect::<Vec<_>>(),
                diff.iter().map(|d| want.get(d)).collect::<Vec<_>>()
            ));
        }
        // the table is asked with the next character of a text
        for l in asked_with(&g, s) {
            let got = m.steuermap.get(&henriks_parsing_project::sets::SetMember::from(l.as_ref())).is_some();
            if got != want.contains_key(&l) {
                return Err(format!("asked with {l:?} (None = end) the table of {} {} an alternative", g.names[i], if got { "finds" } else { "does not find" }));
            }
        }
        let d = dec.get(&map[i]).map(looks);
        if d.as_ref() != Some(&want_set) {
            return Err(format!("decision set of {} is {d:?}, should be {want_set:?}", g.names[i]));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "A case is a grammar: repaired to LL(1), unrepaired random, LL(1) plus one or two injected faults (FIRST/FIRST or FIRST/FOLLOW clash, second empty alternative, direct, indirect or hidden left recursion, undefined or missing rule), or a chain of nullable rules; written as text in a random layout and also built through calls in random order. Every case is non-trivial; distinct by rules, names and start rule.",
            max: 700, quick: 320_000, thorough: 12_000_000, case: c04, pinned: c04_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C05",
            rule: "A case is a grammar without left recursion (conflicts and unproductive rules allowed), given as text or through calls in random order, and a few symbol sequences over it. Non-trivial: some alternative begins with a rule.",
            max: 700, quick: 1_000_000, thorough: 30_000_000, case: c05, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C06",
            rule: "A case is a grammar without left recursion, a start rule and a numbering of its symbols. Non-trivial: a rule stands in tail position (before nothing or only nullable symbols) of another rule whose FOLLOW set is not empty.",
            max: 700, quick: 800_000, thorough: 30_000_000, case: c06, pinned: no_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C07",
            rule: "A case is an LL(1) grammar with a start rule and a numbering of its symbols; all table entries and decision sets are compared. Non-trivial: a rule with several alternatives has one that begins with a rule.",
            max: 700, quick: 200_000, thorough: 8_000_000, case: c07, pinned: no_pinned, known: no_known, cpu: 30,
        },
    ]
}

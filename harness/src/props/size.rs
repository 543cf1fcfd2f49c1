//! C23: scaled inputs. The library runs on a thread with the stack that Rust gives a thread by default.
use super::lang::{check_error, lang_grammar};
use crate::choices::Src;
use crate::grammar::*;
use crate::refll::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::simple_graph::Graph;
use henriks_parsing_project::tree::Tree;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};

const STACK: usize = 2 << 20;

fn small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || guard(f))
            .expect("thread")
            .join()
            .map_err(|_| "panic outside".to_string())?
    })
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// number of elements: mostly some thousands, up to 2^max_log
fn scale(s: &mut Src, max_log: u32) -> usize {
    let k = s.range(0, (max_log - 1) as usize);
    let lo = 1usize << k;
    lo + ((s.raw() as usize) * lo >> 16)
}
fn t(x: &str) -> Sym {
    Sym::T(x.into())
}

#[derive(Clone)]
enum Want {
    /// what the reference parser says
    Ref,
    Tree(FlatTree),
    /// refused at this position
    At(usize, Option<char>),
    /// no parser can be made
    NoParser,
}
struct Case {
    what: &'static str,
    n: usize,
    g: Grammar,
    text: String,
    /// build through the programming interface instead
    calls: bool,
    scripts: Vec<(String, Want)>,
}
fn gram(names: &[&str], rules: Vec<Vec<Alt>>) -> Grammar {
    Grammar { names: names.iter().map(|x| x.to_string()).collect(), rules, start: 0 }
}

/// a big derivation of any grammar: alternatives that keep it going are preferred until it is big enough
fn derive_big(r: &mut Rng, g: &Grammar, size: usize, deep: bool) -> DTree {
    let min = g.min_alt();
    // rules from which themselves can be reached again
    let n = g.n();
    let mut loops = vec![false; n];
    for i in 0..n {
        let mut seen = vec![false; n];
        let mut st: Vec<usize> = vec![i];
        while let Some(x) = st.pop() {
            for y in g.rules[x].iter().flatten() {
                if let Sym::N(j) = y {
                    if *j == i {
                        loops[i] = true;
                    }
                    if !seen[*j] {
                        seen[*j] = true;
                        st.push(*j);
                    }
                }
            }
        }
    }
    // rules from which a loop can be reached
    let mut live = loops.clone();
    for _ in 0..n {
        for i in 0..n {
            if g.rules[i].iter().flatten().any(|y| matches!(y, Sym::N(j) if live[*j])) {
                live[i] = true;
            }
        }
    }
    let mut out = vec![];
    let mut todo: Vec<(Sym, u32)> = vec![(Sym::N(g.start), 0)];
    while let Some((sym, depth)) = todo.pop() {
        match sym {
            Sym::T(x) => out.push(DNode::Leaf { text: x, depth }),
            Sym::N(i) => {
                let alts = &g.rules[i];
                let grow = out.len() + todo.len() < size;
                let alt = if grow {
                    let v: Vec<usize> =
                        (0..alts.len()).filter(|&k| alts[k].iter().any(|y| matches!(y, Sym::N(j) if live[*j]))).collect();
                    if !v.is_empty() && (deep || r.below(10) < 8) {
                        v[r.below(v.len())]
                    } else {
                        r.below(alts.len())
                    }
                } else {
                    min[i].1
                };
                out.push(DNode::Rule { rule: i, alt, depth });
                for x in alts[alt].iter().rev() {
                    todo.push((x.clone(), depth + 1));
                }
            }
        }
    }
    out
}

/// variations of a sentence: itself, cut, continued, one character changed
fn around(s: &mut Src, x: String, odd: char) -> Vec<(String, Want)> {
    let n = x.chars().count();
    let mut v = vec![];
    match s.below(5) {
        0 => v.push(x),
        1 => {
            // all but the last, all but a part
            let k = if s.chance(50) { 1 } else { s.below(n + 1) };
            v.push(x.chars().take(n.saturating_sub(k)).collect());
        }
        2 => {
            let mut y = x;
            y.push(odd);
            v.push(y);
        }
        3 => {
            let k = if s.chance(50) { n.saturating_sub(1) } else { s.below(n + 1) };
            v.push(x.chars().enumerate().map(|(i, c)| if i == k { odd } else { c }).collect());
        }
        _ => {
            let mut y = x.clone();
            y.push_str(&x);
            v.push(y);
        }
    }
    v.into_iter().map(|x| (x, Want::Ref)).collect()
}
fn ch(i: usize) -> char {
    // distinct, without surrogates and characters with a meaning in the notation
    char::from_u32(0x1_0000 + i as u32).unwrap()
}

fn gen_case(s: &mut Src, thorough: bool) -> Case {
    let up = if thorough { 2 } else { 0 };
    let k = s.below(21);
    let mut scripts = vec![];
    let mut text = None;
    let n;
    let what;
    let g;
    match k {
        0 => {
            what = "script: list";
            n = scale(s, 17 + up);
            g = gram(&["start"], vec![vec![vec![t("a"), Sym::N(0)], vec![]]]);
            scripts = around(s, "a".repeat(n), 'b');
        }
        1 => {
            what = "script: nested brackets";
            n = scale(s, 16 + up);
            g = gram(&["start"], vec![vec![vec![t("("), Sym::N(0), t(")"), Sym::N(0)], vec![]]]);
            scripts = around(s, "(".repeat(n) + &")".repeat(n), ']');
        }
        2..=4 => {
            what = "script: big derivation of any grammar";
            n = scale(s, 16 + up);
            g = lang_grammar(s);
            let mut r = Rng(u64::from(s.raw()) << 20 | 1);
            let deep = s.chance(50);
            let d = derive_big(&mut r, &g, n, deep);
            let x = yield_of(&d);
            // long terminals can make the script longer than the derivation
            if x.len() > 4_000_000 {
                scripts.push((String::new(), Want::Ref));
            } else if s.chance(50) {
                scripts.push((x, Want::Tree(flat_of(&d))));
            } else {
                scripts = around(s, x, 'q');
            }
        }
        5 => {
            what = "terminal";
            n = scale(s, 17 + up);
            let x: String = match s.below(3) {
                0 => "a".repeat(n),
                1 => "äb日😀".chars().cycle().take(n).collect(),
                _ => (0..n).map(|i| char::from_u32(0x4e00 + (i as u32 * 7) % 20000).unwrap()).collect(),
            };
            g = gram(&["start"], vec![vec![vec![t(&x)], vec![t("!"), t(&x), Sym::N(0)]]]);
            let x = if s.chance(50) { x } else { format!("!{x}{x}") };
            scripts = around(s, x, '_');
        }
        6 => {
            what = "symbols in an alternative: terminals";
            n = scale(s, 16 + up);
            g = gram(&["start"], vec![vec![(0..n).map(|i| t(["a", "b", "cd"][i % 3])).collect()]]);
            let x: String = (0..n).map(|i| ["a", "b", "cd"][i % 3]).collect();
            scripts = around(s, x, 'e');
        }
        7 => {
            what = "symbols in an alternative: rules";
            n = scale(s, 15 + up);
            g = gram(&["start", "x", "y"], vec![vec![(0..n).map(|i| Sym::N(1 + i % 2)).collect()], vec![vec![t("a")], vec![t("b")]], vec![vec![t("c")]]]);
            let x: String = (0..n).map(|i| if i % 2 == 1 { 'c' } else if i % 3 == 0 { 'a' } else { 'b' }).collect();
            scripts = around(s, x, 'e');
        }
        8 => {
            what = "symbols in an alternative: optional rules";
            n = scale(s, 9 + up / 2);
            // each may be there once; x_i is optional
            let mut names = vec!["start".to_string()];
            let mut rules = vec![vec![(1..=n).map(Sym::N).collect::<Alt>()]];
            for i in 0..n {
                names.push(format!("x{i}"));
                rules.push(vec![vec![t(&ch(i).to_string())], vec![]]);
            }
            g = Grammar { names, rules, start: 0 };
            let step = s.range(1, 4);
            let x: String = (0..n).filter(|i| i % step == 0).map(ch).collect();
            scripts = around(s, x, '_');
        }
        9 => {
            what = "alternatives";
            n = scale(s, 14 + up);
            let mut alts: Vec<Alt> = (0..n).map(|i| vec![t(&ch(i).to_string()), Sym::N(0)]).collect();
            alts.push(vec![]);
            if s.chance(15) {
                alts.push(vec![t(&ch(n / 2).to_string()), t("z")]);
                scripts.push(("a".into(), Want::NoParser));
            }
            g = gram(&["start"], vec![alts]);
            if scripts.is_empty() {
                let x: String = (0..s.range(1, 50)).map(|_| ch(s.below(n))).collect();
                scripts = around(s, x, '_');
            }
        }
        10 => {
            what = "rules used one after the other";
            n = scale(s, 13 + up);
            let mut names = vec!["start".to_string()];
            let mut rules = vec![vec![(1..=n).map(Sym::N).collect::<Alt>()]];
            for i in 0..n {
                names.push(format!("r{i}"));
                rules.push(vec![vec![t(&ch(i).to_string())]]);
            }
            let x: String = (0..n).map(ch).collect();
            match s.below(8) {
                0 => {
                    // one of them is missing
                    let u = 1 + s.below(n);
                    rules[u].clear();
                    scripts.push((x, Want::NoParser));
                }
                _ => scripts = around(s, x, '_'),
            }
            g = Grammar { names, rules, start: 0 };
        }
        11 | 12 => {
            // start -> r1 -> r2 ..., also with something optional in front
            what = if k == 11 { "chain of rules" } else { "cycle of rules" };
            n = scale(s, 11 + up / 2);
            let opt = s.chance(40);
            let mut names: Vec<String> = (0..n).map(|i| if i == 0 { "start".into() } else { format!("r{i}") }).collect();
            let mut rules: Vec<Vec<Alt>> = (0..n)
                .map(|i| {
                    let nx = if i + 1 < n { Sym::N(i + 1) } else if k == 12 { Sym::N(0) } else { t("x") };
                    vec![if opt { vec![Sym::N(n), nx] } else { vec![nx] }]
                })
                .collect();
            if opt {
                names.push("o".into());
                rules.push(vec![vec![t("o")], vec![]]);
            }
            if k == 12 {
                scripts.push(("x".into(), Want::NoParser));
            } else if opt {
                // o is followed by o: not LL(1) unless the chain has one rule
                if n > 1 {
                    scripts.push(("x".into(), Want::NoParser));
                } else {
                    scripts = around(s, "ox".into(), 'y');
                }
            } else {
                let mut f: FlatTree = (0..n as u32).map(|d| (d, String::new())).collect();
                f.push((n as u32, "x".into()));
                scripts.push(("x".into(), Want::Tree(f)));
                scripts.push(("".into(), Want::At(0, None)));
                scripts.push(("xy".into(), Want::At(1, Some('y'))));
                scripts.push(("y".into(), Want::At(0, Some('y'))));
            }
            if s.chance(50) {
                let all: Vec<usize> = (0..names.len()).collect();
                text = Some(render_order(&names, &rules, all.into_iter().rev()));
            }
            g = Grammar { names, rules, start: 0 };
        }
        13 => {
            what = "statements for one rule";
            n = scale(s, 13 + up);
            g = gram(&["start"], vec![(0..n).map(|i| vec![t(&ch(i).to_string())]).collect()]);
            text = Some((0..n).map(|i| format!("start->\"{}\";", ch(i))).collect());
            let i = s.below(n);
            let x = ch(i).to_string();
            scripts = around(s, x, '_');
        }
        14 => {
            what = "white space, names and action text";
            n = scale(s, 17 + up);
            let nm = "p".repeat(if s.chance(50) { n } else { 3 });
            let ws = |s: &mut Src| if s.chance(40) { s.pick(WS).repeat(n) } else { " ".into() };
            g = Grammar { names: vec!["start".into(), nm.clone()], rules: vec![vec![vec![Sym::N(1)]], vec![vec![t("x")], vec![t("y"), Sym::N(1)]]], start: 0 };
            let act = if s.chance(50) { format!("{{{}}}", s.pick(&["p", "\\}", "日", "{", "; ->"]).repeat(n)) } else { String::new() };
            let w: Vec<String> = (0..6).map(|_| ws(s)).collect();
            text = Some(format!("{}start{}->{nm}{}{act};{}{nm}->\"x\"|{}\"y\"{nm}{};", w[0], w[1], w[2], w[3], w[4], w[5]));
            scripts = around(s, "yyx".into(), 'z');
        }
        15 => {
            what = "ignored symbols in a long alternative";
            n = scale(s, 13 + up);
            let plain = gram(&["start", "ws"], vec![vec![(0..n).map(|i| t(["a", "b"][i % 2])).collect()], vec![vec![t(" "), Sym::N(1)], vec![]]]);
            text = Some(format!("$IGNORE:ws;{}", render_plain(&plain)));
            g = weave(&plain, &[Some(1), None]);
            let mut r = Rng(u64::from(s.raw()) << 20 | 1);
            let x: String = (0..n).map(|i| format!("{}{}", ["a", "b"][i % 2], if i + 1 < n { " ".repeat(r.below(3)) } else { String::new() })).collect();
            scripts = around(s, x, 'e');
        }
        17 => {
            what = "empty terminals";
            n = scale(s, 16 + up);
            let e = || vec![t(""); n];
            let m = s.below(4);
            let mut a = e();
            a.push(t("x"));
            // in front of a character, behind it, alone, or in front of a rule
            g = match m {
                0 => gram(&["start"], vec![vec![a, vec![t("y"), Sym::N(0)]]]),
                1 => {
                    a.rotate_right(1);
                    gram(&["start"], vec![vec![a, vec![t("y"), Sym::N(0)]]])
                }
                2 => gram(&["start", "o"], vec![vec![vec![Sym::N(1), t("x")], vec![t("y"), Sym::N(0)]], vec![e()]]),
                _ => {
                    a.pop();
                    a.push(Sym::N(1));
                    gram(&["start", "o"], vec![vec![a, vec![t("y"), Sym::N(0)]], vec![vec![t("x")]]])
                }
            };
            scripts = around(s, "yyx".into(), 'z');
        }
        18 => {
            what = "one empty rule many times";
            n = scale(s, 11 + up / 2);
            let mut a: Alt = (0..n).map(|i| Sym::N(1 + i % 2)).collect();
            a.push(t("x"));
            g = gram(&["start", "o", "e"], vec![vec![a, vec![t("y"), Sym::N(0)]], vec![vec![]], vec![vec![t(""), Sym::N(1), t("")]]]);
            scripts = around(s, "yyx".into(), 'z');
        }
        19 => {
            what = "rules that share rules";
            // each layer uses the next one twice or three times: few rules, but exponentially many ways through them
            n = scale(s, 8);
            let m = s.range(2, 3);
            let style = s.below(4);
            let ignored = style >= 2;
            let mut names: Vec<String> = vec!["start".into(), "ig".into()];
            names.extend((0..=n).map(|i| format!("r{i}")));
            let mut rules: Vec<Vec<Alt>> = vec![];
            if ignored {
                rules.push(vec![vec![t("s"), Sym::N(0)], vec![t("t")]]);
                rules.push(vec![vec![Sym::N(2), Sym::N(1)], vec![]]);
            } else {
                rules.push(vec![vec![t("s"), Sym::N(0)], vec![t("t")], vec![t("u"), Sym::N(2)]]);
                rules.push(vec![vec![t("v")]]);
            }
            for i in 0..n {
                let mut a: Alt = (0..m).map(|_| Sym::N(3 + i)).collect();
                if style == 1 || style == 3 {
                    let at = s.below(a.len() + 1);
                    a.insert(at, t(["a", "b"][i % 2]));
                }
                rules.push(vec![a]);
            }
            // a rule for ignored text that can be empty would not be usable
            rules.push(vec![if ignored || s.chance(50) { vec![t("w")] } else { vec![] }]);
            let plain = Grammar { names, rules, start: 0 };
            if ignored {
                text = Some(format!("$IGNORE: ig; {}", render_order(&plain.names, &plain.rules, 0..n + 3)));
                // rules that the ignored rule uses are left alone
                g = weave(&plain, &vec![Some(1); plain.n()]);
            } else {
                g = plain;
            }
            let x = "s".repeat(s.below(5)) + "t";
            scripts = around(s, x, 'x');
        }
        _ => {
            what = "tree of rules";
            // rule i uses rules 2i+1 and 2i+2
            n = scale(s, 11 + up / 2);
            let names: Vec<String> = (0..n).map(|i| if i == 0 { "start".into() } else { format!("r{i}") }).collect();
            let rules: Vec<Vec<Alt>> = (0..n)
                .map(|i| vec![vec![if 2 * i + 1 < n { Sym::N(2 * i + 1) } else { t("a") }, if 2 * i + 2 < n { Sym::N(2 * i + 2) } else { t("b") }]])
                .collect();
            let order: Vec<usize> = if s.chance(50) { (0..n).rev().collect() } else { (0..n).collect() };
            text = Some(render_order(&names, &rules, order.into_iter()));
            g = Grammar { names, rules, start: 0 };
            let d = derive_big(&mut Rng(1), &g, usize::MAX, false);
            let x = yield_of(&d);
            let m = x.chars().count();
            scripts.push((x.clone() + "c", Want::At(m, Some('c'))));
            scripts.push((x.chars().take(m - 1).collect(), Want::At(m - 1, None)));
            scripts.push((x, Want::Tree(flat_of(&d))));
        }
    }
    let calls = text.is_none() && s.chance(30);
    let text = text.unwrap_or_else(|| render_plain(&g));
    Case { what, n, g, text, calls, scripts }
}
fn render_order(names: &[String], rules: &[Vec<Alt>], order: impl Iterator<Item = usize>) -> String {
    let mut o = String::new();
    let mut s = Src::new(&[]);
    for i in order {
        render_stmt(&mut s, &Layout::plain(), names, &Stmt { rule: i, alts: rules[i].clone(), action: None, over: None }, &mut o);
        o.push('\n');
    }
    o
}

fn check_case(k: &Case, c: &mut Ctx) -> Res {
    c.describe(|| {
        let list: Vec<String> = k.scripts.iter().map(|x| format!("{:?} ({} characters)", clip(&x.0, 60), x.0.chars().count())).collect();
        format!("{}, n = {}{}\ngrammar:\n{}\nscripts: {}", k.what, k.n, if k.calls { ", built by calls" } else { "" }, clip(&k.text, 400), list.join(", "))
    });
    c.label(format!("{} ({})", k.what, mag(k.n)));
    if k.n >= 1000 || k.n >= 200 && (k.what.contains("chain") || k.what.contains("cycle") || k.what.contains("optional")) || k.n >= 20 && k.what.contains("share") {
        c.nontrivial(&(k.what, k.n, k.calls, &k.text, k.scripts.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()));
    }
    let want_parser = !k.scripts.iter().any(|x| matches!(x.1, Want::NoParser));
    let got = small_stack(|| {
        let vm = NullVm::new();
        let p = if k.calls {
            let mut pd: ParserData<NullVm> = build_data(&k.g);
            let st = pd.get_or_add_non_terminal(&k.g.names[k.g.start]);
            guard(|| Parser::new_from_parser_data(pd, st, &vm))
        } else {
            let name = k.g.names[k.g.start].clone();
            if name == "start" {
                parser_text(&k.text, &vm)
            } else {
                let mut pd = match read_text(&k.text, &vm) {
                    Ok(Ok(pd)) => pd,
                    Ok(Err(e)) | Err(e) => return Err(e),
                };
                let st = pd.get_or_add_non_terminal(&name);
                guard(|| Parser::new_from_parser_data(pd, st, &vm))
            }
        };
        let mut p = p?;
        let mut out = vec![];
        if want_parser {
            for x in &k.scripts {
                let mut st = NullVm::create_new_state();
                out.push(parse_with(&mut p, &x.0, &mut st));
            }
        }
        Ok(out)
    })
    .and_then(|x| x);
    let outs = match (got, want_parser) {
        (Ok(_), false) => return Err("a parser was made from a grammar that is not usable".into()),
        (Err(_), false) => {
            c.label("grammar refused");
            return Ok(());
        }
        (Err(e), true) => return Err(format!("the grammar is usable, but: {}", clip(&e, 1000))),
        (Ok(v), true) => v,
    };
    let mut table = None;
    for ((x, w), o) in k.scripts.iter().zip(outs) {
        match w {
            Want::Tree(f) => {
                c.label("parsed");
                same_tree(f, &o)?
            }
            Want::At(p, a) => {
                c.label("refused");
                let ok = match (&o, a) {
                    (Outcome::Unexpected { pos, chr, .. }, Some(a)) => pos == p && chr == a,
                    (Outcome::Unexpected { pos, .. } | Outcome::End { pos }, None) => pos == p,
                    _ => false,
                };
                if !ok {
                    return Err(format!("script {:?}: should be refused at {p} ({a:?}), but the parser says {}", clip(x, 100), o.short()));
                }
            }
            _ => {
                let t = table.get_or_insert_with(|| LlTable::new(&k.g));
                let run = run_ll(&k.g, t, k.g.start, x);
                if run.err.is_some() {
                    c.label("refused");
                    check_error(&k.g, t, x, &run, &o)?;
                } else {
                    c.label("parsed");
                    same_tree(&flat_of(&run.dtree), &o)?;
                }
            }
        }
    }
    Ok(())
}
fn same_tree(want: &FlatTree, got: &Outcome) -> Res {
    let Outcome::Tree(f) = got else {
        return Err(format!("the sentence was refused: {}", got.short()));
    };
    if f == want {
        return Ok(());
    }
    let i = want.iter().zip(f).position(|(a, b)| a != b).unwrap_or(want.len().min(f.len()));
    Err(format!(
        "the tree has {} nodes instead of {}; first difference at node {i} in preorder: {:?} instead of {:?} (depth, text)",
        f.len(),
        want.len(),
        f.get(i).map(|x| (x.0, clip(&x.1, 80))),
        want.get(i).map(|x| (x.0, clip(&x.1, 80)))
    ))
}
fn mag(n: usize) -> &'static str {
    match n {
        0..=99 => "below 100",
        100..=999 => "100 to 999",
        1000..=9999 => "1000 to 9999",
        10_000..=99_999 => "10000 to 99999",
        _ => "100000 and more",
    }
}

// ---- machines, trees, graphs, streams

fn machine_case(s: &mut Src, c: &mut Ctx) -> Res {
    let big = scale(s, if c.thorough { 17 } else { 15 });
    match s.below(4) {
        0 => {
            c.describe(|| format!("counting machine, list of {big}"));
            c.label(format!("counting machine ({})", mag(big)));
            c.nontrivial(&(0, big));
            let x = "a".repeat(big);
            let n = small_stack(|| {
                let vm = CountingVm {};
                let mut p = Parser::new_from_text("start -> \"a\" start | # {;};", &vm);
                let mut st = 0;
                let r = p.parse(&x, &mut st).map(|_| ()).map_err(|e| format!("{e:?}"));
                (r, st)
            });
            match n {
                Ok((Ok(()), k)) if k == big + 1 => Ok(()),
                o => Err(format!("counted {o:?} instead of {}", big + 1)),
            }
        }
        1 => {
            c.describe(|| format!("stack machine, {big} instructions in one action"));
            c.label(format!("stack machine code ({})", mag(big)));
            c.nontrivial(&(1, big));
            let code: String = (0..big).map(|i| format!("PushConst {i}; ")).collect();
            let text = format!("start -> \"a\" {{ {code} }};");
            let r = small_stack(|| {
                let vm = StackVm {};
                let mut p = Parser::new_from_text(&text, &vm);
                let mut st = StackVm::create_new_state();
                let r = p.parse("a", &mut st).map(|_| ()).map_err(|e| format!("{e:?}"));
                (r, st)
            });
            match r {
                Ok((Ok(()), st)) if st.stack.len() == big && st.stack.iter().enumerate().all(|(i, x)| *x as i128 == i as i128) => Ok(()),
                Ok((r, st)) => Err(format!("{r:?}, {} values on the stack", st.stack.len())),
                Err(e) => Err(e),
            }
        }
        2 => {
            c.describe(|| format!("simple stack machine, list of {big} digits"));
            c.label(format!("simple stack machine list ({})", mag(big)));
            c.nontrivial(&(2, big));
            let x = "7".repeat(big);
            let r = small_stack(|| {
                let vm = SimpleStackVm {};
                let mut p = Parser::new_from_text("start -> digit start | #; digit -> \"7\" {};", &vm);
                let mut st = SimpleStackVm::create_new_state();
                let r = p.parse(&x, &mut st).map(|_| ()).map_err(|e| format!("{e:?}"));
                (r, st.stack)
            });
            match r {
                // each digit leaves its value and a factor
                Ok((Ok(()), v)) if v.len() == 2 * big && v.chunks(2).all(|w| w == [7, 1]) => Ok(()),
                Ok((r, v)) => Err(format!("{r:?}, {} values on the stack: {:?}", v.len(), v.iter().take(6).collect::<Vec<_>>())),
                Err(e) => Err(e),
            }
        }
        _ => {
            // sum of a list, added up from its end
            c.describe(|| format!("stack machine, sum over a list of {big}"));
            c.label(format!("stack machine sum ({})", mag(big)));
            c.nontrivial(&(3, big));
            let x = "a".repeat(big) + ".";
            let r = small_stack(|| {
                let vm = StackVm {};
                let mut p = Parser::new_from_text("start -> a start add | last; last -> \".\" {PushConst 1;}; add -> # {PopToReg; Add;}; a -> \"a\" {PushConst 3;};", &vm);
                let mut st = StackVm::create_new_state();
                let r = p.parse(&x, &mut st).map(|_| ()).map_err(|e| format!("{e:?}"));
                (r, st)
            });
            match r {
                Ok((Ok(()), st)) if st.stack.len() == 1 && st.stack[0] as usize == 3 * big + 1 => Ok(()),
                Ok((r, st)) => Err(format!("{r:?}, stack {:?}", st.stack.iter().take(5).collect::<Vec<_>>())),
                Err(e) => Err(e),
            }
        }
    }
}

fn store_case(s: &mut Src, c: &mut Ctx) -> Res {
    let big = scale(s, if c.thorough { 18 } else { 16 }).max(2);
    let seed = u64::from(s.raw()) << 20 | 1;
    match s.below(3) {
        0 => {
            let shape = s.below(4);
            let shape_name = ["deep", "wide", "random", "random, mostly deep"][shape];
            c.describe(|| format!("tree of {big} nodes, {shape_name}, seed {seed}"));
            c.label(format!("tree, {shape_name} ({})", mag(big)));
            c.nontrivial(&(4, big, shape, seed));
            small_stack(|| -> Res {
                let mut r = Rng(seed);
                let mut tr = Tree::new();
                let mut ids = vec![tr.add_node(0usize, None).map_err(|e| e.to_string())?];
                let mut par = vec![0usize];
                let mut kids = vec![vec![]];
                for i in 1..big {
                    let p = match shape {
                        0 => i - 1,
                        1 => 0,
                        2 => r.below(i),
                        _ => i - 1 - r.below(3.min(i)),
                    };
                    ids.push(tr.add_node(i, Some(ids[p])).map_err(|e| e.to_string())?);
                    par.push(p);
                    kids.push(vec![]);
                    kids[p].push(i);
                }
                let all = tr.get_descendants(ids[0]);
                if all.len() != big - 1 {
                    return Err(format!("{} descendants of the root instead of {}", all.len(), big - 1));
                }
                let cut = 1 + if shape == 0 { r.below((big - 1).min(5)) } else { r.below(big - 1) };
                // the path to the node that goes
                let mut path = vec![];
                let mut x = cut;
                while x != 0 {
                    path.push(kids[par[x]].iter().position(|y| *y == x).unwrap());
                    x = par[x];
                }
                path.reverse();
                match tr.get_by_path_or_none(ids[0], path.clone().into_iter()).map_err(|e| e.to_string())? {
                    Some(nd) if nd.data == cut => {}
                    o => return Err(format!("path of {} steps leads to {:?} instead of {cut}", path.len(), o.map(|n| n.data))),
                }
                let mut gone = vec![false; big];
                gone[cut] = true;
                for i in cut + 1..big {
                    gone[i] = gone[par[i]];
                }
                tr.remove_branch(ids[cut]).map_err(|e| e.to_string())?;
                if let Some(i) = (0..big).find(|&i| tr.node_exists(ids[i]) == gone[i]) {
                    return Err(format!("after removing {cut}: node {i} exists = {}", !gone[i]));
                }
                let left = tr.get_descendants(ids[0]).len();
                let want = gone.iter().filter(|x| !**x).count() - 1;
                if left != want {
                    return Err(format!("{left} descendants are left instead of {want}"));
                }
                // the storage is used again
                let n = gone.iter().filter(|x| **x).count().min(2000);
                let mut at = ids[0];
                for i in 0..n {
                    at = tr.add_node(big + i, Some(at)).map_err(|e| e.to_string())?;
                }
                let now = tr.get_descendants(ids[0]).len();
                if now != want + n {
                    return Err(format!("{now} descendants after adding {n} instead of {}", want + n));
                }
                if let Some(i) = (0..big).find(|&i| tr.node_exists(ids[i]) == gone[i]) {
                    return Err(format!("after adding again: node {i} exists = {}", !gone[i]));
                }
                Ok(())
            })?
        }
        1 => {
            let shape = s.below(2);
            c.describe(|| format!("graph of {big} nodes, {}", ["path", "star"][shape]));
            c.label(format!("graph, {} ({})", ["path", "star"][shape], mag(big)));
            c.nontrivial(&(5, big, shape));
            small_stack(|| -> Res {
                let mut g = Graph::new();
                let mut ng = GraphNamedNodes::new();
                for i in 0..big {
                    let id = g.add_node(i);
                    let e = ng.add_node(3 * i + 1, i).map_err(|e| format!("{e:?}"))?;
                    let _ = (id, e);
                }
                for i in 1..big {
                    let p = if shape == 0 { i - 1 } else { 0 };
                    g.add_edge(p, i);
                    ng.add_edge(3 * p + 1, 3 * i + 1).map_err(|e| format!("{e:?}"))?;
                }
                let last = big - 1;
                let found = if shape == 0 { g.find_node_index_by_path(0, (0..last).map(|_| 0)) } else { g.find_node_index(0, last - 1) };
                if found != Some(last) {
                    return Err(format!("{found:?} instead of node {last}"));
                }
                let n = g.successors(0).count();
                if n != if shape == 0 { 1 } else { last } {
                    return Err(format!("{n} successors of the first node"));
                }
                let names = ng.successors(1).map_err(|e| format!("{e:?}"))?.count();
                if names != n {
                    return Err(format!("{names} successors of the first named node instead of {n}"));
                }
                Ok(())
            })?
        }
        _ => {
            let cut = s.below(big);
            c.describe(|| format!("stream of {big} characters, looked ahead and read up to {cut}"));
            c.label(format!("stream ({})", mag(big)));
            c.nontrivial(&(6, big, cut));
            small_stack(|| -> Res {
                let mut r = Rng(seed);
                let mut text: Vec<char> = (0..big).map(|_| ['a', 'ä', '日', '\\'][r.below(4)]).collect();
                text[cut] = '}';
                if cut > 0 && text[cut - 1] == '\\' {
                    text[cut - 1] = 'b';
                }
                let x: String = text.iter().collect();
                let mut pw = PeekableWrapper::from_str(&x);
                let mut v = ParseProcess::new(&mut pw, Some('}'), Some('\\'));
                let mut got = 0;
                loop {
                    let p = v.peek().copied();
                    let n = v.next();
                    if p != n {
                        return Err(format!("at {got}: looking ahead shows {p:?}, reading gives {n:?}"));
                    }
                    match n {
                        None => break,
                        Some(ch) if text.get(got) != Some(&ch) => return Err(format!("at {got}: {ch:?} instead of {:?}", text.get(got))),
                        _ => got += 1,
                    }
                }
                if got != cut || v.cur_pos() != cut {
                    return Err(format!("stopped after {got} characters, position {}, instead of {cut}", v.cur_pos()));
                }
                Ok(())
            })?
        }
    }
}

fn c23(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[80, 10, 10]) {
        0 => {
            let k = gen_case(s, c.thorough);
            check_case(&k, c)
        }
        1 => machine_case(s, c),
        _ => store_case(s, c),
    }
}

fn fixed_case(what: &'static str, text: String, g: Grammar, n: usize, scripts: Vec<(String, Want)>) -> Pinned {
    let k = Case { what, n, g, text, calls: false, scripts };
    pin(what, move |c| check_case(&k, c))
}
fn c23_pinned() -> Vec<Pinned> {
    let list = gram(&["start"], vec![vec![vec![t("a"), Sym::N(0)], vec![]]]);
    let br = gram(&["start"], vec![vec![vec![t("("), Sym::N(0), t(")"), Sym::N(0)], vec![]]]);
    let n = 400_000;
    let r = |x: String| vec![(x, Want::Ref)];
    let mut v = vec![
        fixed_case("pinned: long list", render_plain(&list), list.clone(), n, r("a".repeat(n))),
        fixed_case("pinned: long list, wrong at its end", render_plain(&list), list.clone(), n, r("a".repeat(n) + "b")),
        fixed_case("pinned: deep brackets", render_plain(&br), br.clone(), n, r("(".repeat(n) + &")".repeat(n))),
        fixed_case("pinned: deep brackets, one is missing", render_plain(&br), br.clone(), n, r("(".repeat(n) + &")".repeat(n - 1))),
        fixed_case("pinned: deep brackets, one too many", render_plain(&br), br.clone(), n, r("(".repeat(n) + &")".repeat(n + 1))),
    ];
    // limits of small integers
    for n in [127usize, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537] {
        let g = gram(&["start"], vec![vec![vec![t(&"a".repeat(n)), t("b")]]]);
        v.push(fixed_case(
            Box::leak(format!("pinned: terminal of {n}").into_boxed_str()),
            render_plain(&g),
            g,
            n,
            vec![("a".repeat(n) + "b", Want::Ref), ("a".repeat(n - 1) + "b", Want::Ref), ("a".repeat(n + 1), Want::Ref), ("a".repeat(n), Want::Ref)],
        ));
        let g = gram(&["start"], vec![vec![(0..n).map(|_| t("a")).chain([t("b")]).collect()]]);
        v.push(fixed_case(
            Box::leak(format!("pinned: {n} symbols in an alternative").into_boxed_str()),
            render_plain(&g),
            g,
            n,
            vec![("a".repeat(n) + "b", Want::Ref), ("a".repeat(n - 1) + "b", Want::Ref), ("a".repeat(n + 1), Want::Ref)],
        ));
        v.push(fixed_case(
            Box::leak(format!("pinned: list of {n}").into_boxed_str()),
            render_plain(&list),
            list.clone(),
            n,
            vec![("a".repeat(n), Want::Ref), ("a".repeat(n) + "b", Want::Ref)],
        ));
        if n < 40_000 {
            let alts: Vec<Alt> = (0..n).map(|i| vec![t(&ch(i).to_string())]).collect();
            let g = gram(&["start"], vec![alts]);
            v.push(fixed_case(
                Box::leak(format!("pinned: {n} alternatives").into_boxed_str()),
                render_plain(&g),
                g,
                n,
                vec![(ch(n - 1).to_string(), Want::Ref), (ch(0).to_string(), Want::Ref), (ch(n / 2).to_string(), Want::Ref), (ch(n).to_string(), Want::Ref)],
            ));
        }
    }
    for (ignored, m, n) in [(false, 2, 60), (true, 2, 60), (false, 3, 200), (true, 3, 200)] {
        let mut names: Vec<String> = vec!["start".into(), "ig".into()];
        names.extend((0..=n).map(|i| format!("r{i}")));
        let mut rules = vec![vec![vec![t("s"), t("t")], vec![t("u"), Sym::N(2)]], vec![vec![Sym::N(2), Sym::N(1)], vec![]]];
        rules.extend((0..n).map(|i| vec![vec![Sym::N(3 + i); m]]));
        rules.push(vec![if ignored { vec![t("w")] } else { vec![] }]);
        if !ignored {
            rules[1] = vec![vec![t("v")]];
        } else {
            rules[0][1].pop();
        }
        let mut text = render_order(&names, &rules, 0..n + 3);
        let mut g = Grammar { names, rules, start: 0 };
        if ignored {
            text = format!("$IGNORE: ig; {text}");
            g = weave(&g, &vec![Some(1); n + 3]);
        }
        v.push(fixed_case(
            Box::leak(format!("pinned: {n} layers of rules that share rules, {m} times each{}", if ignored { ", ignored" } else { "" }).into_boxed_str()),
            text,
            g,
            n,
            vec![("st".into(), Want::Ref), ("s".into(), Want::Ref), ("tt".into(), Want::Ref)],
        ));
    }
    v.extend(deep_chains());
    v
}

/// rules, each of which begins with the next one
fn chain_of(n: usize, head: &str, last: &str) -> String {
    let mut o = String::from(head);
    for i in 0..n {
        o += &format!("{} -> r{};", if i == 0 { "start".to_string() } else { format!("r{i}") }, i + 1);
    }
    o + &format!("r{n} -> {last};")
}
fn deep_chains() -> Vec<Pinned> {
    vec![
        pin("pinned: 12,000 rules that are reached from an ignored one", |c| {
            let text = chain_of(12_000, "$IGNORE: start;", "\"x\"");
            c.describe(|| "$IGNORE: start; start -> r1; r1 -> r2; ... r12000 -> \"x\";".into());
            small_stack(|| match read_text(&text, &NullVm::new()) {
                Ok(Ok(_)) => Ok(()),
                o => Err(format!("{:?}", o.map(|x| x.map(|_| ())))),
            })?
        }),
        pin("pinned: FIRST sets of a chain of 30,000 rules", |c| {
            let text = chain_of(30_000, "", "\"x\"");
            c.describe(|| "start -> r1; r1 -> r2; ... r30000 -> \"x\";".into());
            small_stack(|| {
                let pd = read_text(&text, &NullVm::new())??;
                let f = guard(|| get_first_sets(&pd))?.map_err(|e| format!("{e:?}"))?;
                drop(f);
                Ok(())
            })?
        }),
        pin("pinned: a cycle of 30,000 rules is left recursion", |c| {
            let text = chain_of(30_000, "", "start");
            c.describe(|| "start -> r1; r1 -> r2; ... r30000 -> start;".into());
            small_stack(|| {
                let pd = read_text(&text, &NullVm::new())??;
                match guard(|| get_first_sets(&pd))? {
                    Err(_) => Ok(()),
                    Ok(_) => Err("FIRST sets of a left-recursive grammar".to_string()),
                }
            })?
        }),
        pin("pinned: a chain of 3,000 rules", |c| {
            let text = chain_of(3_000, "", "\"x\"");
            c.describe(|| "start -> r1; r1 -> r2; ... r3000 -> \"x\"; with the script x".into());
            small_stack(|| match null_outcome(&text, "x") {
                Ok(Outcome::Tree(f)) if f.len() == 3002 => Ok(()),
                o => Err(format!("{:?}", o.map(|o| o.short()))),
            })?
        }),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "A case is one of 20 families of grammars and scripts (lists, nesting, big derivations of arbitrary LL(1) grammars, long terminals, long alternatives of terminals, rules and optional rules, many alternatives, rules, statements, chains, cycles, trees and layers (that share rules) of rules, white space, names, action text, ignored symbols, empty terminals, empty rules), a machine with long code or many executions, or a tree, graph or stream, scaled log-uniformly up to some 10^5 elements, run on a thread with a 2 MiB stack, with sentences and with errors at known positions. Non-trivial: at least 1000 elements (200 for chains and cycles of rules and for optional symbols, 20 for layers).",
        max: 700, quick: 5000, thorough: 60_000, case: c23, pinned: c23_pinned, known: no_known, cpu: 120,
    }]
}

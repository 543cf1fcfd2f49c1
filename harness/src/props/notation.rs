//! C08 - C11: the rule notation.
use super::gram::{chain_grammar, gram_of, opts};
use crate::choices::Src;
use crate::grammar::*;
use crate::reader::{read, Verdict};
use crate::refll::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use crate::vm::*;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::NullVm;
use std::collections::VecDeque;

/// rules of any kind: conflicts, left recursion, undefined names and repeated alternatives included
fn any_grammar(s: &mut Src) -> Grammar {
    let o = opts(s);
    let mut g = match s.weighted(&[70, 15, 15]) {
        0 => raw_grammar(s, &o),
        1 => chain_grammar(s),
        _ => ll1_grammar(s, &o),
    };
    if s.chance(20) && g.n() > 1 {
        // a rule that is used but not defined
        let i = s.below(g.n());
        g.rules[i].clear();
    }
    if s.chance(15) {
        let i = s.below(g.n());
        if let Some(a) = g.rules[i].first().cloned() {
            g.rules[i].push(a);
        }
    }
    if s.chance(20) {
        // a rule and a terminal of the same name
        let i = s.below(g.n());
        let nm = g.names[s.below(g.names.len())].clone();
        let j = s.below(g.n());
        g.rules[i].push(vec![Sym::T(nm), Sym::N(j)]);
    }
    g
}
/// alternatives of one rule that are written in several statements end up in the order of the statements
fn same_rules(got: &crate::sut::CRules, want: &crate::sut::CRules) -> Res {
    if got == want {
        return Ok(());
    }
    for (n, w) in want {
        match got.get(n) {
            None => return Err(format!("rule {n} was lost")),
            Some(g) if g != w => return Err(format!("rule {n} is read as {g:?} instead of {w:?}")),
            _ => {}
        }
    }
    let extra: Vec<&String> = got.keys().filter(|k| !want.contains_key(*k)).collect();
    Err(format!("invented rules {extra:?}"))
}
fn read_ok(text: &str) -> Result<crate::sut::CRules, String> {
    let vm = NullVm::new();
    match read_text(text, &vm) {
        Err(p) => Err(format!("reading the text {p}")),
        Ok(Err(e)) => Err(format!("the text is refused: {e}")),
        Ok(Ok(pd)) => Ok(rules_of(&pd)),
    }
}

// ------------------------------------------------------------------ C08

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
    let g = any_grammar(s);
    let l = Layout::gen(s);
    let mut st = plain_stmts(&g);
    let mode = s.below(3);
    if mode == 1 {
        s.shuffle(&mut st);
    } else if mode == 2 {
        st = scatter(s, st);
    }
    if s.chance(25) {
        for x in st.iter_mut() {
            if s.chance(40) {
                x.action = Some(action_text(s));
            }
        }
    }
    // an override that switches off what is not on anyway
    let over = s.chance(12);
    if over {
        for x in st.iter_mut() {
            if s.chance(50) {
                x.over = Some(None);
            }
        }
    }
    let text = render(s, &l, &g.names, &st, None);
    c.describe(|| clip(&text, 3000));
    let want = c_rules(&g);
    let got = read_ok(&text)?;
    same_rules(&got, &want)?;
    // the reader used elsewhere as the oracle agrees
    match read(&text) {
        Verdict::Valid(v) if v == want => {}
        Verdict::Open(_) if over => {} // several statements of a rule, not all with the same override
        v => return Err(format!("HARNESS: the reference reader disagrees: {v:?}")),
    }
    c.label(["statements in order", "statements shuffled", "alternatives split over statements"][mode]);
    c.label(["one blank between tokens", "no optional white space", "random white space"][l.style]);
    c.label_if(st.iter().any(|x| x.action.is_some()), "with actions");
    c.label_if(over, "with overrides");
    c.label_if(g.rules.iter().flatten().flatten().any(|x| matches!(x, Sym::T(t) if t.contains('\\'))), "terminal with an escape sequence");
    c.label_if(g.rules.iter().flatten().flatten().any(|x| matches!(x, Sym::T(t) if t.contains(['#', ';', '|', '{', '}', '$', '>', '\n']))), "terminal with characters of the notation");
    if g.rules.iter().flatten().count() > 1 && (mode > 0 || l.style > 0) {
        c.nontrivial(&text);
    }
    Ok(())
}
fn c08_pinned() -> Vec<Pinned> {
    let t = |x: &str| (false, x.to_string());
    let n = |x: &str| (true, x.to_string());
    let v: Vec<(&str, &str, Vec<(&str, Vec<Vec<(bool, String)>>)>)> = vec![
        ("no white space at all", "a->b\"x\"c|#;b->\"\";", vec![("a", vec![vec![n("b"), t("x"), n("c")], vec![]]), ("b", vec![vec![t("")]])]),
        (
            "line breaks everywhere",
            "\r\n a\n\n->\n\n\"x\"\n\n\n|\n\n\n#\n\n\n;\n\u{3000}b\u{a0}->\t\"y\"\u{2028};\n",
            vec![("a", vec![vec![t("x")], vec![]]), ("b", vec![vec![t("y")]])],
        ),
        (
            "split rule",
            "a -> \"1\"; b -> \"2\" | a; a -> \"3\" | #; b -> \"4\"; a -> \"5\";",
            vec![("a", vec![vec![t("1")], vec![t("3")], vec![], vec![t("5")]]), ("b", vec![vec![t("2")], vec![n("a")], vec![t("4")]])],
        ),
        (
            "escape sequences",
            r#"a -> "\"" "\\" "\\\"" "x\ny" "\" -> b; " "\\\\";"#,
            vec![("a", vec![vec![t("\\\""), t("\\\\"), t("\\\\\\\""), t("x\\ny"), t("\\\" -> b; "), t("\\\\\\\\")]])],
        ),
        (
            "notation inside terminals",
            "a -> \"#\" \";\" | \"->\" \"|\" | \"{ }\" \"$[IGNORE:#]\" \"$IGNORE: a;\" \"\n\";",
            vec![("a", vec![vec![t("#"), t(";")], vec![t("->"), t("|")], vec![t("{ }"), t("$[IGNORE:#]"), t("$IGNORE: a;"), t("\n")]])],
        ),
        (
            "names",
            "größe_1 -> 名前 x²y A_ ; IGNORE -> start; start->IGNORE \"start\";",
            vec![("größe_1", vec![vec![n("名前"), n("x²y"), n("A_")]]), ("IGNORE", vec![vec![n("start")]]), ("start", vec![vec![n("IGNORE"), t("start")]])],
        ),
        ("nothing", "", vec![]),
        ("white space only", " \n\t\u{3000}", vec![]),
    ];
    let long = [1000usize, 1025, 5000, 65_540, 200_000].into_iter().flat_map(|n| {
        [" ", "\n", "\u{3000}\t"].map(|w| {
            pin(&format!("{n} times the white space {w:?} at every place"), move |c| {
                c.describe(|| format!("{n} times {w:?}"));
                let w = w.repeat(n);
                let text = ["", "a", "->", "\"x\"", "b", "|", "#", "{}", ";", "b", "->", "\"\"", ";", ""].join(&w);
                let x = |x: &str| (false, x.to_string());
                let want = [("a", vec![vec![x("x"), (true, "b".to_string())], vec![]]), ("b", vec![vec![x("")]])];
                same_rules(&read_ok(&text)?, &want.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
            })
        })
    });
    let long: Vec<Pinned> = long.collect();
    v.into_iter()
        .map(|(nm, text, want)| {
            pin(nm, move |c| {
                c.describe(|| text.to_string());
                let w = want.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
                same_rules(&read_ok(text)?, &w)
            })
        })
        .chain(long)
        .collect()
}

/// text between braces: an unescaped closing brace and a final backslash cannot be written
pub fn action_text(s: &mut Src) -> String {
    let mut t = String::new();
    let n = match s.weighted(&[15, 50, 30, 5]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(6, 25),
        _ => s.range(25, 200),
    };
    for _ in 0..n {
        match s.weighted(&[35, 15, 12, 12, 8, 8, 6, 4]) {
            0 => t.push(*s.pick(&['a', 'b', '1', ';', '(', ')', '.', '$', '#', '|', '"', '\'', '-', '>'])),
            1 => t.push_str("\\}"),
            2 => t.push('\\'),
            3 => t.push_str(s.pick(WS)),
            4 => t.push('{'),
            5 => t.push_str(s.pick(&["\\\\}", "\\}\\}", "\\{", "}-", "\\\"", "\\\\\\}"])),
            6 => t.push_str(s.pick(&["PushConst 3;", "a -> b;", "; b -> \"x\" {", "$[IGNORE:#]", "# |", "//"])),
            _ => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    // make it writable
    let mut out = String::new();
    let mut prev = ' ';
    for c in t.chars() {
        if c == '}' && prev != '\\' {
            out.push('\\');
        }
        out.push(c);
        prev = c;
    }
    while out.ends_with('\\') {
        out.push('n');
    }
    out
}

// ------------------------------------------------------------------ C09

const FRAGS: &[&str] = &[
    ";", "|", "#", "\"", "->", "-", ">", "{", "}", "$", "[", "]", ":", "\\", " ", "\n", "a", "b", "start", "\"x\"", "\"\"", "$[IGNORE:#]", "$[IGNORE:a]", "$IGNORE: a;", "{}", "{x}", "a -> \"x\";", "b -> a | #;", "_", "1", "ä", "IGNORE", "\\\"", "# a",
    "->->", ";;", "$[FOO:]", "$[", "$[IGNORE: a]", "\u{200b}", "\u{3000}", "//", "é²", "=", "::=", "'x'", "\0", "a->#;", "<-", "a b c", "\\}",
    "“x”", "„x“", "«x»", "‘x’", "`x`", "＂x＂", "”x”", "(a)", "[a]", "a?", "a*", "a+", "%empty", "<a>", "@a", "&a", "!a", "~a", "a.b", "a,b", "\\a", "/* x */", "-- x\n", "% x\n", "\"x\"i", "\"x\"..\"y\"", "..", "EOF", "\\u{41}", "0x41", "\u{feff}", "：", "x:", "{{}}", "${a}", "$a", "$(a)", "$IGNORE a;",
    "$START: a;", "$INCLUDE: a;", "$[SKIP:#]",
];
pub fn edit_chars(s: &mut Src, v: &mut Vec<char>, rounds: usize) {
    for _ in 0..rounds {
        let n = v.len();
        // places next to the characters that carry structure are tried more often
        let hot: Vec<usize> = (0..n).filter(|&i| ";|#\"->{}$[]:\\".contains(v[i])).collect();
        let at = if !hot.is_empty() && s.chance(70) { *s.pick(&hot) } else { s.below(n + 1) };
        match s.weighted(&[28, 28, 8, 8, 8, 8, 8, 3, 6, 8, 6]) {
            0 => {
                if at < n {
                    v.remove(at);
                }
            }
            1 => {
                let f: Vec<char> = s.pick(FRAGS).chars().collect();
                let at = if s.chance(50) { (at + 1).min(n) } else { at };
                v.splice(at..at, f);
            }
            2 => v.truncate(at),
            3 => {
                // drop a token-sized piece
                let e = (at + s.range(1, 5)).min(n);
                if at < e {
                    v.drain(at..e);
                }
            }
            4 => {
                if at < n {
                    let x = v[at];
                    v.insert(at, x);
                }
            }
            5 => {
                if at + 1 < n {
                    v.swap(at, at + 1);
                }
            }
            7 => {
                // something invisible at an end of the text
                let j = *s.pick(&['\0', '\u{feff}', '\u{1a}', '\u{200b}', '\u{fffd}', '\u{7f}', '\u{4}', '\u{ad}', '\u{e000}', '\u{2060}', '\\', '\n']);
                let k = 1 + s.below(2);
                for _ in 0..k {
                    if s.chance(70) {
                        v.push(j);
                    } else {
                        v.insert(0, j);
                    }
                }
            }
            8 => {
                if at < n {
                    v[at] = relative(s, v[at]);
                }
            }
            9 => {
                // a token by one that means the same elsewhere
                let toks: &[(&str, &[&str])] = &[
                    ("->", &["→", "⇒", "➔", "=>", "=", ":", ":=", "::=", "-->", "->>", "~>", "–>", "—>", "−>", "-＞", "-›", "=->", "-=>", "<-", "->=", "-", ">", "--", ">-", "ist", "->:"]),
                    ("|", &["/", "||", "¦", "∣", "｜", ",", "\\", "|=", "or", "+", "│", "!", "&"]),
                    (";", &["；", "\u{37e}", ",", ".", ":", "\n\n", ";;", "。", "؛", "⁏", "!"]),
                    ("\"", &["'", "“", "”", "„", "«", "»", "''", "`", "´", "＂", "\u{2033}", "\"\"", "\\\""]),
                    ("#", &["ε", "∅", "λ", "epsilon", "＃", "##", "\"\"", "()", "_", "empty", "♯", "%"]),
                    ("{", &["(", "[", "{{", "｛", "{%", "<%", "#{"]),
                    ("}", &[")", "]", "}}", "｝", "%}", "%>", "};"]),
                    ("$", &["@", "%", "＄", "$$", "€", "\\$", "!", "&"]),
                    ("[", &["(", "{", "[[", "［", "<"]),
                    ("]", &[")", "}", "]]", "］", ">"]),
                    (":", &["=", "::", "：", ";", ":=", "->", "∶", " "]),
                    ("IGNORE", &["ignore", "Ignore", "IGNORED", "IGNOR", "IGNORE_", "SKIP", "ＩGNORE", "IGNORΕ", "_IGNORE", "IGN0RE"]),
                ];
                let (from, to) = *s.pick(toks);
                let f: Vec<char> = from.chars().collect();
                let places: Vec<usize> = (0..n).filter(|&i| v[i..].starts_with(&f)).collect();
                if !places.is_empty() {
                    let at = *s.pick(&places);
                    let to: Vec<char> = s.pick(to).chars().collect();
                    v.splice(at..at + f.len(), to);
                }
            }
            10 => {
                let x = *s.pick(UNSEEN);
                v.insert(at.min(n), x);
            }
            _ => {
                if at < n {
                    let f: Vec<char> = s.pick(FRAGS).chars().collect();
                    v.splice(at..at + 1, f);
                }
            }
        }
    }
}
pub fn broken_text(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[62, 25, 8, 5]) {
        0 => {
            let o = GenOpts { max_rules: 5, long_terminals: false, ..GenOpts::default() };
            let g = raw_grammar(s, &o);
            let l = Layout::gen(s);
            let mut st = scatter(s, plain_stmts(&g));
            for x in st.iter_mut() {
                if s.chance(20) {
                    x.action = Some(action_text(s));
                }
                if s.chance(15) {
                    x.over = Some(if s.chance(50) { None } else { Some(s.below(g.n())) });
                }
            }
            let ig = if s.chance(25) { Some(s.below(g.n())) } else { None };
            let text = render(s, &l, &g.names, &st, ig);
            let mut v: Vec<char> = text.chars().collect();
            let rounds = s.weighted(&[15, 60, 15, 10]);
            edit_chars(s, &mut v, rounds);
            (v.into_iter().collect(), if rounds == 0 { "grammar text" } else { "edited grammar text" })
        }
        1 => {
            let mut t = String::new();
            // statements of random tokens
            for _ in 0..s.range(1, 4) {
                if s.chance(70) {
                    t.push_str(s.pick(&["a -> ", "b->", "start\n->\n"]));
                }
                for _ in 0..s.range(0, 6) {
                    t.push_str(s.pick(FRAGS));
                    if s.chance(60) {
                        t.push(' ');
                    }
                }
                if s.chance(70) {
                    t.push(';');
                }
            }
            (t, "random tokens")
        }
        2 => {
            let v: Vec<char> = (0..s.range(0, 30)).map(|_| *s.pick(&['a', ' ', '-', '>', '"', ';', '|', '#', '{', '}', '\\', '$', '[', ']', ':', '1', 'ä', '\n'])).collect();
            (v.into_iter().collect(), "random characters of the notation")
        }
        _ => {
            let v: Vec<char> = (0..s.range(0, 20)).map(|_| char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect();
            (v.into_iter().collect(), "random characters")
        }
    }
}
pub fn check_c09(text: &str, c: &mut Ctx) -> Res {
    let v = read(text);
    c.label(match &v {
        Verdict::Valid(_) => "in the notation",
        Verdict::Invalid(_) => "not in the notation",
        Verdict::Open(_) => "left open by the notation",
    });
    if let Verdict::Invalid(m) = &v {
        c.label(format!("not in the notation: {}", m.split(" at ").next().unwrap_or("").split(" '").next().unwrap_or("")));
    }
    let vm = NullVm::new();
    let got = read_text(text, &vm).map_err(|p| format!("reading the text {p}"))?.map(|pd| rules_of(&pd));
    match (&got, &v) {
        (Ok(g), Verdict::Valid(w)) => same_rules(g, w),
        (Err(e), Verdict::Valid(w)) => Err(format!("a correct text is refused with {e}; its rules are {w:?}")),
        (Ok(g), Verdict::Invalid(m)) => Err(format!("text that is not in the notation ({m}) is read as {g:?}")),
        (Err(_), _) => Ok(()),
        (Ok(g), Verdict::Open(Some(w))) => same_rules(g, w),
        (Ok(_), Verdict::Open(None)) => Ok(()),
    }
}
fn c09(s: &mut Src, c: &mut Ctx) -> Res {
    let (text, kind) = broken_text(s);
    c.describe(|| format!("{kind}: {}", clip(&text, 2000)));
    c.label(kind);
    check_c09(&text, c)?;
    if text.chars().count() > 3 && kind != "grammar text" {
        c.nontrivial(&text);
    }
    Ok(())
}
fn c09_pinned() -> Vec<Pinned> {
    let texts: &[&str] = &[
        "a", "a -", "a ->", "a -> ", "a -> ;", "a -> #", "a -> \"x\"", "a -> \"x", "a -> \"x\\\"", "a -> \"x;", "a -> \"x\" |;", "a -> | \"x\";", "a -> \"x\" | | \"y\";", "a -> # \"x\";", "a -> \"x\" #;", "a -> # #;", "a -> # b;", "a -> b #;", "a -> \"x\" {", "a -> \"x\" {;",
        "a -> \"x\" { ;", "a -> \"x\" {\\};", "a -> \"x\" {}", "a -> \"x\" {} {};", "a -> {} \"x\";", "a -> {};", "a -> \"x\" {} | \"y\";", "a -> \"x\" };", "a -> \"x\";;", ";", "a -> \"x\"; ;", "a \"x\";", "-> \"x\";", "a - \"x\";", "a > \"x\";", "a => \"x\";", "1a -> \"x\";", "_a -> \"x\";",
        "a -> 1;", "a -> _b;", "a -> 'x';", "a -> \"x\" 'y';", "a -> \"x\"y\";", "a -> \"x\"\";", "a -> b -> c;", "a -> \"x\"; b", "a -> \"x\"; b ->", "a -> $[IGNORE:#];", "a -> $[IGNORE:#] ;", "a -> $[IGNORE:# \"x\";", "a -> $[IGNORE:] \"x\";", "a -> $[IGNORE] \"x\";", "a -> $[:#] \"x\";",
        "a -> $[] \"x\";", "a -> $IGNORE:# \"x\";", "a -> [IGNORE:#] \"x\";", "a -> $[IGNORE:##] \"x\";", "a -> $[IGNORE:\"x\"] \"x\";", "a -> \"x\" $[IGNORE:#];", "a -> \"x\" | $[IGNORE:#] \"y\";", "a -> $[IGNORE:#] $[IGNORE:#] \"x\";", "$IGNORE", "$IGNORE:", "$IGNORE: a", "$IGNORE: ;", "$IGNORE a;",
        "$IGNORE: #;", "$: a;", "$", "$;", "$IGNOR: a; a -> \"x\";", "IGNORE: a; a -> \"x\";", "$IGNORE: \"a\"; a -> \"x\";", "a -> \"x\", b;", "a -> (b);", "a -> b*;", "a -> b ; c;", "\"a\" -> b;", "# -> b;", "a -> b c d | # e;", "a\u{200b}-> b;", "a -> b\u{200b};", "\u{feff}a -> b;", "a -> b;\0",
        "a:b -> c;", "a -> b:c;", "a ->> b;", "a --> b;", "a -> > b;", "a -> - b;", "a -> b|;", "a -> #|;", "a -> #;#", "a -> \"\\\";", "a -> \"\\\\\\\";", "|", "{}", "#", "\"\"", "->", "a -> #{};", "a->#{}", "a -> \"x\" {a} b;", "a -> \"x\" ; }", "a -> \"x\"] ;",
    ];
    vec![pin("one missing or extra token", move |c| {
        for t in texts {
            check_c09(t, c).map_err(|e| format!("{t:?}: {e}"))?;
        }
        Ok(())
    })]
}

// ------------------------------------------------------------------ C10

pub fn ignore_case(s: &mut Src) -> (Grammar, Vec<Option<Option<usize>>>, Option<usize>) {
    let mut g = match s.weighted(&[45, 30, 25]) {
        0 => {
            let o = GenOpts { max_rules: 8, long_terminals: false, ..GenOpts::default() };
            ll1_grammar(s, &o)
        }
        1 => {
            let o = opts(s);
            raw_grammar(s, &o)
        }
        _ => chain_grammar(s),
    };
    // rules to be ignored
    let mut igs = vec![];
    if s.chance(85) {
        let base = g.n();
        for nm in ["ws", "blank", "skip", "blanks", "skip_"] {
            if !g.names.contains(&nm.to_string()) {
                g.names.push(nm.to_string());
                g.rules.push(vec![]);
                if g.n() == base + 3 {
                    break;
                }
            }
        }
        let t = |x: &str| Sym::T(x.into());
        let k = s.below(6);
        g.rules[base] = match k {
            0 => vec![vec![t("~")]],
            1 => vec![vec![t("~"), Sym::N(base)], vec![]],
            2 => vec![vec![Sym::N(base + 1), Sym::N(base + 2)]],
            3 => vec![vec![Sym::N(base + 1)], vec![]],
            4 => vec![vec![t("~"), t("^")], vec![t("^")]],
            _ => vec![vec![t("~"), Sym::N(base + 1), Sym::N(base + 2)], vec![]],
        };
        g.rules[base + 1] = vec![vec![t("~"), Sym::T("^".into())]];
        g.rules[base + 2] = match s.below(3) {
            0 => vec![vec![Sym::N(base + 1), Sym::N(base + 2)], vec![]],
            1 => vec![vec![t("!"), t("?")]],
            _ => vec![vec![]],
        };
        igs.push(base);
        igs.push(base + 1);
        if s.chance(15) {
            // an ignore production that reaches rules of the grammar
            let j = s.below(base);
            g.rules[base + 2].push(vec![t("@"), Sym::N(j)]);
        }
    }
    if igs.is_empty() || s.chance(20) {
        igs.push(s.below(g.n()));
    }
    let file = if s.chance(75) { Some(*s.pick(&igs)) } else { None };
    let over = (0..g.n())
        .map(|_| match s.weighted(&[60, 20, 20]) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(*s.pick(&igs))),
        })
        .collect();
    (g, over, file)
}
fn c10(s: &mut Src, c: &mut Ctx) -> Res {
    let (g, over, file) = ignore_case(s);
    let l = Layout::gen(s);
    let mut st = plain_stmts(&g);
    for x in st.iter_mut() {
        x.over = over[x.rule];
    }
    let mode = s.below(3);
    if mode == 1 {
        s.shuffle(&mut st);
    } else if mode == 2 {
        st = scatter(s, st);
    }
    let text = render(s, &l, &g.names, &st, file);
    c.describe(|| clip(&text, 3000));
    let eff: Vec<Option<usize>> = over.iter().map(|o| o.unwrap_or(file)).collect();
    let woven = weave(&g, &eff);
    same_rules(&read_ok(&text)?, &c_rules(&woven))?;
    c.label_if(file.is_some(), "file-wide setting");
    c.label_if(over.iter().any(|o| matches!(o, Some(None))), "switched off for a rule");
    c.label_if(over.iter().any(|o| matches!(o, Some(Some(_)))), "set for a rule");
    let changed = (0..g.n()).filter(|&i| woven.rules[i] != g.rules[i]).count();
    let kept = (0..g.n()).filter(|&i| eff[i].is_some() && woven.rules[i] == g.rules[i] && g.rules[i].iter().any(|a| a.len() > 1)).count();
    c.label_if(kept > 0, "a rule stays as written because it is reached from its ignore production");
    c.label_if(changed > 0, "a rule is changed");
    // the language, where the result is an LL(1) grammar
    let vm = NullVm::new();
    let p = parser_text(&text, &vm);
    if woven.left_recursion().is_none() && woven.conflict(&woven.sets()).is_none() {
        c.label("result is LL(1)");
        let p = p.map_err(|e| format!("the woven grammar is LL(1) but refused: {e}"))?;
        if woven.productive().iter().all(|x| *x) {
            let t = LlTable::new(&woven);
            let xs: Vec<String> = (0..s.range(1, 4)).map(|_| clip(&gen_script(s, &woven, 30).0, 500)).collect();
            let mut p = p;
            for x in &xs {
                let run = run_ll(&woven, &t, woven.start, x);
                let mut stt = 0;
                let got = parse_with(&mut p, x, &mut stt);
                let want = run.err.is_none();
                match got {
                    Outcome::Tree(f) if want && f == flat_of(&run.dtree) => {}
                    ref o if !want && o.refused() => {}
                    o => return Err(format!("script {x:?}: the parser says {}, the grammar with the production written out {}", o.short(), if want { "accepts" } else { "refuses" })),
                }
                c.label_if(want && x.contains(['~', '^']), "accepted a script with ignored text");
            }
        }
    } else if p.is_ok() {
        return Err("the woven grammar is not LL(1), but a parser was made".into());
    }
    if changed > 0 {
        c.nontrivial(&text);
    }
    Ok(())
}
fn c10_pinned() -> Vec<Pinned> {
    let g = |r: &'static [(&'static str, &'static [&'static [&'static str]])]| c_rules(&gram_of(r));
    vec![
        pin("file-wide", move |_| {
            same_rules(
                &read_ok("$IGNORE: ws; start -> \"a\" \"b\" start | \"c\" | #; ws -> blank ws_s; ws_s -> blank ws | #; blank -> \" \" \"-\";")?,
                &g(&[("start", &[&["\"a\"", "ws", "\"b\"", "ws", "start"], &["\"c\""], &[]]), ("ws", &[&["blank", "ws_s"]]), ("ws_s", &[&["blank", "ws"], &[]]), ("blank", &[&["\" \"", "\"-\""]])]),
            )
        }),
        pin("override wins, others keep the file-wide setting", move |_| {
            same_rules(
                &read_ok("$IGNORE:ws;start -> x y z; x -> $[IGNORE:#] \"a\" \"b\"; y -> $[IGNORE:other] \"a\" \"b\"; z -> \"a\" \"b\"; ws -> \" \"; other -> \".\" ws;")?,
                &g(&[
                    ("start", &[&["x", "ws", "y", "ws", "z"]]),
                    ("x", &[&["\"a\"", "\"b\""]]),
                    ("y", &[&["\"a\"", "other", "\"b\""]]),
                    ("z", &[&["\"a\"", "ws", "\"b\""]]),
                    ("ws", &[&["\" \""]]),
                    ("other", &[&["\".\"", "ws", "ws"]]),
                ]),
            )
        }),
        pin("override without a file-wide setting", move |_| {
            same_rules(
                &read_ok("start -> $[IGNORE:ws] \"a\" \"b\" | \"c\" \"d\" \"e\"; r -> \"a\" \"b\"; ws -> \" \" \" \";")?,
                &g(&[("start", &[&["\"a\"", "ws", "\"b\""], &["\"c\"", "ws", "\"d\"", "ws", "\"e\""]]), ("r", &[&["\"a\"", "\"b\""]]), ("ws", &[&["\" \"", "\" \""]])]),
            )
        }),
    ]
}

// ------------------------------------------------------------------ C11

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { max_rules: 6, long_terminals: false, ..GenOpts::default() };
    let g = raw_grammar(s, &o);
    let l = Layout::gen(s);
    let mut st = scatter(s, plain_stmts(&g));
    let dense = s.chance(50);
    for x in st.iter_mut() {
        if s.chance(if dense { 80 } else { 35 }) {
            x.action = Some(action_text(s));
        }
    }
    let text = render(s, &l, &g.names, &st, None);
    let acts: Vec<(String, String)> = st.iter().filter_map(|x| x.action.clone().map(|a| (g.names[x.rule].clone(), a))).collect();
    // reading styles; one call may refuse or leave text
    let mut plans: VecDeque<CallPlan> = acts
        .iter()
        .map(|_| CallPlan {
            ops: if s.chance(30) { vec![] } else { (0..s.range(1, 7)).map(|_| s.below(256) as u8).collect() },
            n_instr: s.below(4),
            leave_after: None,
            fail: false,
        })
        .collect();
    let mut bad = None;
    if !acts.is_empty() && s.chance(35) {
        let k = s.below(acts.len());
        if s.chance(40) {
            plans[k].fail = true;
            if s.chance(50) {
                plans[k].leave_after = Some(s.below(acts[k].1.chars().count() + 1));
            }
            bad = Some((k, "the machine refuses a text"));
        } else {
            let t = acts[k].1.trim_start();
            if !t.is_empty() {
                plans[k].leave_after = Some(s.below(t.chars().count()));
                bad = Some((k, "the machine leaves text unread"));
            }
        }
    }
    c.describe(|| format!("{}\ntexts: {:?}\n{}", clip(&text, 2500), acts, bad.map(|(k, m)| format!("call {k}: {m}")).unwrap_or_default()));
    let vm = TraceVm { plans: plans.clone().into(), ..Default::default() };
    let got = read_text(&text, &vm).map_err(|p| format!("reading the text {p}"))?;
    let calls = vm.calls.borrow();
    let due = bad.map(|(k, _)| k + 1).unwrap_or(acts.len());
    let full: Vec<char> = text.chars().collect();
    for (k, call) in calls.iter().enumerate() {
        let Some((nm, t)) = acts.get(k) else { return Err(format!("a call for {} that is not due", call.prod)) };
        if call.prod != *nm {
            return Err(format!("call {k} names the rule {} instead of {nm}", call.prod));
        }
        let part = plans[k].leave_after.is_some();
        let drop = t.trim_start();
        // some of the leading white space may be missing
        let ok = t.char_indices().map(|(i, _)| i).chain([t.len()]).filter(|i| t.len() - i >= drop.len()).any(|i| if part { t[i..].starts_with(&call.text) } else { t[i..] == call.text });
        if !ok {
            return Err(format!("call {k} gets the text {:?} instead of {t:?}", call.text));
        }
        if let Some(o) = &call.oddity {
            return Err(format!("call {k}: {o}"));
        }
        let n = call.text.chars().count();
        if call.to - call.from != n || full.get(call.from..call.to).map(|x| x.iter().collect::<String>()) != Some(call.text.clone()) {
            return Err(format!("call {k}: positions {}..{} do not match the text read", call.from, call.to));
        }
    }
    if calls.len() < due {
        return Err(format!("{} of {due} calls were made", calls.len()));
    }
    match (&got, bad) {
        (Ok(pd), None) => {
            same_rules(&rules_of(pd), &c_rules(&g))?;
            // instructions belong to the rule
            for (ix, r) in pd.parse_rules.rules.iter() {
                let name = elem(pd, *ix).1;
                if let Some(x) = st.iter().find(|x| g.names[x.rule] == name) {
                    let n = match x.action {
                        None => 0,
                        Some(_) => {
                            let first = st.iter().filter(|y| y.action.is_some()).position(|y| std::ptr::eq(x, y)).unwrap();
                            plans[first].n_instr
                        }
                    };
                    let once = st.iter().filter(|y| y.rule == x.rule && y.action.is_some()).count() <= 1 && (x.action.is_some() || n == 0 && !st.iter().any(|y| y.rule == x.rule && y.action.is_some()));
                    let want: Vec<TInstr> = (0..n).map(|k| TInstr { rule: name.clone(), k }).collect();
                    if once && r.instruction != want {
                        return Err(format!("rule {name} carries {:?} instead of {want:?}", r.instruction));
                    }
                }
            }
            // machines that do not look at the text read it all
            for t in [read_text(&text, &NullVm::new()).map(|r| r.map(|p| rules_of(&p))), read_text(&text, &CountingVm {}).map(|r| r.map(|p| rules_of(&p)))] {
                match t {
                    Ok(Ok(r)) => same_rules(&r, &c_rules(&g))?,
                    o => return Err(format!("another machine: {o:?}")),
                }
            }
        }
        (Err(e), None) => return Err(format!("the grammar is refused with {e}")),
        (Ok(_), Some((k, m))) => return Err(format!("call {k}: {m}, but the grammar is accepted")),
        (Err(_), Some((_, m))) => {
            if calls.len() != due {
                return Err(format!("{} calls after {m}", calls.len()));
            }
        }
    }
    c.label(bad.map(|b| b.1).unwrap_or("all texts are read"));
    c.label_if(acts.iter().any(|a| a.1.contains("\\}")), "escaped brace");
    c.label_if(acts.iter().any(|a| a.1.contains("\\\\}")), "escaped backslash before a brace");
    c.label_if(acts.iter().any(|a| a.1.is_empty()), "empty text");
    c.label_if(acts.len() > 3, "more than three actions");
    if acts.iter().any(|a| a.1.chars().count() > 2) {
        c.nontrivial(&(&text, format!("{plans:?}")));
    }
    Ok(())
}
fn c11_pinned() -> Vec<Pinned> {
    let mut v = vec![];
    for style in 0u8..9 {
        v.push(pin(&format!("reading style {style}"), move |_| {
            let text = "start->\"a\"{ x\\}y\\\\}z }; b->#{};c->\"x\"{\\}}; d -> \"y\" { {{\";\" -> \\\\\\}\t};";
            let vm = TraceVm {
                plans: (0..4).map(|_| CallPlan { ops: vec![style, style + 9, style + 18], n_instr: 1, leave_after: None, fail: false }).collect::<VecDeque<_>>().into(),
                ..Default::default()
            };
            read_text(text, &vm)?.map_err(|e| format!("refused: {e}"))?;
            let calls = vm.calls.borrow();
            let got: Vec<(&str, &str)> = calls.iter().map(|x| (x.prod.as_str(), x.text.trim_start())).collect();
            let want = vec![("start", "x\\}y\\\\}z "), ("b", ""), ("c", "\\}"), ("d", "{{\";\" -> \\\\\\}\t")];
            if got != want {
                return Err(format!("the machine got {got:?}"));
            }
            match calls.iter().find_map(|x| x.oddity.clone()) {
                Some(o) => Err(o),
                None => Ok(()),
            }
        }));
    }
    v.push(pin("text left behind an escape character", |_| {
        // the brace that is left belongs to the text
        let text = "start -> \"a\" { x\\}; b -> \"y\" { } ;";
        let vm = TraceVm { plans: VecDeque::from([CallPlan { ops: vec![], n_instr: 0, leave_after: Some(2), fail: false }]).into(), ..Default::default() };
        let mut pw = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pw, &vm);
        match guard(|| rp.parse_rules().is_ok()) {
            Ok(false) => Ok(()),
            Ok(true) => Err("the machine leaves text unread, but the grammar is accepted".into()),
            Err(p) => Err(p),
        }
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "A case is a set of rules (conflicts, left recursion, undefined and repeated symbols included) written in a random layout: white space of all kinds or none, shuffled or split statements, action texts between; the rules read are compared one by one. Non-trivial: more than one alternative and a layout other than the plain one.",
            max: 900, quick: 1_400_000, thorough: 30_000_000, case: c08, pinned: c08_pinned, known: no_known, cpu: 20,
        },
        Prop {
            id: "C09",
            rule: "A case is a text: a grammar text with 0-3 edits (character or token removed, inserted, doubled, swapped, truncated), random tokens, or random characters; verdict and rules are compared with an independent reader. Non-trivial: more than three characters and not just a plain grammar text.",
            max: 700, quick: 4_000_000, thorough: 80_000_000, case: c09, pinned: c09_pinned, known: no_known, cpu: 20,
        },
        Prop {
            id: "C10",
            rule: "A case is a grammar with ignore productions of several shapes, a file-wide setting and overrides; the rules read are compared with the rules with the production written out, and if these are LL(1), the parser is run on 1-4 scripts. Non-trivial: the settings change some rule.",
            max: 900, quick: 600_000, thorough: 20_000_000, case: c10, pinned: c10_pinned, known: no_known, cpu: 20,
        },
        Prop {
            id: "C11",
            rule: "A case is a grammar text with action texts over braces, backslashes, white space and arbitrary characters, read by a recording machine in a random style (reading, looking ahead, conditional reads, nested views); one call may refuse or leave text unread. Non-trivial: an action text of more than two characters.",
            max: 900, quick: 1_400_000, thorough: 40_000_000, case: c11, pinned: c11_pinned, known: no_known, cpu: 20,
        },
    ]
}

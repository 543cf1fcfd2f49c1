//! C25, C26: errors name what is wrong and where.
use super::gram::{chain_grammar, mutate_grammar, opts};
use super::machines::gen_code;
use super::notation::{action_text, broken_text, edit_chars, ignore_case};
use crate::choices::Src;
use crate::grammar::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::tree::{NodeId, Tree, TreeError};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::BTreeSet;

// ------------------------------------------------------------------ C25

/// where a text leaves the notation
#[derive(Clone, Debug, PartialEq)]
pub enum Leaves {
    /// it does not
    Never,
    /// every text of the notation that begins like this is longer
    Short,
    /// at this character no text of the notation goes on
    At(usize),
    /// a directive of this name, which begins here, does not exist
    Name(usize, String),
    /// the notation does not say
    Open,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Top0,
    Top,
    Dir,
    DirName,
    DirColon,
    DirVal,
    DirSemi,
    Name,
    NameWs,
    Arrow,
    P0,
    Ov,
    OvName,
    OvVal,
    OvRule,
    OvEnd,
    P,
    Hash,
    ElName,
    Elems,
    Term,
    TermEsc,
    Act,
    ActEsc,
    Code,
    CodeName,
    CodeWs,
    CodeNum,
    CodeSemi,
    ActEnd,
}
const NO_OPERAND: &[&str] = &["Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"];
const OPERAND: &[&str] = &["RegAddConst", "PushConst", "Pow"];

/// `code`: actions hold stack machine instructions, otherwise any text
pub fn leaves(text: &[char], code: bool) -> Leaves {
    use St::*;
    let mut st = Top0;
    // the name or number that is being read
    let mut from = 0;
    let word = |from: usize, to: usize| -> String { text[from..to].iter().collect() };
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        let ws = c.is_whitespace();
        let al = c.is_alphabetic();
        let more = c.is_alphanumeric() || c == '_';
        macro_rules! go {
            ($s:expr) => {{
                st = $s;
                i += 1;
                continue;
            }};
        }
        // what stands after a complete alternative
        let after = |st: &mut St| -> bool {
            *st = match c {
                '|' => P,
                '{' => {
                    if code {
                        Code
                    } else {
                        Act
                    }
                }
                ';' => Top,
                _ => return false,
            };
            true
        };
        match st {
            Top0 | Top => {
                if ws {
                    go!(st)
                }
                if al {
                    from = i;
                    go!(Name)
                }
                if c == '$' {
                    if st == Top0 {
                        go!(Dir)
                    }
                    return Leaves::Open;
                }
            }
            Dir => {
                if al {
                    from = i;
                    go!(DirName)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            DirName => {
                if more {
                    go!(DirName)
                }
                let w = word(from, i);
                if w != "IGNORE" {
                    return Leaves::Name(from, w);
                }
                st = DirColon;
                continue;
            }
            DirColon => {
                if c == ':' {
                    go!(DirVal)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            DirVal => {
                if ws {
                    go!(DirVal)
                }
                if al {
                    from = i;
                    go!(DirSemi)
                }
            }
            DirSemi => {
                // the name, then white space
                if more && !text[from..i].iter().any(|c| c.is_whitespace()) || ws {
                    go!(DirSemi)
                }
                if c == ';' {
                    go!(Top)
                }
            }
            Name => {
                if more {
                    go!(Name)
                }
                st = NameWs;
                continue;
            }
            NameWs => {
                if ws {
                    go!(NameWs)
                }
                if c == '-' {
                    go!(Arrow)
                }
            }
            Arrow => {
                if c == '>' {
                    go!(P0)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            P0 | P => {
                if ws {
                    go!(st)
                }
                if c == '$' && st == P0 {
                    go!(Ov)
                }
                if c == '#' {
                    go!(Hash)
                }
                if c == '"' {
                    go!(Term)
                }
                if al {
                    go!(ElName)
                }
            }
            Ov => {
                if c == '[' {
                    from = i + 1;
                    go!(OvName)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            OvName => {
                if if i == from { al } else { more } {
                    go!(OvName)
                }
                if ws {
                    return Leaves::Open;
                }
                if i > from {
                    if word(from, i) != "IGNORE" {
                        return Leaves::Open;
                    }
                    if c == ':' {
                        go!(OvVal)
                    }
                }
            }
            OvVal => {
                if c == '#' {
                    go!(OvEnd)
                }
                if al {
                    go!(OvRule)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            OvRule | OvEnd => {
                if more && st == OvRule {
                    go!(OvRule)
                }
                if c == ']' {
                    go!(P)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            Hash => {
                if ws {
                    go!(Hash)
                }
                if after(&mut st) {
                    i += 1;
                    continue;
                }
            }
            ElName => {
                if more {
                    go!(ElName)
                }
                st = Elems;
                continue;
            }
            Elems => {
                if ws {
                    go!(Elems)
                }
                if al {
                    go!(ElName)
                }
                if c == '"' {
                    go!(Term)
                }
                if after(&mut st) {
                    i += 1;
                    continue;
                }
            }
            Term => match c {
                '"' => go!(Elems),
                '\\' => go!(TermEsc),
                _ => go!(Term),
            },
            TermEsc => go!(Term),
            Act | ActEsc => match c {
                '}' if st == Act => go!(ActEnd),
                '\\' => go!(ActEsc),
                _ => go!(Act),
            },
            Code => {
                if ws {
                    go!(Code)
                }
                if c == '}' {
                    go!(ActEnd)
                }
                if al {
                    from = i;
                    go!(CodeName)
                }
            }
            CodeName => {
                if more {
                    go!(CodeName)
                }
                let w = word(from, i);
                if OPERAND.contains(&w.as_str()) {
                    st = CodeWs;
                    continue;
                }
                if !NO_OPERAND.contains(&w.as_str()) {
                    return Leaves::Open;
                }
                st = CodeSemi;
                continue;
            }
            CodeWs => {
                if ws {
                    go!(CodeWs)
                }
                if c.is_ascii_digit() {
                    from = i;
                    go!(CodeNum)
                }
            }
            CodeNum => {
                if c.is_ascii_digit() {
                    go!(CodeNum)
                }
                if i - from > 18 {
                    // perhaps too large: no place is named for that
                    return Leaves::Open;
                }
                st = CodeSemi;
                continue;
            }
            CodeSemi => {
                if c == ';' {
                    go!(Code)
                }
                if ws {
                    return Leaves::Open;
                }
            }
            ActEnd => {
                if ws {
                    go!(ActEnd)
                }
                if c == ';' {
                    go!(Top)
                }
            }
        }
        return Leaves::At(i);
    }
    match st {
        Top0 | Top => Leaves::Never,
        DirName if !"IGNORE".starts_with(&word(from, text.len())) => Leaves::Name(from, word(from, text.len())),
        CodeName => {
            let w = word(from, text.len());
            if OPERAND.iter().chain(NO_OPERAND).any(|x| x.starts_with(&w)) {
                Leaves::Short
            } else {
                Leaves::Open
            }
        }
        OvName if !"IGNORE".starts_with(&word(from, text.len())) => Leaves::Open,
        CodeNum if text.len() - from > 18 => Leaves::Open,
        _ => Leaves::Short,
    }
}

/// the message shows the numbers that the error carries
fn shown(e: &ParserError) -> Res {
    let m = e.to_string();
    let (what, ok) = match e {
        ParserError::UnexpectedCharError { chr, pos, expected } => ("character, position and what was expected", m.contains(*chr) && has_number(&m, *pos) && m.contains(expected.as_str())),
        ParserError::EndOfCharsError { pos } => ("position", has_number(&m, *pos)),
        ParserError::UnknownSpecialOperation { operation, pos } => ("name and position", m.contains(operation.as_str()) && has_number(&m, *pos)),
        ParserError::GramError { err } => return shown_gram(err),
        ParserError::TreeError { err } => return shown_tree(err),
        _ => return Ok(()),
    };
    if !ok {
        return Err(format!("the message {m:?} of {e:?} does not show its {what}"));
    }
    Ok(())
}
fn shown_gram(e: &GrammarError) -> Res {
    use GrammarError::*;
    let m = e.to_string();
    let n = match e {
        MissingFollowSet { index } | MissingElementForIndex { index } | MissingFirstSet { index } | MissingSteuerSet { index } | MissingProduction { index } | LeftRecursion { index } => *index,
        UnexpectedElementError { pos, .. } => *pos,
        _ => return Ok(()),
    };
    if !has_number(&m, n) {
        return Err(format!("the message {m:?} of {e:?} does not show {n}"));
    }
    Ok(())
}
fn shown_tree(e: &TreeError) -> Res {
    let m = e.to_string();
    let ok = match e {
        TreeError::NodeDoesNotExist { node_id } | TreeError::NodeWasRemoved { node_id } => has_number(&m, node_id.node_ptr) && has_number(&m, node_id.node_pk),
        TreeError::ChildDoesNotExists { child_nth } => has_number(&m, *child_nth),
    };
    if !ok {
        return Err(format!("the message {m:?} of {e:?} does not show what it is about"));
    }
    Ok(())
}
fn has_number(m: &str, n: usize) -> bool {
    m.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string())
}

fn read_error<T: VM>(text: &str, vm: &T) -> Result<Option<ParserError>, String> {
    guard(|| {
        let mut pw = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pw, vm);
        rp.parse_rules().err()
    })
}
const VMS: &[&str] = &["no machine", "counting machine", "simple stack machine", "stack machine"];
fn check_c25(text: &str, vm: usize, c: &mut Ctx) -> Res {
    let code = vm == 3;
    let chars: Vec<char> = text.chars().collect();
    let len = chars.len();
    let want = leaves(&chars, code);
    let got = match vm {
        0 => read_error(text, &NullVm::new()),
        1 => read_error(text, &CountingVm {}),
        2 => read_error(text, &SimpleStackVm {}),
        _ => read_error(text, &StackVm {}),
    }
    .map_err(|p| format!("reading the text {p}"))?;
    use GrammarError::UnexpectedElementError;
    use ParserError::*;
    if let Some(e) = &got {
        shown(e)?;
        match e {
            UnexpectedCharError { chr, pos, .. } if chars.get(*pos) != Some(chr) => return Err(format!("{e:?} is reported, but {:?} is at {pos}", chars.get(*pos))),
            EndOfCharsError { pos } | GramError { err: UnexpectedElementError { pos, .. } } | UnknownSpecialOperation { pos, .. } if *pos > len => {
                return Err(format!("{e:?} is reported for a text of length {len}"));
            }
            _ => {}
        }
    }
    let place = match &want {
        Leaves::Open => {
            c.label("left open by the notation");
            return Ok(());
        }
        Leaves::Never => {
            c.label("does not leave the notation");
            // a rule that is ignored may be missing, but no place in the text is wrong
            return match &got {
                Some(UnexpectedCharError { .. } | EndOfCharsError { .. } | UnknownSpecialOperation { .. } | GramError { err: UnexpectedElementError { .. } }) => {
                    Err(format!("the text is in the notation, but {got:?} is reported"))
                }
                _ => Ok(()),
            };
        }
        Leaves::Short => {
            c.label("stops too early");
            format!("the text stops too early (length {len})")
        }
        Leaves::At(p) => {
            c.label(format!(
                "leaves the notation at {}",
                match chars[*p] {
                    x if x.is_whitespace() => "white space".to_string(),
                    x if x.is_alphanumeric() => "a letter or digit".to_string(),
                    x if ";|#\"->{}$[]:\\".contains(x) => format!("{x}"),
                    _ => "another character".into(),
                }
            ));
            format!("the text leaves the notation at {:?} at {p}", chars[*p])
        }
        Leaves::Name(p, n) => {
            c.label("unknown directive");
            format!("the directive {n:?} at {p} does not exist")
        }
    };
    let Some(e) = got else {
        return Err(format!("{place}, but it is read without an error"));
    };
    let ok = match (&want, &e) {
        (Leaves::Short, EndOfCharsError { pos }) => *pos == len,
        (Leaves::Short, GramError { err: UnexpectedElementError { pos, .. } }) => *pos == len,
        (Leaves::Short, UnknownSpecialOperation { operation, pos }) => chars.get(*pos..).is_some_and(|x| x.iter().collect::<String>() == *operation),
        (Leaves::At(p), UnexpectedCharError { chr, pos, .. }) => pos == p && *chr == chars[*p],
        // a misplaced empty marker is reported after it was read
        (Leaves::At(p), GramError { err: UnexpectedElementError { pos, .. } }) => pos == p || chars[*p] == '#' && *pos == p + 1,
        // for the machine its code ends there
        (Leaves::At(p), EndOfCharsError { pos }) => code && chars[*p] == '}' && pos == p,
        (Leaves::Name(p, n), UnknownSpecialOperation { operation, pos }) => pos == p && operation == n,
        _ => false,
    };
    if !ok {
        return Err(format!("{place}, but {e:?} is reported"));
    }
    // what is said to be expected is accepted there
    if let UnexpectedCharError { pos, expected, .. } = &e {
        let mut it = expected.chars();
        let x = match (it.next(), it.next()) {
            (Some(x), None) => Some(x),
            _ if expected.starts_with("alphabetic") => Some('I'),
            _ if expected.starts_with("digit") => Some('1'),
            _ => None,
        };
        if let Some(x) = x {
            let mut t: Vec<char> = chars[..*pos].to_vec();
            t.push(x);
            if matches!(leaves(&t, code), Leaves::At(_)) {
                return Err(format!("{place}; {e:?} says that {expected:?} was expected there, but it would not be accepted"));
            }
            c.label("what was expected is accepted there");
        }
    }
    Ok(())
}

fn c25_text(s: &mut Src, vm: usize) -> String {
    if s.chance(30) {
        return broken_text(s).0;
    }
    let (g, over, file) = ignore_case(s);
    let l = Layout::gen(s);
    let mut st = plain_stmts(&g);
    for x in st.iter_mut() {
        x.over = over[x.rule];
    }
    let mut st = if s.chance(60) { st } else { scatter(s, st) };
    for x in st.iter_mut() {
        if s.chance(35) {
            x.action = Some(if vm == 3 { gen_code(s).0 } else { action_text(s) });
        }
    }
    let text = render(s, &l, &g.names, &st, file);
    let mut v: Vec<char> = text.chars().collect();
    if v.is_empty() {
        return text;
    }
    match s.weighted(&[30, 25, 25, 15, 5]) {
        0 => {
            let k = 1 + s.below(2);
            edit_chars(s, &mut v, k);
        }
        1 => v.truncate(s.below(v.len() + 1)),
        2 => {
            // one character is another one
            let at = s.below(v.len());
            v[at] = *s.pick(&['#', ';', '"', '-', '>', '|', '{', '}', '$', '[', ']', ':', '_', '1', '.', 'é', '日', '😀', '\0', '\u{301}', '²', 'x', ' ', '\\', '=', '\u{feff}']);
        }
        3 => {
            let at = s.below(v.len() + 1);
            v.insert(at, *s.pick(&['#', ';', '"', '-', '>', '|', '{', '}', '$', '[', ']', ':', '_', '1', '.', 'é', '日', '😀', '\0', '\u{301}', '²', 'x', ' ', '\\', '=', '\u{feff}']));
        }
        _ => {
            let at = s.below(v.len());
            v.remove(at);
        }
    }
    v.into_iter().collect()
}
fn c25(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(4) {
        // one piece of a text, by the function for it
        c.label("one piece alone");
        let al = alphabet(s);
        let o = opts(s);
        return super::pieces::wrong_piece(s, c, &al, &o);
    }
    let vm = s.weighted(&[45, 8, 7, 40]);
    let mut text = c25_text(s, vm);
    if s.chance(6) && !text.trim_start().starts_with('$') {
        // far from the beginning
        let n = s.size(if c.thorough { 1 << 18 } else { 70_000 });
        let x = s.pick(&["x", "é", "日", "😀"]).repeat(n);
        text = match s.below(3) {
            0 => format!("pad -> \"{x}\";{text}"),
            1 => format!("{}{text}", s.pick(WS).repeat(n)),
            _ => format!("pad -> # {{{x}}};{text}"),
        };
        if vm == 3 {
            text = text.replacen("# {", "\"", 1).replacen("};", "\";", 1);
        }
        c.label("far from the beginning");
    }
    c.describe(|| format!("{}: {}", VMS[vm], clip(&text, 2500)));
    c.label(VMS[vm]);
    check_c25(&text, vm, c)?;
    if matches!(leaves(&text.chars().collect::<Vec<_>>(), vm == 3), Leaves::Short | Leaves::Name(..) | Leaves::At(1..)) {
        c.nontrivial(&(vm, &text));
    }
    Ok(())
}
fn c25_pinned() -> Vec<Pinned> {
    let v: Vec<(&str, usize, Leaves)> = vec![
        ("a", 0, Leaves::Short),
        ("a b", 0, Leaves::At(2)),
        ("a -", 0, Leaves::Short),
        ("a ->", 0, Leaves::Short),
        ("a -> ;", 0, Leaves::At(5)),
        ("a -> b | ;", 0, Leaves::At(9)),
        ("a -> b #;", 0, Leaves::At(7)),
        ("a -> # b;", 0, Leaves::At(7)),
        ("a -> \"日本\" 語 ) ;", 0, Leaves::At(12)),
        ("a -> \"x", 0, Leaves::Short),
        ("a -> b {x}} ;", 0, Leaves::At(10)),
        ("a -> b {x\\}", 0, Leaves::Short),
        ("\u{3000}é -> b;;", 0, Leaves::At(8)),
        ("$IGNORF: a;", 0, Leaves::Name(1, "IGNORF".into())),
        ("\n $ignore", 0, Leaves::Name(3, "ignore".into())),
        ("$IGNORE: #;", 0, Leaves::At(9)),
        ("$IGNORE: a b;", 0, Leaves::At(11)),
        ("a -> $[IGNORE] b;", 0, Leaves::At(13)),
        ("a -> $[IGNORE:b;", 0, Leaves::At(15)),
        ("a -> $b;", 0, Leaves::At(6)),
        ("a -> b {Add; PushConst x;};", 3, Leaves::At(23)),
        ("a -> b {Add};", 3, Leaves::At(11)),
        ("é -> 日 {\u{2003}PushConst \n 17 ; };", 3, Leaves::Open),
        ("é -> 日 {\u{2003}PushConst \n 17, };", 3, Leaves::At(23)),
        ("a -> b {Pow -1;};", 3, Leaves::At(12)),
        ("a -> b {Add; ;};", 3, Leaves::At(13)),
    ];
    vec![pin("places", move |c| {
        for (t, vm, w) in &v {
            let chars: Vec<char> = t.chars().collect();
            if leaves(&chars, *vm == 3) != *w {
                return Err(format!("HARNESS: {t:?}: {:?} instead of {w:?}", leaves(&chars, *vm == 3)));
            }
            check_c25(t, *vm, c).map_err(|e| format!("{t:?}: {e}"))?;
        }
        Ok(())
    })]
}

// ------------------------------------------------------------------ C26

/// rules that can begin with themselves
fn left_recursive(g: &Grammar) -> Vec<bool> {
    let nl = g.nullable();
    let n = g.n();
    let mut r = vec![vec![false; n]; n];
    for i in 0..n {
        for a in &g.rules[i] {
            for x in a {
                match x {
                    Sym::T(t) if t.is_empty() => {}
                    Sym::T(_) => break,
                    Sym::N(j) => {
                        r[i][*j] = true;
                        if !nl[*j] {
                            break;
                        }
                    }
                }
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    r[i][j] |= r[k][j];
                }
            }
        }
    }
    (0..n).map(|i| r[i][i]).collect()
}
/// (rule, lookahead) pairs for which two alternatives apply
fn conflicts(g: &Grammar) -> BTreeSet<(usize, Look)> {
    let st = g.sets();
    let mut out = BTreeSet::new();
    for i in 0..g.n() {
        let mut seen = BTreeSet::new();
        for a in &g.rules[i] {
            for l in g.predict(&st, i, a) {
                if !seen.insert(l) {
                    out.insert((i, l));
                }
            }
        }
    }
    out
}
fn analysis_error(pd: ParserData<NullVm>, start: usize) -> Result<Option<GrammarError>, String> {
    guard(|| {
        let first = match get_first_sets(&pd) {
            Ok(f) => f,
            Err(e) => return Some(e),
        };
        let follow = match get_follow_sets(start, &first, &pd) {
            Ok(f) => f,
            Err(e) => return Some(e),
        };
        get_steuermaps(&first, &follow, pd).err()
    })
}
fn c26_grammar(s: &mut Src, c: &mut Ctx) -> Res {
    let o = opts(s);
    let mut g = match s.weighted(&[30, 50, 20]) {
        0 => raw_grammar(s, &o),
        1 => ll1_grammar(s, &o),
        _ => chain_grammar(s),
    };
    for _ in 0..s.weighted(&[10, 50, 25, 15]) {
        mutate_grammar(s, &mut g);
    }
    if s.chance(10) {
        let u = s.below(g.n());
        g.rules[u].clear();
    }
    if s.chance(10) {
        g.start = s.below(g.n());
    }
    c.describe(|| format!("start rule {}\n{}", g.names[g.start], clip(&render_plain(&g), 3000)));
    // numbers: through calls in this order, or as the text is read
    let (pd, map) = if s.chance(50) {
        super::gram::load(s, &g, c)?
    } else {
        let mut pd = ParserData::<NullVm>::new();
        // other symbols first, so that a rule's number is not its place among the rules
        for k in 0..s.below(5) {
            pd.get_or_add_terminal(&format!("{k}"));
        }
        let ids: Vec<usize> = g.names.iter().map(|n| pd.get_or_add_non_terminal(n)).collect();
        for i in 0..g.n() {
            for a in &g.rules[i] {
                let v = a
                    .iter()
                    .map(|x| match x {
                        Sym::T(t) => pd.get_or_add_terminal(t),
                        Sym::N(j) => ids[*j],
                    })
                    .collect();
                pd.add_production(ids[i], v);
            }
        }
        (pd, ids)
    };
    let rule_of = |ix: usize| map.iter().position(|x| *x == ix);
    let start = map[g.start];
    let Some(e) = analysis_error(pd, start)? else {
        c.label("usable");
        return Ok(());
    };
    shown_gram(&e)?;
    let name = |i: Option<usize>| i.map(|i| g.names[i].clone()).unwrap_or("no rule".into());
    use GrammarError::*;
    match &e {
        LeftRecursion { index } => {
            c.label("left recursion");
            let i = rule_of(*index);
            if !i.is_some_and(|i| left_recursive(&g)[i]) {
                return Err(format!("{e:?}: {} is not left recursive", name(i)));
            }
        }
        MissingProduction { index } | MissingFirstSet { index } | MissingFollowSet { index } | MissingSteuerSet { index } | MissingElementForIndex { index } | GraphNodeDoesNotExistsError { node_name: index } => {
            c.label("undefined rule");
            let i = rule_of(*index);
            if !i.is_some_and(|i| g.rules[i].is_empty()) {
                return Err(format!("{e:?}: {} is not undefined", name(i)));
            }
        }
        SteuerSetsNotDistinct { steuer_char, rule_name, .. } => {
            c.label("overlapping alternatives");
            let i = rule_name.parse().ok().and_then(rule_of);
            let cs = conflicts(&g);
            let Some(i) = i else {
                return Err(format!("{e:?} names no rule"));
            };
            let end = *steuer_char == '#' && cs.contains(&(i, None));
            if !end && !cs.contains(&(i, Some(*steuer_char))) {
                return Err(format!("{e:?}: no two alternatives of {} apply there; conflicts are {cs:?}", g.names[i]));
            }
        }
        o => return Err(format!("an unusable grammar is refused with {o:?}")),
    }
    if g.n() > 1 {
        c.nontrivial(&(&g.names, &g.rules, g.start));
    }
    Ok(())
}
fn c26_tree(s: &mut Src, c: &mut Ctx) -> Res {
    let mut t: Tree<usize> = Tree::new();
    let mut ids: Vec<NodeId> = vec![];
    let mut gone: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut log = String::new();
    let n = s.range(1, 40);
    let res = (|| -> Res {
        for k in 0..n {
            // any handle: a node, a removed node, or none that was ever handed out
            let id = match s.weighted(&[70, 20, 10]) {
                0 | 1 if !ids.is_empty() => *s.pick(&ids),
                1 | 0 => NodeId { node_ptr: s.below(3), node_pk: s.below(3) },
                _ => NodeId { node_ptr: s.size(1000), node_pk: s.size(1000) },
            };
            let known = ids.contains(&id);
            let live = known && !gone.contains(&(id.node_ptr, id.node_pk));
            let op = s.weighted(&[35, 20, 10, 10, 10, 15]);
            let nth = s.size(40);
            log += &format!("{} {id:?}; ", ["add_node", "remove_branch", "get_node", "get_node_mut", "get_by_path_or_none", "get_nth_child"][op]);
            let e = match op {
                0 => {
                    let parent = if ids.is_empty() { None } else { Some(id) };
                    match t.add_node(k, parent) {
                        Ok(i) => {
                            ids.push(i);
                            None
                        }
                        Err(e) => Some(e),
                    }
                }
                1 => {
                    let below = if live { t.get_descendants(id) } else { vec![] };
                    let e = t.remove_branch(id).err();
                    if e.is_none() {
                        gone.insert((id.node_ptr, id.node_pk));
                        gone.extend(below.iter().map(|x| (x.node_ptr, x.node_pk)));
                    }
                    e
                }
                2 => t.get_node(id).err(),
                3 => t.get_node_mut(id).err(),
                4 => t.get_by_path_or_none(id, [nth].into_iter()).err(),
                _ => match t.get_node(id) {
                    Err(e) => Some(e),
                    Ok(nd) => {
                        let kids = t.get_children(id).len();
                        match t.get_nth_child(nd, nth) {
                            Err(e) => {
                                shown_tree(&e)?;
                                if !matches!(e, TreeError::ChildDoesNotExists { child_nth } if child_nth == nth && nth >= kids) {
                                    return Err(format!("child {nth} of {id:?}, which has {kids}: {e:?}"));
                                }
                                c.label("no such child");
                                None
                            }
                            Ok(_) => None,
                        }
                    }
                },
            };
            if let Some(e) = e {
                shown_tree(&e)?;
                let ok = match &e {
                    TreeError::NodeDoesNotExist { node_id } => *node_id == id && !live,
                    TreeError::NodeWasRemoved { node_id } => *node_id == id && !live,
                    _ => false,
                };
                if !ok {
                    return Err(format!("asked about {id:?} (live: {live}): {e:?}"));
                }
                c.label(if known { "removed node" } else { "unknown node" });
                c.nontrivial(&log);
            }
        }
        Ok(())
    })();
    c.describe(|| clip(&log, 3000));
    res
}
fn c26_graph(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g: GraphNamedNodes<usize> = GraphNamedNodes::new();
    let mut names: BTreeSet<usize> = BTreeSet::new();
    let mut log = String::new();
    let res = (|| -> Res {
        for k in 0..s.range(1, 30) {
            let a = if s.chance(80) { s.below(8) } else { s.size(1 << 20) };
            let b = if s.chance(80) { s.below(8) } else { s.size(1 << 20) };
            let op = s.weighted(&[40, 10, 10, 20, 8, 8, 6, 6]);
            log += &format!("{} {a} {b}; ", ["add_node", "get_node", "get_node_mut", "add_edge", "successors", "successor_indices", "get_node_by_index", "get_node_mut_by_index"][op]);
            let e = match op {
                0 => g.add_node(a, k).err(),
                1 => g.get_node(a).err(),
                2 => g.get_node_mut(a).err(),
                3 => g.add_edge(a, b).err(),
                4 => g.successors(a).err(),
                5 => g.successor_indices(a).err(),
                6 => g.get_node_by_index(a).err(),
                _ => g.get_node_mut_by_index(a).err(),
            };
            use GrammarError::*;
            let ok = match (&e, op) {
                (None, 0) => names.insert(a),
                (None, 3) => names.contains(&a) && names.contains(&b),
                (None, 6 | 7) => a < names.len(),
                (None, _) => names.contains(&a),
                (Some(GraphNodeAlreadyExistsError { node_name }), 0) => *node_name == a && names.contains(&a),
                (Some(GraphNodeDoesNotExistsError { node_name }), 3) => (*node_name == a || *node_name == b) && !names.contains(node_name),
                (Some(GraphNodeDoesNotExistsError { node_name }), 1 | 2 | 4 | 5) => *node_name == a && !names.contains(&a),
                (Some(GraphIndexOutOfBounds { index }), 6 | 7) => *index == a && a >= names.len(),
                _ => false,
            };
            if !ok {
                return Err(format!("{e:?} after {log}"));
            }
            if e.is_some() {
                c.label(["name is taken", "no such name", "no such name", "no such name", "no such name", "no such name", "no such number", "no such number"][op]);
                c.nontrivial(&log);
            }
        }
        Ok(())
    })();
    c.describe(|| clip(&log, 3000));
    res
}
fn c26(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[70, 18, 12]) {
        0 => c26_grammar(s, c),
        1 => c26_tree(s, c),
        _ => c26_graph(s, c),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "A case is a grammar text with directive, overrides and actions that was cut, edited or replaced in places (or random tokens), read for one of the four machines; the place where it leaves the notation is computed by a character automaton. Non-trivial: the text leaves the notation behind its first character, or stops too early.",
            max: 1200, quick: 1_000_000, thorough: 30_000_000, case: c25, pinned: c25_pinned, known: no_known, cpu: 20,
        },
        Prop {
            id: "C26",
            rule: "A case is a grammar with injected defects that is analysed, or a history of requests to a tree or a named graph, with handles, names and numbers that do and do not exist. Non-trivial: an error was reported (and the grammar has at least two rules).",
            max: 1200, quick: 800_000, thorough: 25_000_000, case: c26, pinned: no_pinned, known: no_known, cpu: 20,
        },
    ]
}

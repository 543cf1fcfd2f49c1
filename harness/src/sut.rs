//! Adapters to the library under test.
use crate::grammar::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {m}"));
    }));
}
/// Err = panic message
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ------------------------------------------------------------------ rules

pub type CAlt = Vec<(bool, String)>; // (is rule, name or text)
pub type CRules = BTreeMap<String, Vec<CAlt>>;

pub fn c_alt(g: &Grammar, a: &Alt) -> CAlt {
    a.iter()
        .map(|s| match s {
            Sym::T(t) => (false, t.clone()),
            Sym::N(j) => (true, g.names[*j].clone()),
        })
        .collect()
}
pub fn c_rules(g: &Grammar) -> CRules {
    (0..g.n())
        .filter(|&i| !g.rules[i].is_empty())
        .map(|i| (g.names[i].clone(), g.rules[i].iter().map(|a| c_alt(g, a)).collect()))
        .collect()
}
pub fn elem<T: VM>(pd: &ParserData<T>, ix: usize) -> (bool, String) {
    match pd.get_element_verbose(ix) {
        Some(e) => (e.et == ElementType::NonTerminal, e.name),
        None => (true, format!("<no symbol {ix}>")),
    }
}
pub fn prod_of<T: VM>(pd: &ParserData<T>, p: &Production) -> CAlt {
    match p {
        Production::Empty => vec![],
        Production::NotEmpty(v) => v.iter().map(|&ix| elem(pd, ix)).collect(),
    }
}
pub fn rules_of<T: VM>(pd: &ParserData<T>) -> CRules {
    pd.parse_rules
        .rules
        .iter()
        .map(|(ix, r)| (elem(pd, *ix).1, r.possible_productions.iter().map(|p| prod_of(pd, p)).collect()))
        .collect()
}

/// read a grammar text; Ok(Err) = refused by an error value, Err = panic
pub fn read_text<T: VM>(text: &str, vm: &T) -> Result<Result<ParserData<T>, String>, String> {
    guard(|| {
        let mut pw = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pw, vm);
        let e = rp.parse_rules().err().map(|e| format!("{e:?}"));
        let RuleParser { parser_data, .. } = rp;
        match e {
            None => Ok(parser_data),
            Some(e) => Err(e),
        }
    })
}

/// build the grammar through the programming interface, rules in numeric order
pub fn build_data<T: VM>(g: &Grammar) -> ParserData<T> {
    let mut pd = ParserData::<T>::new();
    let ids: Vec<usize> = g.names.iter().map(|n| pd.get_or_add_non_terminal(n)).collect();
    for i in 0..g.n() {
        for a in &g.rules[i] {
            let v = a
                .iter()
                .map(|s| match s {
                    Sym::T(t) => pd.get_or_add_terminal(t),
                    Sym::N(j) => ids[*j],
                })
                .collect();
            pd.add_production(ids[i], v);
        }
    }
    pd
}

// ------------------------------------------------------------------ sets

pub fn look_of(m: SetMember) -> Look {
    match m {
        SetMember::Char(c) => Some(c),
        SetMember::Terminate => None,
    }
}
pub fn looks(s: &HashSet<SetMember>) -> BTreeSet<Look> {
    s.iter().map(|m| look_of(*m)).collect()
}
/// (characters, contains the empty marker, contains the end marker)
pub fn firsts(s: &HashSet<SetMemberWithEmpty>) -> (BTreeSet<char>, bool, bool) {
    let mut r = (BTreeSet::new(), false, false);
    for m in s {
        match m {
            SetMemberWithEmpty::Char(c) => {
                r.0.insert(*c);
            }
            SetMemberWithEmpty::Empty => r.1 = true,
            SetMemberWithEmpty::Terminate => r.2 = true,
        }
    }
    r
}

// ------------------------------------------------------------------ parsing

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Tree(FlatTree),
    /// a character was refused, or the end was met (chr is then not meaningful)
    Unexpected { pos: usize, chr: char, expected: String },
    End { pos: usize },
    Other(String),
    Panic(String),
}
impl Outcome {
    pub fn accepted(&self) -> bool {
        matches!(self, Outcome::Tree(_))
    }
    pub fn refused(&self) -> bool {
        matches!(self, Outcome::Unexpected { .. } | Outcome::End { .. } | Outcome::Other(_))
    }
    /// comparable form: the order in which expected symbols are listed is not specified
    pub fn canon(&self) -> Outcome {
        match self {
            Outcome::Unexpected { pos, chr, expected } => {
                let mut c: Vec<char> = expected.chars().collect();
                c.sort();
                Outcome::Unexpected { pos: *pos, chr: *chr, expected: c.into_iter().collect() }
            }
            o => o.clone(),
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.chars().count() > 700 {
            s.chars().take(700).collect::<String>() + "..."
        } else {
            s
        }
    }
}

pub const ROOT: NodeId = NodeId { node_ptr: 0, node_pk: 0 };

/// preorder by child lists
pub fn flatten(t: &Tree<String>, root: NodeId) -> Result<FlatTree, String> {
    let mut out = vec![];
    let mut st = vec![(root, 0u32)];
    while let Some((id, d)) = st.pop() {
        let n = t.get_node(id).map_err(|e| format!("listed node is refused: {e}"))?;
        out.push((d, n.data.clone()));
        for c in t.get_children(id).into_iter().rev() {
            st.push((c, d + 1));
        }
        if out.len() > 3_000_000 {
            return Err("tree does not end".into());
        }
    }
    Ok(out)
}
/// preorder by child numbers
pub fn flatten_by_index(t: &Tree<String>, root: NodeId) -> Result<FlatTree, String> {
    let mut out = vec![];
    let r = t.get_node(root).map_err(|e| format!("{e}"))?;
    let mut st = vec![(r, 0u32)];
    while let Some((n, d)) = st.pop() {
        out.push((d, n.data.clone()));
        let mut kids = vec![];
        while let Some(c) = t.get_nth_child_or_none(n, kids.len()) {
            kids.push(c);
            if kids.len() > 3_000_000 {
                return Err("child list does not end".into());
            }
        }
        if t.get_nth_child(n, kids.len()).is_ok() {
            return Err("get_nth_child finds a child that get_nth_child_or_none does not".into());
        }
        for c in kids.into_iter().rev() {
            st.push((c, d + 1));
        }
    }
    Ok(out)
}

pub fn outcome_of(r: Result<Tree<String>, ParserError>) -> Outcome {
    match r {
        Ok(t) => match flatten(&t, ROOT) {
            Ok(f) => Outcome::Tree(f),
            Err(e) => Outcome::Other(format!("BROKEN TREE {e}")),
        },
        Err(ParserError::UnexpectedCharError { chr, pos, expected }) => Outcome::Unexpected { pos, chr, expected },
        Err(ParserError::EndOfCharsError { pos }) => Outcome::End { pos },
        Err(e) => Outcome::Other(format!("{e:?}")),
    }
}
pub fn parse_with<'a, T: VM>(p: &mut Parser<'a, T>, script: &'a str, st: &mut T::Tstate) -> Outcome {
    match guard(|| outcome_of(p.parse(script, st))) {
        Ok(o) => o,
        Err(m) => Outcome::Panic(m),
    }
}
/// parser from text; Err = refused (the constructor reports refusals by panicking)
pub fn parser_text<'a, T: VM>(text: &str, vm: &'a T) -> Result<Parser<'a, T>, String> {
    guard(|| Parser::new_from_text(text, vm))
}
pub fn null_outcome(text: &str, script: &str) -> Result<Outcome, String> {
    let vm = NullVm::new();
    let mut p = parser_text(text, &vm)?;
    let mut st = NullVm::create_new_state();
    Ok(parse_with(&mut p, script, &mut st))
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}...({} chars)", s.chars().take(n).collect::<String>(), s.chars().count())
    }
}

/// does an expected list consist of exactly these lookaheads
pub fn expected_matches(expected: &str, want: &BTreeSet<Look>) -> bool {
    let item = |l: &Look| l.map(|c| c.to_string()).unwrap_or_else(|| "terminate".into());
    let mut all: Vec<String> = want.iter().map(item).collect();
    all.sort();
    let mut a: Vec<char> = all.join(";").chars().collect();
    let mut b: Vec<char> = expected.chars().collect();
    a.sort();
    b.sort();
    if a != b {
        return false;
    }
    if !want.contains(&Some(';')) {
        let mut got: Vec<String> = expected.split(';').map(|x| x.to_string()).collect();
        got.sort();
        if want.is_empty() {
            return expected.is_empty();
        }
        return got == all;
    }
    true
}

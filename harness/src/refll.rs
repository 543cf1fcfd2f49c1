//! Reference parser (iterative, table driven, built from the textbook sets) and reference recogniser
//! (search over all derivations, no LL(1) theory).
use crate::grammar::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct LlTable {
    /// per rule: lookahead -> alternative
    pub rows: Vec<BTreeMap<Look, usize>>,
}
impl LlTable {
    pub fn new(g: &Grammar) -> LlTable {
        let st = g.sets();
        let rows = (0..g.n())
            .map(|i| {
                let mut m = BTreeMap::new();
                for (k, a) in g.rules[i].iter().enumerate() {
                    for c in g.predict(&st, i, a) {
                        m.insert(c, k);
                    }
                }
                m
            })
            .collect();
        LlTable { rows }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// inside a terminal: its next character
    Terminal(char),
    /// at the beginning of this rule
    Rule(usize),
    /// the sentence is complete but characters are left
    Trailing,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub dtree: DTree,
    /// rule applications in the order of their completion: index into dtree
    pub done: Vec<usize>,
    /// position in characters and reason, if refused
    pub err: Option<(usize, Stop)>,
}

pub fn run_ll(g: &Grammar, t: &LlTable, start: usize, script: &str) -> Run {
    enum It<'a> {
        S(&'a Sym, u32),
        End(usize),
    }
    let chars: Vec<char> = script.chars().collect();
    let mut pos = 0;
    let mut r = Run { dtree: vec![], done: vec![], err: None };
    let root = Sym::N(start);
    let mut st = vec![It::S(&root, 0)];
    while let Some(it) = st.pop() {
        match it {
            It::End(ix) => r.done.push(ix),
            It::S(Sym::T(x), depth) => {
                for c in x.chars() {
                    if chars.get(pos) != Some(&c) {
                        r.err = Some((pos, Stop::Terminal(c)));
                        return r;
                    }
                    pos += 1;
                }
                r.dtree.push(DNode::Leaf { text: x.clone(), depth });
            }
            It::S(Sym::N(i), depth) => {
                let Some(&alt) = t.rows[*i].get(&chars.get(pos).copied()) else {
                    r.err = Some((pos, Stop::Rule(*i)));
                    return r;
                };
                let ix = r.dtree.len();
                r.dtree.push(DNode::Rule { rule: *i, alt, depth });
                st.push(It::End(ix));
                for s in g.rules[*i][alt].iter().rev() {
                    st.push(It::S(s, depth + 1));
                }
            }
        }
    }
    if pos < chars.len() {
        r.err = Some((pos, Stop::Trailing));
    }
    r
}

/// All derivations by brute force, for grammars without left recursion: where can a symbol that starts at
/// `p` end, and how far does the longest viable prefix reach.
pub struct Recogniser<'a> {
    g: &'a Grammar,
    s: Vec<char>,
    memo: HashMap<(usize, usize), BTreeSet<usize>>,
    /// largest number of characters matched along any partial derivation
    pub furthest: usize,
}
impl<'a> Recogniser<'a> {
    pub fn new(g: &'a Grammar, script: &str) -> Recogniser<'a> {
        Recogniser { g, s: script.chars().collect(), memo: HashMap::new(), furthest: 0 }
    }
    fn rule(&mut self, i: usize, p: usize) -> BTreeSet<usize> {
        if let Some(x) = self.memo.get(&(i, p)) {
            return x.clone();
        }
        let mut out = BTreeSet::new();
        for k in 0..self.g.rules[i].len() {
            let mut cur: BTreeSet<usize> = [p].into();
            for sy in &self.g.rules[i][k] {
                let mut nx = BTreeSet::new();
                for &q in &cur {
                    match sy {
                        Sym::T(t) => {
                            let mut e = q;
                            let mut ok = true;
                            for c in t.chars() {
                                if self.s.get(e) != Some(&c) {
                                    ok = false;
                                    break;
                                }
                                e += 1;
                                self.furthest = self.furthest.max(e);
                            }
                            if ok {
                                nx.insert(e);
                            }
                        }
                        Sym::N(j) => nx.extend(self.rule(*j, q)),
                    }
                }
                cur = nx;
                if cur.is_empty() {
                    break;
                }
            }
            out.extend(cur);
        }
        self.memo.insert((i, p), out.clone());
        out
    }
    pub fn accepts(&mut self, start: usize) -> bool {
        let n = self.s.len();
        self.rule(start, 0).contains(&n)
    }
}

/// the grammar with `ig[rule]` written between all neighbouring symbols of that rule's alternatives
pub fn weave(g: &Grammar, ig: &[Option<usize>]) -> Grammar {
    let n = g.n();
    let reach = |from: usize| {
        let mut seen = vec![false; n];
        seen[from] = true;
        let mut st = vec![from];
        while let Some(x) = st.pop() {
            for s in g.rules[x].iter().flatten() {
                if let Sym::N(j) = s {
                    if !seen[*j] {
                        seen[*j] = true;
                        st.push(*j);
                    }
                }
            }
        }
        seen
    };
    let mut out = g.clone();
    for i in 0..n {
        let Some(w) = ig[i] else { continue };
        if reach(w)[i] {
            continue;
        }
        for a in out.rules[i].iter_mut() {
            let mut b = vec![];
            for (k, s) in a.drain(..).enumerate() {
                if k > 0 {
                    b.push(Sym::N(w));
                }
                b.push(s);
            }
            *a = b;
        }
    }
    out
}

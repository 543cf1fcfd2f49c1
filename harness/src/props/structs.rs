//! C15, C16, C24: trees, graphs and the grammar store against plain models.
use super::lang::lang_grammar;
use crate::choices::Src;
use crate::grammar::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::simple_graph::Graph;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ------------------------------------------------------------------ C15: model

struct MNode {
    data: String,
    parent: Option<usize>,
    kids: Vec<usize>,
    alive: bool,
    handle: Option<NodeId>,
}
#[derive(Default)]
struct TModel {
    nodes: Vec<MNode>,
    /// every handle ever seen
    seen: HashMap<NodeId, usize>,
    log: Vec<String>,
    removed: usize,
    reused: usize,
    free_slots: HashSet<usize>,
}
impl TModel {
    fn add(&mut self, data: String, parent: Option<usize>) -> usize {
        let i = self.nodes.len();
        self.nodes.push(MNode { data, parent, kids: vec![], alive: true, handle: None });
        if let Some(p) = parent {
            self.nodes[p].kids.push(i);
        }
        i
    }
    fn remove(&mut self, i: usize) {
        if let Some(p) = self.nodes[i].parent {
            self.nodes[p].kids.retain(|k| *k != i);
        }
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            self.nodes[x].alive = false;
            self.removed += 1;
            if let Some(h) = self.nodes[x].handle {
                self.free_slots.insert(h.node_ptr);
            }
            todo.extend(self.nodes[x].kids.clone());
        }
    }
    fn below(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo: Vec<usize> = self.nodes[i].kids.clone();
        while let Some(x) = todo.pop() {
            out.push(x);
            todo.extend(self.nodes[x].kids.iter());
        }
        out
    }
    fn flat(&self, i: usize) -> FlatTree {
        let mut out = vec![];
        let mut todo = vec![(i, 0u32)];
        while let Some((x, d)) = todo.pop() {
            out.push((d, self.nodes[x].data.clone()));
            for k in self.nodes[x].kids.iter().rev() {
                todo.push((*k, d + 1));
            }
        }
        out
    }
    fn bind(&mut self, i: usize, h: NodeId) -> Res {
        if let Some(&j) = self.seen.get(&h) {
            if j != i {
                return Err(format!("handle {h} designates two different nodes"));
            }
        }
        if self.free_slots.remove(&h.node_ptr) {
            self.reused += 1;
        }
        if let Some(o) = self.nodes[i].handle {
            if o != h {
                return Err(format!("a node is listed as {h}, but its handle is {o}"));
            }
        }
        self.nodes[i].handle = Some(h);
        self.seen.insert(h, i);
        Ok(())
    }
    /// learn the handles below a node from the child lists, which must be those of the model
    fn learn(&mut self, t: &Tree<String>, i: usize) -> Res {
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            let h = self.nodes[x].handle.unwrap();
            let kids = t.get_children(h);
            if kids.len() != self.nodes[x].kids.len() {
                return Err(format!("node {h} has {} children instead of {}", kids.len(), self.nodes[x].kids.len()));
            }
            for (k, kh) in self.nodes[x].kids.clone().into_iter().zip(kids) {
                self.bind(k, kh)?;
                todo.push(k);
            }
        }
        Ok(())
    }
    fn check_one(&self, t: &Tree<String>, h: NodeId) -> Res {
        let want = self.seen.get(&h).map(|i| &self.nodes[*i]).filter(|n| n.alive);
        let got = t.get_node(h);
        if t.node_exists(h) != want.is_some() {
            return Err(format!("node_exists({h}) is {}, the node is {}", t.node_exists(h), if want.is_some() { "there" } else { "gone" }));
        }
        match (got, want) {
            (Ok(n), Some(w)) if n.data == w.data => Ok(()),
            (Ok(n), Some(w)) => Err(format!("handle {h} gives {:?} instead of {:?}", n.data, w.data)),
            (Ok(n), None) => Err(format!("handle {h} is dead but gives {:?}", n.data)),
            (Err(e), Some(w)) => Err(format!("handle {h} of {:?} is refused: {e}", w.data)),
            (Err(_), None) => Ok(()),
        }
    }
    fn check_lists(&self, t: &Tree<String>, i: usize) -> Res {
        let n = &self.nodes[i];
        let h = n.handle.unwrap();
        let got: Vec<NodeId> = t.get_children(h);
        let want: Vec<NodeId> = n.kids.iter().map(|k| self.nodes[*k].handle.unwrap()).collect();
        if got != want {
            return Err(format!("children of {h} are {got:?} instead of {want:?}"));
        }
        let node = t.get_node(h).map_err(|e| format!("{e}"))?;
        for k in 0..=want.len() {
            let w = n.kids.get(k).map(|x| &self.nodes[*x].data);
            if t.get_nth_child_or_none(node, k).map(|x| &x.data) != w {
                return Err(format!("child number {k} of {h} is wrong"));
            }
            if t.get_nth_child(node, k).ok().map(|x| &x.data) != w {
                return Err(format!("child number {k} of {h} is wrong (as a result)"));
            }
        }
        Ok(())
    }
    fn check_all(&mut self, t: &mut Tree<String>) -> Res {
        for h in self.seen.keys() {
            self.check_one(t, *h)?;
            let want = self.nodes[self.seen[h]].alive;
            if t.get_node_mut(*h).is_ok() != want {
                return Err(format!("get_node_mut({h}) succeeds: {}", !want));
            }
            if !want && !t.get_children(*h).is_empty() {
                return Err(format!("the dead handle {h} has children"));
            }
        }
        for i in 0..self.nodes.len() {
            if self.nodes[i].alive && self.nodes[i].handle.is_some() {
                self.check_lists(t, i)?;
                if self.nodes[i].parent.is_none() {
                    let h = self.nodes[i].handle.unwrap();
                    let f = flatten(t, h)?;
                    if f != self.flat(i) {
                        return Err(format!("tree below root {h} is {f:?} instead of {:?}", self.flat(i)));
                    }
                    if flatten_by_index(t, h)? != f {
                        return Err("child lists and child numbers disagree".into());
                    }
                    self.check_desc(t, i)?;
                }
            }
        }
        Ok(())
    }
    fn check_desc(&self, t: &Tree<String>, i: usize) -> Res {
        let h = self.nodes[i].handle.unwrap();
        let mut got = t.get_descendants(h);
        let mut want: Vec<NodeId> = self.below(i).iter().map(|k| self.nodes[*k].handle.unwrap()).collect();
        let key = |x: &NodeId| (x.node_ptr, x.node_pk);
        got.sort_by_key(key);
        want.sort_by_key(key);
        if got != want {
            return Err(format!("descendants of {h} are {got:?} instead of {want:?}"));
        }
        Ok(())
    }
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].alive && self.nodes[i].handle.is_some()).collect()
    }
    fn dead(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| !self.nodes[i].alive && self.nodes[i].handle.is_some()).collect()
    }
}

/// one operation on tree and model; `fixed`: nodes that must stay
fn tree_op(s: &mut Src, t: &mut Tree<String>, m: &mut TModel, fixed: &BTreeSet<usize>, parsing: bool) -> Res {
    let live = m.live();
    let dead = m.dead();
    let forged = |s: &mut Src, m: &TModel| -> NodeId {
        let base = if m.nodes.is_empty() { 4 } else { m.nodes.len() };
        loop {
            // while a script is being parsed there are nodes whose handles nobody knows yet, so
            // only a handle far from any that could be in use is certain to be none
            let h = match (s.below(4), parsing) {
                (0, true) => NodeId { node_ptr: usize::MAX - s.below(2), node_pk: s.below(base + 2) },
                (1, true) => NodeId { node_ptr: s.below(base), node_pk: usize::MAX - s.below(base + 3) },
                (0, false) => NodeId { node_ptr: base + s.below(4), node_pk: s.below(base + 2) },
                (1, false) => NodeId { node_ptr: s.below(base), node_pk: s.below(base + 3) + base },
                (2, _) => NodeId { node_ptr: usize::MAX - s.below(2), node_pk: 0 },
                _ => NodeId { node_ptr: s.below(base), node_pk: usize::MAX - s.below(2) },
            };
            if !m.seen.contains_key(&h) {
                return h;
            }
        }
    };
    // a handle that is not to be accepted
    let bad = |s: &mut Src, m: &TModel| -> NodeId {
        if !dead.is_empty() && s.chance(75) {
            m.nodes[*s.pick(&dead)].handle.unwrap()
        } else {
            forged(s, m)
        }
    };
    let data = format!("d{}", m.nodes.len());
    match s.weighted(&[30, 18, if live.is_empty() { 0 } else { 22 }, 6, 5, 6, 6, 7]) {
        0 if !live.is_empty() => {
            // some parents get many children
            let p = if s.chance(30) { *live.last().unwrap() } else { *s.pick(&live) };
            let ph = m.nodes[p].handle.unwrap();
            let i = m.add(data.clone(), Some(p));
            let h = t.add_node(data.clone(), Some(ph)).map_err(|e| format!("a child of {ph} is refused: {e}"))?;
            m.log.push(format!("add {data} below {ph}: {h}"));
            if m.seen.contains_key(&h) {
                return Err(format!("handle {h} is given out twice"));
            }
            m.bind(i, h)
        }
        0 | 1 => {
            if parsing && s.chance(70) {
                return Ok(());
            }
            let i = m.add(data.clone(), None);
            let h = t.add_node(data.clone(), None).map_err(|e| format!("a root is refused: {e}"))?;
            m.log.push(format!("add root {data}: {h}"));
            if m.seen.contains_key(&h) {
                return Err(format!("handle {h} is given out twice"));
            }
            m.bind(i, h)
        }
        2 => {
            let cand: Vec<usize> = live.iter().filter(|i| !fixed.contains(*i)).cloned().collect();
            if cand.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&cand);
            let h = m.nodes[i].handle.unwrap();
            m.log.push(format!("remove {h}"));
            t.remove_branch(h).map_err(|e| format!("removing {h} is refused: {e}"))?;
            m.remove(i);
            Ok(())
        }
        3 => {
            let h = bad(s, m);
            m.log.push(format!("remove {h}, which is not there"));
            match t.remove_branch(h) {
                Ok(()) => Err(format!("removing {h} succeeds, but it is not there")),
                Err(_) => Ok(()),
            }
        }
        4 => {
            let h = bad(s, m);
            m.log.push(format!("add below {h}, which is not there"));
            match t.add_node("never".into(), Some(h)) {
                Ok(x) => Err(format!("a child {x} of {h} is added, but that is not there")),
                Err(_) => Ok(()),
            }
        }
        5 => {
            let h = bad(s, m);
            m.log.push(format!("look up {h}, which is not there"));
            m.check_one(t, h)?;
            if t.get_node_mut(h).is_ok() {
                return Err(format!("get_node_mut finds {h}"));
            }
            if t.get_by_path_or_none(h, std::iter::empty()).is_ok() {
                return Err(format!("a path from {h} is followed"));
            }
            Ok(())
        }
        6 if !live.is_empty() => {
            let i = *s.pick(&live);
            let h = m.nodes[i].handle.unwrap();
            m.log.push(format!("change {h} to {data}"));
            match t.get_node_mut(h) {
                Ok(n) => n.data = data.clone(),
                Err(e) => return Err(format!("get_node_mut refuses {h}: {e}")),
            }
            m.nodes[i].data = data;
            m.check_one(t, h)
        }
        _ if !live.is_empty() => {
            // a path
            let i = *s.pick(&live);
            let h = m.nodes[i].handle.unwrap();
            let mut at = Some(i);
            let mut path = vec![];
            for _ in 0..s.below(5) {
                let n = at.map(|x| m.nodes[x].kids.len()).unwrap_or(0);
                let beyond = usize::from(s.chance(5));
                let k = s.below(n + 1 + beyond);
                path.push(k);
                at = at.and_then(|x| m.nodes[x].kids.get(k).cloned());
            }
            m.log.push(format!("path {path:?} from {h}"));
            let got = t.get_by_path_or_none(h, path.iter().cloned()).map_err(|e| format!("a path from {h} is refused: {e}"))?;
            if got.map(|n| &n.data) != at.map(|x| &m.nodes[x].data) {
                return Err(format!("path {path:?} from {h} finds {:?} instead of {:?}", got.map(|n| &n.data), at.map(|x| &m.nodes[x].data)));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn c15_history(s: &mut Src, c: &mut Ctx) -> Res {
    let mut t = Tree::<String>::new();
    let mut m = TModel::default();
    let n = match s.weighted(&[30, 50, 18, 2]) {
        0 => s.range(1, 12),
        1 => s.range(12, 50),
        2 => s.range(50, 140),
        _ => 140 + s.size(900),
    };
    let every = s.chance(25);
    let mut r = Ok(());
    for _ in 0..n {
        r = tree_op(s, &mut t, &mut m, &BTreeSet::new(), false);
        if r.is_ok() && every {
            r = m.check_all(&mut t);
        }
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = m.check_all(&mut t);
    }
    c.describe(|| m.log.join("\n"));
    c.label("history on a tree");
    c.label_if(m.reused > 0, "storage of removed nodes used again");
    c.label_if(m.removed > 5, "more than five nodes removed");
    r?;
    if m.removed > 0 && m.reused > 0 {
        c.nontrivial(&m.log);
    }
    Ok(())
}

// ------------------------------------------------------------------ C15: edits while parsing

enum Ev {
    Open,
    Leaf(String),
    Close { rule: usize },
}
struct EditState<'x, 'y> {
    m: TModel,
    events: Vec<Ev>,
    at: usize,
    open: Vec<usize>,
    err: Option<String>,
    src: Src<'x>,
    has: &'y [bool],
    calls: usize,
    edits: usize,
}
impl EditState<'_, '_> {
    /// what the parser has done up to the next action; the node that is to be current
    fn advance(&mut self) -> Option<usize> {
        while self.at < self.events.len() {
            self.at += 1;
            match &self.events[self.at - 1] {
                Ev::Open => {
                    let p = self.open.last().cloned();
                    let i = self.m.add(String::new(), p);
                    self.open.push(i);
                }
                Ev::Leaf(t) => {
                    let p = self.open.last().cloned();
                    self.m.add(t.clone(), p);
                }
                Ev::Close { rule } => {
                    let i = self.open.pop().unwrap();
                    if self.has[*rule] {
                        return Some(i);
                    }
                }
            }
        }
        None
    }
    fn call(&mut self, t: &mut Tree<String>, cur: NodeId) -> Res {
        self.calls += 1;
        let Some(i) = self.advance() else { return Err("an action too many".into()) };
        if self.m.seen.get(&cur).is_some_and(|x| *x != i) {
            return Err(format!("the new current node has the handle {cur} of an earlier node"));
        }
        self.m.bind(i, cur)?;
        self.m.check_one(t, cur)?;
        self.m.learn(t, i)?;
        let f = flatten(t, cur)?;
        if f != self.m.flat(i) {
            return Err(format!("below the current node is {f:?} instead of {:?}", self.m.flat(i)));
        }
        if self.m.nodes[0].handle.is_none() && t.node_exists(ROOT) {
            self.m.bind(0, ROOT)?;
        }
        let fixed: BTreeSet<usize> = self.open.iter().cloned().collect();
        for _ in 0..self.src.weighted(&[35, 30, 20, 15]) {
            self.edits += 1;
            tree_op(&mut self.src, t, &mut self.m, &fixed, true)?;
        }
        // "drop this node" is what a machine would do most
        if self.m.nodes[i].alive && self.src.chance(15) {
            self.edits += 1;
            self.m.log.push(format!("remove the current node {cur}"));
            t.remove_branch(cur).map_err(|e| format!("removing the current node is refused: {e}"))?;
            self.m.remove(i);
        }
        let known: Vec<NodeId> = self.m.seen.keys().cloned().collect();
        for h in known {
            self.m.check_one(t, h)?;
        }
        Ok(())
    }
}
struct EditVm<'x, 'y> {
    st: RefCell<EditState<'x, 'y>>,
}
impl VM for EditVm<'_, '_> {
    type Tstate = ();
    type Tinstrution = ();
    fn parse_instructions<'a, T>(&'a self, _: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<()>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        while to_parse.next().is_some() {}
        Ok(vec![()])
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur_node: NodeId, _: &(), _: &mut ()) {
        let mut st = self.st.borrow_mut();
        if st.err.is_none() {
            if let Err(e) = st.call(tree, cur_node) {
                st.err = Some(e);
            }
        }
    }
    fn create_new_state() {}
}

fn c15_parse(s: &mut Src, c: &mut Ctx) -> Res {
    let g = lang_grammar(s);
    let has: Vec<bool> = {
        let p = *s.pick(&[60u32, 90, 25]);
        (0..g.n()).map(|_| s.chance(p)).collect()
    };
    let st: Vec<Stmt> = plain_stmts(&g)
        .into_iter()
        .map(|mut x| {
            if has[x.rule] {
                x.action = Some(String::new());
            }
            x
        })
        .collect();
    let text = render(s, &Layout::plain(), &g.names, &st, None);
    let min = g.min_alt();
    let fuel = s.below(50);
    let mut d = derive(s, &g, &min, g.start, fuel);
    if d.len() > 400 {
        d = derive(s, &g, &min, g.start, 3);
    }
    if d.len() > 600 {
        return Ok(());
    }
    let script = yield_of(&d);
    // depth-annotated preorder into events
    let mut events = vec![];
    let mut open: Vec<(u32, usize)> = vec![];
    for n in &d {
        let depth = match n {
            DNode::Rule { depth, .. } | DNode::Leaf { depth, .. } => *depth,
        };
        while open.last().is_some_and(|(o, _)| *o >= depth) {
            events.push(Ev::Close { rule: open.pop().unwrap().1 });
        }
        match n {
            DNode::Rule { rule, .. } => {
                events.push(Ev::Open);
                open.push((depth, *rule));
            }
            DNode::Leaf { text, .. } => events.push(Ev::Leaf(text.clone())),
        }
    }
    while let Some((_, r)) = open.pop() {
        events.push(Ev::Close { rule: r });
    }
    let choices: Vec<u16> = (0..160).map(|_| s.raw()).collect();
    let vm = EditVm {
        st: RefCell::new(EditState { m: TModel::default(), events, at: 0, open: vec![], err: None, src: Src::new(&choices), has: &has, calls: 0, edits: 0 }),
    };
    let r = {
        let mut p = parser_text(&text, &vm).map_err(|e| format!("grammar refused: {e}"))?;
        guard(|| p.parse(&script, &mut ()))
    };
    let mut st = vm.st.into_inner();
    let r = (|| {
        if let Some(e) = st.err.take() {
            return Err(e);
        }
        let mut t = r.map_err(|p| format!("parse {p}"))?.map_err(|e| format!("the sentence is refused: {e:?}"))?;
        while st.advance().is_some() {
            return Err("an action is missing".into());
        }
        if st.m.nodes[0].alive {
            st.m.bind(0, ROOT)?;
            let f = flatten(&t, ROOT)?;
            if f != st.m.flat(0) {
                return Err(format!("the tree is {f:?} instead of {:?}", st.m.flat(0)));
            }
            st.m.learn(&t, 0)?;
        } else if t.node_exists(ROOT) {
            return Err("the root was removed but is there".into());
        }
        st.m.check_all(&mut t)
    })();
    c.describe(|| format!("{}\nscript {:?}\n{}", clip(&text, 1500), clip(&script, 200), st.m.log.join("\n")));
    c.label("edits while parsing");
    c.label_if(st.m.reused > 0, "storage of removed nodes used again");
    c.label_if(st.edits > 3, "more than three edits while parsing");
    r?;
    if st.m.removed > 0 && st.m.reused > 0 {
        c.nontrivial(&(&text, &script, &st.m.log));
    }
    Ok(())
}
/// storage that is used again very often
fn c15_pinned() -> Vec<Pinned> {
    let mut v = vec![];
    for (n, what) in [(300usize, 0), (1000, 1), (70_000, 0), (70_000, 1), (140_000, 2)] {
        let how = ["a child", "a root", "a child with a child"][what];
        v.push(pin(&format!("{how} inserted and removed {n} times"), move |_| {
            let mut t: Tree<String> = Tree::new();
            let e = |e| format!("{e}");
            let keep = t.add_node("keep".into(), None).map_err(e)?;
            let kid = t.add_node("kid".into(), Some(keep)).map_err(e)?;
            let mut dead: Vec<NodeId> = vec![];
            for i in 0..n {
                let h = t.add_node(format!("{i}"), if what == 1 { None } else { Some(keep) }).map_err(e)?;
                let below = if what == 2 { Some(t.add_node("below".into(), Some(h)).map_err(e)?) } else { None };
                if t.get_node(h).map_err(e)?.data != format!("{i}") || t.get_children(h) != below.iter().copied().collect::<Vec<_>>() {
                    return Err(format!("node {i} has other data or children"));
                }
                let old = &dead[..dead.len().min(40)];
                let last = &dead[dead.len() - dead.len().min(4)..];
                for d in old.iter().chain(last) {
                    if *d == h || Some(*d) == below || t.node_exists(*d) || t.get_node(*d).is_ok() {
                        return Err(format!("a handle of a removed node, {d}, is accepted again after insertion {i}"));
                    }
                }
                let want = if what == 1 { vec![kid] } else { vec![kid, h] };
                if t.get_children(keep) != want {
                    return Err(format!("children after insertion {i} are wrong"));
                }
                t.remove_branch(h).map_err(e)?;
                dead.push(h);
                dead.extend(below);
            }
            let distinct: BTreeSet<(usize, usize)> = dead.iter().map(|d| (d.node_ptr, d.node_pk)).collect();
            if distinct.len() != dead.len() || t.get_children(keep) != vec![kid] || dead.iter().any(|d| t.node_exists(*d)) {
                return Err("two nodes had the same handle, or a removed one is still there".into());
            }
            Ok(())
        }));
    }
    v
}
fn c15(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(40) {
        c15_parse(s, c)
    } else {
        c15_history(s, c)
    }
}

// ------------------------------------------------------------------ C16

#[derive(Default, Clone)]
struct GModel {
    /// data and edges (identifier, target) in order of insertion
    nodes: Vec<(String, Vec<(usize, usize)>)>,
}
fn graph_edges(g: &Graph<String>, n: usize) -> Vec<(usize, usize)> {
    g.connected_edges(n).map(|e| (g.edges[e].id, g.edges[e].target)).collect()
}
fn check_graph(g: &Graph<String>, m: &GModel) -> Res {
    if g.nodes.len() != m.nodes.len() {
        return Err(format!("{} nodes instead of {}", g.nodes.len(), m.nodes.len()));
    }
    for (i, (d, es)) in m.nodes.iter().enumerate() {
        if g.nodes[i].data != *d {
            return Err(format!("node {i} holds {:?} instead of {d:?}", g.nodes[i].data));
        }
        let mut got = graph_edges(g, i);
        let mut want = es.clone();
        let mut succ: Vec<usize> = g.successors(i).collect();
        let mut tg: Vec<usize> = es.iter().map(|e| e.1).collect();
        got.sort();
        want.sort();
        succ.sort();
        tg.sort();
        if got != want {
            return Err(format!("node {i} has the edges {got:?} instead of {want:?}"));
        }
        if succ != tg {
            return Err(format!("node {i} has the successors {succ:?} instead of {tg:?}"));
        }
        // present and absent identifiers
        let mut ids: BTreeSet<usize> = es.iter().map(|e| e.0).collect();
        for x in ids.clone() {
            ids.insert(x + 1);
            ids.insert(x.saturating_sub(1));
        }
        ids.insert(0);
        for id in ids {
            let w = es.iter().find(|e| e.0 == id).map(|e| e.1);
            if g.find_node_index(i, id) != w {
                return Err(format!("edge {id} of node {i} leads to {:?} instead of {w:?}", g.find_node_index(i, id)));
            }
            if g.find_node(i, id).map(|n| &n.data) != w.map(|x| &m.nodes[x].0) {
                return Err(format!("edge {id} of node {i} leads to wrong data"));
            }
        }
    }
    Ok(())
}
/// length of a history; a few are much longer
fn hist_len(s: &mut Src, usual: usize) -> usize {
    match s.weighted(&[28, 70, 2]) {
        0 => s.range(1, 12),
        1 => s.range(8, usual),
        _ => usual + s.size(900),
    }
}
fn edge_id(s: &mut Src, m: &GModel, at: usize) -> usize {
    match s.weighted(&[45, 30, 10, 10, 5]) {
        4 => s.size(1 << 50),
        0 => s.below(8),
        1 => m.nodes[at].1.get(s.below(m.nodes[at].1.len().max(1))).map(|e| (e.0 + s.below(3)).saturating_sub(1)).unwrap_or(3),
        2 => s.below(1000),
        _ => *s.pick(&[usize::MAX / 4, u32::MAX as usize, 1 << 40, 255, 256, 65535]),
    }
}
fn graph_op(s: &mut Src, g: &mut Graph<String>, m: &mut GModel, log: &mut Vec<String>, deep: bool) -> Res {
    let n = m.nodes.len();
    let w = if n == 0 { [1, 0, 0, 0, 0, 0] } else { [22, 25, 35, 10, if deep { 0 } else { 6 }, 4] };
    match s.weighted(&w) {
        0 => {
            let d = format!("n{}", s.raw());
            let i = g.add_node(d.clone());
            log.push(format!("add node {d}: {i}"));
            if i != n {
                return Err(format!("node number {i} is not the next one"));
            }
            m.nodes.push((d, vec![]));
        }
        1 => {
            let (a, b) = (if s.chance(40) { 0 } else { s.below(n) }, s.below(n));
            log.push(format!("add edge {a} -> {b}"));
            let before: BTreeSet<(usize, usize)> = graph_edges(g, a).into_iter().collect();
            g.add_edge(a, b);
            auto_edge(g, m, a, b, &before)?;
        }
        2 => {
            let (a, b) = (if s.chance(40) { 0 } else { s.below(n) }, s.below(n));
            let id = edge_id(s, m, a);
            let free = m.nodes[a].1.iter().all(|e| e.0 != id);
            log.push(format!("try edge {a} -> {b} with identifier {id}"));
            if g.try_add_edge_with_id(a, b, id) != free {
                return Err(format!("identifier {id} of node {a} is {}, but the edge is {}", if free { "free" } else { "used" }, if free { "refused" } else { "added" }));
            }
            if free {
                m.nodes[a].1.push((id, b));
            }
        }
        3 => {
            let a = s.below(n);
            let mut at = Some(a);
            let mut path = vec![];
            for _ in 0..s.below(6) {
                let id = match at {
                    Some(x) if !m.nodes[x].1.is_empty() && s.chance(80) => s.pick(&m.nodes[x].1).0,
                    _ if s.chance(15) => s.size(usize::MAX),
                    _ => s.below(8),
                };
                path.push(id);
                at = at.and_then(|x| m.nodes[x].1.iter().find(|e| e.0 == id).map(|e| e.1));
            }
            log.push(format!("path {path:?} from {a}"));
            let got = g.find_node_index_by_path(a, path.iter().cloned());
            if got != at {
                return Err(format!("path {path:?} from {a} leads to {got:?} instead of {at:?}"));
            }
            if g.find_node_by_path(a, path.iter().cloned()).map(|x| &x.data) != at.map(|x| &m.nodes[x].0) {
                return Err(format!("path {path:?} from {a} leads to wrong data"));
            }
        }
        4 => {
            let mut h = Graph::<String>::new();
            let mut hm = GModel::default();
            log.push("other graph:".into());
            for _ in 0..s.range(1, 12) {
                graph_op(s, &mut h, &mut hm, log, true)?;
            }
            check_graph(&h, &hm)?;
            let (a, b) = (s.below(n), s.below(hm.nodes.len()));
            log.push(format!("attach it: {a} -> its {b}"));
            let before: BTreeSet<(usize, usize)> = graph_edges(g, a).into_iter().collect();
            g.add_graph_at_node(h, a, b);
            for (d, es) in hm.nodes {
                m.nodes.push((d, es.into_iter().map(|e| (e.0, e.1 + n)).collect()));
            }
            auto_edge(g, m, a, b + n, &before)?;
        }
        _ => {
            let a = s.below(n);
            let d = format!("c{}", s.raw());
            log.push(format!("change node {a} to {d}"));
            g.nodes[a].data = d.clone();
            m.nodes[a].0 = d;
        }
    }
    Ok(())
}
fn auto_edge(g: &Graph<String>, m: &mut GModel, a: usize, b: usize, before: &BTreeSet<(usize, usize)>) -> Res {
    let new: Vec<(usize, usize)> = graph_edges(g, a).into_iter().filter(|e| !before.contains(e)).collect();
    match new[..] {
        [(id, t)] if t == b => {
            if m.nodes[a].1.iter().any(|e| e.0 >= id) {
                return Err(format!("the automatic identifier {id} of node {a} is not larger than all others"));
            }
            m.nodes[a].1.push((id, b));
            Ok(())
        }
        _ => Err(format!("an edge {a} -> {b} was added, new edges are {new:?}")),
    }
}
fn c16_simple(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = Graph::<String>::new();
    let mut m = GModel::default();
    let mut log = vec![];
    let n = hist_len(s, 70);
    let every = s.chance(30);
    let mut r = Ok(());
    for _ in 0..n {
        r = graph_op(s, &mut g, &mut m, &mut log, false);
        if r.is_ok() && every {
            r = check_graph(&g, &m);
        }
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = check_graph(&g, &m);
    }
    c.describe(|| log.join("\n"));
    c.label("plain graph");
    c.label_if(log.iter().any(|l| l.starts_with("attach")), "a graph is attached");
    c.label_if(m.nodes.iter().any(|x| x.1.len() > 5), "node with more than five edges");
    r?;
    if m.nodes.iter().any(|x| x.1.len() > 2) {
        c.nontrivial(&log);
    }
    Ok(())
}

fn c16_named(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = GraphNamedNodes::<String>::new();
    // (name, data, targets)
    let mut m: Vec<(usize, String, Vec<usize>)> = vec![];
    let mut log = vec![];
    let mut errors = 0;
    let n = hist_len(s, 60);
    let mut r: Res = Ok(());
    let span = s.range(2, 30);
    for _ in 0..n {
        r = (|| {
            let name = |s: &mut Src| if s.chance(5) { usize::MAX - s.below(3) } else { s.below(span) };
            let find = |m: &Vec<(usize, String, Vec<usize>)>, k: usize| m.iter().position(|x| x.0 == k);
            match s.weighted(&[30, 35, 10, 10, 10, 5]) {
                0 => {
                    let (k, d) = (name(s), format!("n{}", s.raw()));
                    let got = g.add_node(k, d.clone());
                    log.push(format!("add node {k} {d}"));
                    match (got, find(&m, k)) {
                        (Ok(i), None) if i == m.len() => m.push((k, d, vec![])),
                        (Err(_), Some(_)) => errors += 1,
                        (x, _) => return Err(format!("adding the node {k} gives {:?}", x.map_err(|e| e.to_string()))),
                    }
                }
                1 => {
                    let (a, b) = if m.len() > 1 && s.chance(80) { (s.pick(&m).0, s.pick(&m).0) } else { (name(s), name(s)) };
                    log.push(format!("add edge {a} -> {b}"));
                    match (g.add_edge(a, b), find(&m, a), find(&m, b)) {
                        (Ok(()), Some(i), Some(j)) => m[i].2.push(j),
                        (Err(_), None, _) | (Err(_), _, None) => errors += 1,
                        (x, ..) => return Err(format!("adding the edge {a} -> {b} gives {:?}", x.map_err(|e| e.to_string()))),
                    }
                }
                2 => {
                    let k = name(s);
                    log.push(format!("change node {k}"));
                    match (g.get_node_mut(k), find(&m, k)) {
                        (Ok(x), Some(i)) => {
                            x.data.push('!');
                            m[i].1.push('!');
                        }
                        (Err(_), None) => errors += 1,
                        (x, _) => return Err(format!("node {k} to be changed: found {}", x.is_ok())),
                    }
                }
                3 => {
                    let i = s.below(m.len() + 2);
                    log.push(format!("change node number {i}"));
                    match (g.get_node_mut_by_index(i), m.get_mut(i)) {
                        (Ok(x), Some(w)) => {
                            x.data.push('?');
                            w.1.push('?');
                        }
                        (Err(_), None) => errors += 1,
                        (x, _) => return Err(format!("node number {i} to be changed: found {}", x.is_ok())),
                    }
                }
                4 => {
                    let i = if s.chance(10) { usize::MAX } else { s.below(m.len() + 2) };
                    log.push(format!("look up node number {i}"));
                    match (g.get_node_by_index(i), m.get(i)) {
                        (Ok(x), Some(w)) if x.data == w.1 => {}
                        (Err(_), None) => errors += 1,
                        (x, _) => return Err(format!("node number {i}: found {}", x.is_ok())),
                    }
                }
                _ => {
                    let k = name(s);
                    log.push(format!("successors of {k}"));
                    let a = g.successors(k).is_ok();
                    let b = g.successor_indices(k).is_ok();
                    let want = find(&m, k).is_some();
                    if a != want || b != want {
                        return Err(format!("successors of {k}: found {a} {b}"));
                    }
                }
            }
            Ok(())
        })();
        if r.is_err() {
            break;
        }
    }
    let fin = (|| {
        for (i, (k, d, ts)) in m.iter().enumerate() {
            match g.get_node(*k) {
                Ok(x) if x.data == *d => {}
                _ => return Err(format!("node {k} is not found with its data")),
            }
            match g.get_node_by_index(i) {
                Ok(x) if x.data == *d => {}
                _ => return Err(format!("node number {i} is not found with its data")),
            }
            if g.names.get(k) != Some(&i) {
                return Err(format!("the name {k} is listed for {:?}", g.names.get(k)));
            }
            let mut want = ts.clone();
            want.sort();
            let mut a: Vec<usize> = g.successor_indices(*k).map_err(|e| e.to_string())?.collect();
            a.sort();
            let mut b: Vec<(usize, String)> = g.successors(*k).map_err(|e| e.to_string())?.map(|(i, x)| (i, x.data.clone())).collect();
            b.sort();
            let mut wb: Vec<(usize, String)> = ts.iter().map(|t| (*t, m[*t].1.clone())).collect();
            wb.sort();
            if a != want || b != wb {
                return Err(format!("successors of {k} are {a:?} {b:?} instead of {want:?}"));
            }
        }
        if g.names.len() != m.len() {
            return Err("more names than nodes".into());
        }
        for i in [m.len(), m.len() + 1, usize::MAX] {
            if g.get_node_by_index(i).is_ok() || g.get_node_mut_by_index(i).is_ok() {
                return Err(format!("node number {i} is found"));
            }
        }
        Ok(())
    })();
    c.describe(|| log.join("\n"));
    c.label("named graph");
    c.label_if(errors > 0, "a name or index is refused");
    r?;
    fin?;
    if m.len() > 2 && m.iter().any(|x| x.2.len() > 1) {
        c.nontrivial(&log);
    }
    Ok(())
}
fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(35) {
        c16_named(s, c)
    } else {
        c16_simple(s, c)
    }
}
fn c16_pinned() -> Vec<Pinned> {
    vec![pin("index into an empty named graph", |_| {
        let mut g = GraphNamedNodes::<u8>::new();
        match guard(|| g.get_node_by_index(0).is_err() && g.get_node_mut_by_index(0).is_err() && g.get_node_by_index(7).is_err() && g.get_node(0).is_err()) {
            Ok(true) => Ok(()),
            Ok(false) => Err("a node is found in an empty graph".into()),
            Err(p) => Err(p),
        }
    })]
}

// ------------------------------------------------------------------ C24

fn c24(s: &mut Src, c: &mut Ctx) -> Res {
    let mut pd = ParserData::<NullVm>::new();
    let mut syms: Vec<(String, bool)> = vec![]; // by number: name, is rule
    let mut rules: BTreeMap<usize, (Vec<Vec<usize>>, Vec<usize>)> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let pool: Vec<String> = {
        let mut v: Vec<String> = ["start", "a", "b", "A", "", " ", "ä", "a ", "ab", "#", "\"", "list"].iter().map(|x| x.to_string()).collect();
        if s.chance(6) {
            // long names that differ at one place only
            let n = s.range(8, 300);
            let long: Vec<char> = s.pick(&["x", "ab", "\u{e4}", "0_"]).repeat(n).chars().collect();
            for at in [0, s.below(long.len()), s.below(long.len()), long.len() - 1] {
                let mut w = long.clone();
                w[at] = 'Q';
                v.push(w.iter().collect());
            }
            v.push(long[1..].iter().collect());
            v.push(long.iter().collect());
        }
        if s.chance(40) {
            let k = if s.chance(10) { 30 + s.size(600) } else { 30 };
            v.extend((0..k).map(|i| format!("s{i}")));
            // names that could be taken for each other
            v.extend(["Ä", "a\u{308}", "START", "Start", "start ", " start", "star", "startt", "\u{e5}", "\u{212b}", "a\0", "1", "01"].map(String::from));
        }
        v
    };
    let n = hist_len(s, 70);
    let mut replaced = false;
    if s.chance(1) && s.chance(12) {
        // many symbols before the history starts
        let k = s.size(6000);
        for i in 0..k {
            let nt = i % 3 == 1;
            let nm = format!("p{}", i / 2);
            let ix = if nt { pd.get_or_add_non_terminal(&nm) } else { pd.get_or_add_terminal(&nm) };
            if syms.last() == Some(&(nm.clone(), nt)) {
                // the pair before was of the same kind
                if ix + 1 != syms.len() {
                    c.describe(|| format!("{k} symbols first"));
                    return Err(format!("{nm:?} has number {ix} instead of {}", syms.len() - 1));
                }
                continue;
            }
            if ix != syms.len() {
                c.describe(|| format!("{k} symbols first"));
                return Err(format!("{nm:?} has number {ix} instead of {}", syms.len()));
            }
            syms.push((nm, nt));
        }
        log.push(format!("{} symbols first", syms.len()));
    }
    let mut r: Res = Ok(());
    for _ in 0..n {
        r = (|| {
            let intern = |s: &mut Src, syms: &mut Vec<(String, bool)>, log: &mut Vec<String>, pd: &mut ParserData<NullVm>| -> Result<usize, String> {
                let nm = s.pick(&pool).clone();
                let nt = s.chance(50);
                let known = syms.iter().position(|x| x.0 == nm && x.1 == nt);
                let look = if nt { pd.get_element_nt_index(&nm) } else { pd.get_element_t_index(&nm) };
                if look != known {
                    return Err(format!("before: {nm:?} (rule: {nt}) is number {look:?} instead of {known:?}"));
                }
                let ev = ElementVerbose::new(nm.clone(), if nt { ElementType::NonTerminal } else { ElementType::Terminal });
                let ix = match (s.below(2), nt) {
                    (0, true) => pd.get_or_add_non_terminal(&nm),
                    (0, false) => pd.get_or_add_terminal(&nm),
                    _ => pd.get_or_add_element_key(&ev),
                };
                log.push(format!("number of {nm:?} ({}): {ix}", if nt { "rule" } else { "terminal" }));
                match known {
                    Some(k) if k == ix => {}
                    None if ix == syms.len() => syms.push((nm, nt)),
                    _ => return Err(format!("{nm:?} (rule: {nt}) has number {ix} instead of {:?}", known.unwrap_or(syms.len()))),
                }
                Ok(ix)
            };
            let prod = |s: &mut Src, syms: &Vec<(String, bool)>| -> Vec<usize> { (0..s.weighted(&[20, 30, 20, 15, 15])).map(|_| s.below(syms.len())).collect() };
            let op = s.weighted(&[40, 25, 12, 12]);
            if op == 0 || syms.iter().all(|x| !x.1) {
                intern(s, &mut syms, &mut log, &mut pd)?;
                return Ok(());
            }
            let nts: Vec<usize> = (0..syms.len()).filter(|&i| syms[i].1).collect();
            let ix = *s.pick(&nts);
            match op {
                1 => {
                    let p = prod(s, &syms);
                    log.push(format!("add to {ix}: {p:?}"));
                    pd.add_production(ix, p.clone());
                    rules.entry(ix).or_default().0.push(p);
                }
                2 => {
                    let ps: Vec<Vec<usize>> = (0..s.below(4)).map(|_| prod(s, &syms)).collect();
                    log.push(format!("set {ix}: {ps:?}"));
                    pd.set_productions(ix, ps.clone());
                    replaced |= rules.contains_key(&ix);
                    if rules.contains_key(&ix) || !ps.is_empty() {
                        rules.entry(ix).or_default().0 = ps;
                    }
                }
                _ => {
                    let v: Vec<usize> = (0..s.below(4)).map(|_| s.below(9)).collect();
                    log.push(format!("instructions of {ix}: {v:?}"));
                    pd.add_instructions(ix, v.clone());
                    rules.entry(ix).or_default().1 = v;
                }
            }
            Ok(())
        })();
        if r.is_err() {
            break;
        }
    }
    let as_rule: std::collections::BTreeSet<&String> = syms.iter().filter(|x| x.1).map(|x| &x.0).collect();
    let both = syms.iter().any(|x| !x.1 && as_rule.contains(&x.0));
    let fin = (|| {
        let all = pd.get_elements_verbose();
        if all.len() != syms.len() {
            return Err(format!("{} symbols are listed instead of {}", all.len(), syms.len()));
        }
        for (i, (nm, nt)) in syms.iter().enumerate() {
            let et = if *nt { ElementType::NonTerminal } else { ElementType::Terminal };
            let ev = ElementVerbose::new(nm.clone(), et);
            if all[i] != ev || pd.get_element_verbose(i) != Some(ev.clone()) {
                return Err(format!("number {i} is listed as {:?} / {:?} instead of {ev:?}", all[i], pd.get_element_verbose(i)));
            }
            if pd.get_element_index(&ev) != Some(i) {
                return Err(format!("{ev:?} has number {:?} instead of {i}", pd.get_element_index(&ev)));
            }
            let by = if *nt { pd.get_element_nt_index(nm) } else { pd.get_element_t_index(nm) };
            if by != Some(i) {
                return Err(format!("{ev:?} has number {by:?} instead of {i}"));
            }
            match pd.get_element(i) {
                Some(e) if e.ix == i && e.et == et => {}
                x => return Err(format!("element {i} is {x:?}")),
            }
            if pd.get_element_data(i).map(|d| d.name.clone()) != Some(nm.clone()) {
                return Err(format!("data of {i} are wrong"));
            }
            if *nt {
                let want = rules.get(&i);
                let shape = |r: Option<&NonTerminalRules<NullVm>>| {
                    r.map(|r| {
                        (
                            r.possible_productions
                                .iter()
                                .map(|p| match &**p {
                                    Production::Empty => vec![],
                                    Production::NotEmpty(v) => v.clone(),
                                })
                                .collect::<Vec<_>>(),
                            r.instruction.clone(),
                        )
                    })
                };
                let empties = pd.get_rule_by_key(i).map(|r| r.possible_productions.iter().any(|p| matches!(&**p, Production::NotEmpty(v) if v.is_empty()))).unwrap_or(false);
                let a = shape(pd.get_rule_by_key(i));
                let b = shape(pd.get_rule_by_element_verbose(nm));
                let e = shape(pd.get_element(i).and_then(|e| pd.get_rule_by_element(e)));
                if a.as_ref() != want || b.as_ref() != want || e.as_ref() != want || empties {
                    return Err(format!("rule {nm:?} is {a:?} / {b:?} / {e:?} instead of {want:?}"));
                }
            }
        }
        for i in [syms.len(), syms.len() + 1, usize::MAX] {
            if pd.get_element_verbose(i).is_some() || pd.get_element(i).is_some() || pd.get_element_data(i).is_some() || pd.get_rule_by_key(i).is_some() {
                return Err(format!("number {i} was never handed out but is known"));
            }
        }
        for nm in &pool {
            for nt in [true, false] {
                let want = syms.iter().position(|x| x.0 == *nm && x.1 == nt);
                let got = if nt { pd.get_element_nt_index(nm) } else { pd.get_element_t_index(nm) };
                if got != want {
                    return Err(format!("{nm:?} (rule: {nt}) has number {got:?} instead of {want:?}"));
                }
            }
        }
        // names that no rule has, of every kind
        for nm in pool.iter().chain(syms.iter().map(|x| &x.0).take(4)) {
            for nm in [nm.clone(), nm.to_uppercase(), nm.to_lowercase(), format!("{nm} "), nm.trim().to_string(), format!("{nm}\u{301}"), nm.chars().skip(1).collect()] {
                let known = syms.iter().position(|x| x.0 == nm && x.1).is_some_and(|i| rules.contains_key(&i));
                if pd.get_rule_by_element_verbose(&nm).is_some() != known {
                    return Err(format!("a rule called {nm:?} {}", if known { "is not found" } else { "is found, but there is none" }));
                }
            }
        }
        if pd.parse_rules.rules.len() != rules.len() {
            return Err(format!("{} rules instead of {}", pd.parse_rules.rules.len(), rules.len()));
        }
        Ok(())
    })();
    c.describe(|| log.join("\n"));
    c.label_if(both, "a rule and a terminal share a name");
    c.label_if(replaced, "alternatives are replaced");
    c.label_if(syms.len() > 20, "more than 20 symbols");
    c.label_if(syms.len() > 1000, "more than 1000 symbols");
    r?;
    fin?;
    if both && rules.values().any(|x| x.0.len() > 1) {
        c.nontrivial(&log);
    }
    Ok(())
}

fn c24_pinned() -> Vec<Pinned> {
    let mut v = vec![];
    v.push(pin("very long names that differ at one place", |_| {
        let mut pd = ParserData::<NullVm>::new();
        let mut names = vec![];
        for n in [32usize, 64, 127, 128, 129, 256, 1000, 5000, 70_000] {
            for c in ["x", "\u{e4}"] {
                let w = c.repeat(n);
                names.extend([format!("{w}1"), format!("{w}2"), format!("1{w}"), w.clone(), format!("{w}1{w}"), format!("{w}2{w}")]);
            }
        }
        for (i, nm) in names.iter().enumerate() {
            let (a, b) = (pd.get_or_add_non_terminal(nm), pd.get_or_add_terminal(nm));
            if (a, b) != (2 * i, 2 * i + 1) {
                return Err(format!("name {i}, of {} bytes, has the numbers {a} and {b} instead of {} and {}", nm.len(), 2 * i, 2 * i + 1));
            }
        }
        for (i, nm) in names.iter().enumerate() {
            if pd.get_element_nt_index(nm) != Some(2 * i) || pd.get_element_t_index(nm) != Some(2 * i + 1) || pd.get_element_verbose(2 * i).map(|x| x.name) != Some(nm.clone()) {
                return Err(format!("name {i}, of {} bytes, is not found", nm.len()));
            }
        }
        Ok(())
    }));
    for n in [255usize, 256, 257, 1000, 1023, 1024, 1025, 4096, 10_000, 65_535, 65_536, 65_537, 120_000] {
        v.push(pin(&format!("{n} symbols of each kind and {n} alternatives"), move |_| {
            let mut pd = ParserData::<NullVm>::new();
            let nm = |i: usize| format!("{}{i}", ["n", "\u{e4}", "x "][i % 3]);
            for i in 0..n {
                let (a, b) = (pd.get_or_add_non_terminal(&nm(i)), pd.get_or_add_terminal(&nm(i)));
                if (a, b) != (2 * i, 2 * i + 1) {
                    return Err(format!("symbols {i} have numbers {a}, {b}"));
                }
            }
            for i in 0..n {
                pd.add_production(2 * i, vec![2 * (n - 1 - i) + 1, 2 * i]);
                pd.add_production(0, vec![2 * i + 1; i % 5]);
            }
            pd.add_production(2, (0..2 * n).collect());
            let all = pd.get_elements_verbose();
            if all.len() != 2 * n {
                return Err(format!("{} symbols are listed instead of {}", all.len(), 2 * n));
            }
            for i in 0..n {
                if (pd.get_or_add_non_terminal(&nm(i)), pd.get_or_add_terminal(&nm(i))) != (2 * i, 2 * i + 1) {
                    return Err(format!("symbols {i} are numbered anew"));
                }
                for (k, et) in [(2 * i, ElementType::NonTerminal), (2 * i + 1, ElementType::Terminal)] {
                    let ev = ElementVerbose::new(nm(i), et);
                    if all[k] != ev || pd.get_element_verbose(k) != Some(ev.clone()) || pd.get_element_index(&ev) != Some(k) || !matches!(pd.get_element(k), Some(e) if e.ix == k && e.et == et && e == if et == ElementType::Terminal { Element::new_t(k) } else { Element::new_nt(k) }) {
                        return Err(format!("symbol {k} is not found as {ev:?}"));
                    }
                }
                let r = pd.get_rule_by_key(2 * i).map(|r| r.possible_productions.iter().map(|p| match &**p {
                    Production::Empty => vec![],
                    Production::NotEmpty(v) => v.clone(),
                }).collect::<Vec<_>>()).unwrap_or_default();
                let mut want = vec![];
                if i == 0 {
                    for j in 0..n {
                        if j == 0 {
                            want.push(vec![2 * (n - 1) + 1, 0]);
                        }
                        want.push(vec![2 * j + 1; j % 5]);
                    }
                } else {
                    want.push(vec![2 * (n - 1 - i) + 1, 2 * i]);
                    if i == 1 {
                        want.push((0..2 * n).collect());
                    }
                }
                if r != want {
                    return Err(format!("rule {i} has {} alternatives instead of {}, or others", r.len(), want.len()));
                }
            }
            Ok(())
        }));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "A case is a history of up to 140 edits and lookups on a tree (live, dead and forged handles), or a parse in which a machine edits the tree from its actions; after it (in a quarter of the cases after every step) every handle ever given out, all child lists, paths and descendants are compared with a model. Non-trivial: nodes were removed and their storage was used again.",
            max: 8000, quick: 400_000, thorough: 12_000_000, case: c15, pinned: c15_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C16",
            rule: "A case is a history of up to 70 operations on a plain graph (nodes, automatic and explicit edges, paths, attaching another graph) or on a named graph (with unknown and repeated names, out-of-range indices), compared with a model. Non-trivial: a node with more than two edges (plain), more than two nodes and one edge (named).",
            max: 6000, quick: 1_000_000, thorough: 40_000_000, case: c16, pinned: c16_pinned, known: no_known, cpu: 30,
        },
        Prop {
            id: "C24",
            rule: "A case is a history of up to 70 building calls (numbering rules and terminals, adding and replacing alternatives, setting instructions) over a small pool of names; all lookups are compared with a model. Non-trivial: a rule and a terminal share a name and a rule has more than one alternative.",
            max: 6000, quick: 1_600_000, thorough: 40_000_000, case: c24, pinned: c24_pinned, known: no_known, cpu: 30,
        },
    ]
}

//! Assembling a grammar through the programming interface in a random order of calls.
use crate::choices::Src;
use crate::grammar::*;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::vms::VM;

/// `instr[i]`: instructions of rule i, if any
pub fn build_shuffled<T: VM>(s: &mut Src, g: &Grammar, mut instr: Vec<Option<Vec<T::Tinstrution>>>, junk: bool) -> (ParserData<T>, Vec<usize>) {
    let mut pd = ParserData::<T>::new();
    // some symbols are numbered up front, in any order
    let mut order: Vec<Sym> = (0..g.n()).map(Sym::N).collect();
    let mut ts: Vec<String> = g
        .rules
        .iter()
        .flatten()
        .flatten()
        .filter_map(|x| if let Sym::T(t) = x { Some(t.clone()) } else { None })
        .collect();
    ts.sort();
    ts.dedup();
    order.extend(ts.into_iter().map(Sym::T));
    s.shuffle(&mut order);
    let upto = s.below(order.len() + 1);
    for x in &order[..upto] {
        match x {
            Sym::N(i) => {
                pd.get_or_add_non_terminal(&g.names[*i]);
            }
            Sym::T(t) => {
                pd.get_or_add_terminal(t);
            }
        }
    }
    let ids = |pd: &mut ParserData<T>, a: &Alt| -> Vec<usize> {
        a.iter()
            .map(|x| match x {
                Sym::N(i) => pd.get_or_add_non_terminal(&g.names[*i]),
                Sym::T(t) => pd.get_or_add_terminal(t),
            })
            .collect()
    };
    // per rule a queue of calls, interleaved
    enum Op {
        Add(usize),
        SetAll,
        SetFirst(usize),
        Junk,
        Instr,
        JunkInstr,
    }
    let mut queues: Vec<(usize, Vec<Op>)> = vec![];
    for i in 0..g.n() {
        if g.rules[i].is_empty() {
            continue;
        }
        let mut q = vec![];
        let n = g.rules[i].len();
        match if junk { s.below(4) } else { 0 } {
            0 => q.extend((0..n).map(Op::Add)),
            1 => q.push(Op::SetAll),
            2 => {
                q.push(Op::Junk);
                q.push(Op::SetAll);
            }
            _ => {
                let k = s.range(0, n);
                q.push(Op::SetFirst(k));
                q.extend((k..n).map(Op::Add));
            }
        }
        if instr[i].is_some() {
            let at = s.below(q.len() + 1);
            q.insert(at, Op::Instr);
            if junk && s.chance(20) {
                let b = s.below(at + 1);
                q.insert(b, Op::JunkInstr);
            }
        }
        q.reverse();
        queues.push((i, q));
    }
    while !queues.is_empty() {
        let qi = s.below(queues.len());
        let i = queues[qi].0;
        let op = queues[qi].1.pop().unwrap();
        let ix = pd.get_or_add_non_terminal(&g.names[i]);
        match op {
            Op::Add(k) => {
                let v = ids(&mut pd, &g.rules[i][k]);
                pd.add_production(ix, v);
            }
            Op::SetAll => {
                let v = g.rules[i].iter().map(|a| ids(&mut pd, a)).collect();
                pd.set_productions(ix, v);
            }
            Op::SetFirst(k) => {
                let v = g.rules[i][..k].iter().map(|a| ids(&mut pd, a)).collect();
                pd.set_productions(ix, v);
            }
            Op::Junk => {
                let t = pd.get_or_add_terminal("junk");
                pd.add_production(ix, vec![t, ix]);
                pd.add_production(ix, vec![]);
            }
            Op::Instr => {
                let v = instr[i].take().unwrap_or_default();
                pd.add_instructions(ix, v);
            }
            Op::JunkInstr => pd.add_instructions(ix, vec![]),
        }
        if queues[qi].1.is_empty() {
            queues.remove(qi);
        }
    }
    let map = g.names.iter().map(|n| pd.get_or_add_non_terminal(n)).collect();
    (pd, map)
}

//! C19, C20, C21: the two stack machines.
use crate::choices::Src;
use crate::grammar::relative;
use crate::runner::*;
use crate::sut::*;
use henriks_parsing_project::parser_data::{ElementVerbose, ParserData};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::simple_stack_vm::{Instruction as SI, SimpleStackVm, SimpleStackVmState};
use henriks_parsing_project::vms::stack_vm::{Instruction as WI, StackVm, StackVmState};
use henriks_parsing_project::vms::VM;
use std::path::PathBuf;

// ------------------------------------------------------------------ the instructions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum I {
    Add,
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    PushConst(i128),
    RegAddConst(i128),
    Pow(u64),
}
use I::*;
const PLAIN: &[(&str, I)] = &[
    ("Add", Add),
    ("Sub", Sub),
    ("Digit", Digit),
    ("PopToReg", PopToReg),
    ("PopToReg2", PopToReg2),
    ("PopDiscard", PopDiscard),
    ("PushFromTree", PushFromTree),
    ("PushReg", PushReg),
    ("PushReg2", PushReg2),
    ("PrintReg", PrintReg),
    ("PrintReg2", PrintReg2),
    ("PrintError", PrintError),
];
fn wide(i: I) -> WI {
    match i {
        Add => WI::Add,
        Sub => WI::Sub,
        Digit => WI::Digit,
        PopToReg => WI::PopToReg,
        PopToReg2 => WI::PopToReg2,
        PopDiscard => WI::PopDiscard,
        PushFromTree => WI::PushFromTree,
        PushReg => WI::PushReg,
        PushReg2 => WI::PushReg2,
        PrintReg => WI::PrintReg,
        PrintReg2 => WI::PrintReg2,
        PrintError => WI::PrintError,
        PushConst(c) => WI::PushConst(c as isize),
        RegAddConst(c) => WI::RegAddConst(c as isize),
        Pow(b) => WI::Pow(b as usize),
    }
}
fn unwide(i: &WI) -> I {
    match i {
        WI::Add => Add,
        WI::Sub => Sub,
        WI::Digit => Digit,
        WI::PopToReg => PopToReg,
        WI::PopToReg2 => PopToReg2,
        WI::PopDiscard => PopDiscard,
        WI::PushFromTree => PushFromTree,
        WI::PushReg => PushReg,
        WI::PushReg2 => PushReg2,
        WI::PrintReg => PrintReg,
        WI::PrintReg2 => PrintReg2,
        WI::PrintError => PrintError,
        WI::PushConst(c) => PushConst(*c as i128),
        WI::RegAddConst(c) => RegAddConst(*c as i128),
        WI::Pow(b) => Pow(*b as u64),
    }
}
fn simple(i: I) -> SI {
    match i {
        Add => SI::Add,
        Sub => SI::Sub,
        Digit => SI::Digit,
        PopToReg => SI::PopToReg,
        PopToReg2 => SI::PopToReg2,
        PopDiscard => SI::PopDiscard,
        PushFromTree => SI::PushFromTree,
        PushReg => SI::PushReg,
        PushReg2 => SI::PushReg2,
        PrintReg => SI::PrintReg,
        PrintReg2 => SI::PrintReg2,
        PrintError => SI::PrintError,
        PushConst(c) => SI::PushConst(c as usize),
        RegAddConst(c) => SI::RegAddConst(c as usize),
        Pow(b) => SI::Pow(b as usize),
    }
}

// ------------------------------------------------------------------ C19: model

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct St {
    pub stack: Vec<i128>,
    pub reg: i128,
    pub reg2: i128,
    pub error: u64,
}
impl St {
    fn of_wide(s: &StackVmState) -> St {
        St { stack: s.stack.iter().map(|x| *x as i128).collect(), reg: s.reg as i128, reg2: s.reg2 as i128, error: s.error as u64 }
    }
    fn of_simple(s: &SimpleStackVmState) -> St {
        St { stack: s.stack.iter().map(|x| *x as i128).collect(), reg: s.reg as i128, reg2: s.reg2 as i128, error: s.error as u64 }
    }
}
pub const MISSING: u64 = 1;
pub const NO_NUMBER: u64 = 2;
pub const NO_FIT: u64 = 3;

/// what the first child of the current node is
#[derive(Clone, Debug)]
enum Leaf {
    None,
    Text(String),
}
/// independent reading of a leaf: a sign (a minus only for the signed machine) and digits
fn number(t: &str, lo: i128, hi: i128) -> Option<i128> {
    let (neg, d) = match t.strip_prefix('-') {
        Some(r) if lo < 0 => (true, r),
        Some(_) => return None,
        None => (false, t.strip_prefix('+').unwrap_or(t)),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for b in d.bytes() {
        v = (v * 10 + i128::from(b - b'0')).min(1 << 100);
    }
    let v = if neg { -v } else { v };
    (lo..=hi).contains(&v).then_some(v)
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Eff {
    Exact,
    /// exponent below zero: no crash, and either an error or the exact value
    Open,
}
/// `None`: too large for anything
fn power(b: u64, e: i128) -> Option<i128> {
    if b < 2 {
        return Some(if b == 1 || e == 0 { 1 } else { 0 });
    }
    let mut r: i128 = 1;
    for _ in 0..e {
        r = r.checked_mul(b as i128).filter(|r| *r < 1 << 64)?;
    }
    Some(r)
}
struct Machine {
    lo: i128,
    hi: i128,
}
const WIDE: Machine = Machine { lo: isize::MIN as i128, hi: isize::MAX as i128 };
const SIMPLE: Machine = Machine { lo: 0, hi: usize::MAX as i128 };
impl Machine {
    fn fits(&self, v: i128) -> bool {
        (self.lo..=self.hi).contains(&v)
    }
    fn result(&self, s: &mut St, v: i128) {
        if self.fits(v) {
            s.stack.push(v);
        } else {
            s.error = NO_FIT;
        }
    }
    fn step(&self, i: I, leaf: &Leaf, s: &mut St, out: &mut String) -> Eff {
        match i {
            Digit => {}
            PushReg => s.stack.push(s.reg),
            PushReg2 => s.stack.push(s.reg2),
            PushConst(c) => s.stack.push(c),
            PrintReg => out.push_str(&format!("{}\n", s.reg)),
            PrintReg2 => out.push_str(&format!("{}\n", s.reg2)),
            PrintError => out.push_str(&format!("{}\n", s.error)),
            RegAddConst(c) => {
                if self.fits(s.reg + c) {
                    s.reg += c;
                } else {
                    s.error = NO_FIT;
                }
            }
            PushFromTree => match leaf {
                Leaf::None => s.error = MISSING,
                Leaf::Text(t) => match number(t, self.lo, self.hi) {
                    Some(v) => s.stack.push(v),
                    None => s.error = NO_NUMBER,
                },
            },
            Add | Sub | PopToReg | PopToReg2 | PopDiscard | Pow(_) => {
                let Some(v) = s.stack.pop() else {
                    s.error = MISSING;
                    return Eff::Exact;
                };
                match i {
                    Add => self.result(s, s.reg + v),
                    Sub => self.result(s, v - s.reg),
                    PopToReg => s.reg = v,
                    PopToReg2 => s.reg2 = v,
                    PopDiscard => {}
                    Pow(b) => {
                        if s.reg < 0 {
                            return Eff::Open;
                        }
                        match power(b, s.reg) {
                            _ if v == 0 => self.result(s, s.reg2),
                            Some(p) => self.result(s, v.saturating_mul(p).saturating_add(s.reg2)),
                            None => s.error = NO_FIT,
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        Eff::Exact
    }
}

/// one machine of the library
enum Real {
    Wide(StackVm, StackVmState),
    Simple(SimpleStackVm, SimpleStackVmState),
}
impl Real {
    fn set(&mut self, s: &St) {
        match self {
            Real::Wide(_, r) => {
                r.stack = s.stack.iter().map(|x| *x as isize).collect();
                r.reg = s.reg as isize;
                r.reg2 = s.reg2 as isize;
                r.error = s.error as usize;
            }
            Real::Simple(_, r) => {
                r.stack = s.stack.iter().map(|x| *x as usize).collect();
                r.reg = s.reg as usize;
                r.reg2 = s.reg2 as usize;
                r.error = s.error as usize;
            }
        }
    }
    fn get(&self) -> St {
        match self {
            Real::Wide(_, r) => St::of_wide(r),
            Real::Simple(_, r) => St::of_simple(r),
        }
    }
    fn exec(&mut self, t: &mut Tree<String>, cur: NodeId, i: I) {
        match self {
            Real::Wide(vm, r) => vm.execute_instruction(t, cur, &wide(i), r),
            Real::Simple(vm, r) => vm.execute_instruction(t, cur, &simple(i), r),
        }
    }
    fn machine(&self) -> &'static Machine {
        match self {
            Real::Wide(..) => &WIDE,
            Real::Simple(..) => &SIMPLE,
        }
    }
    fn fresh(wide: bool) -> Real {
        if wide {
            Real::Wide(StackVm {}, StackVm::create_new_state())
        } else {
            Real::Simple(SimpleStackVm {}, SimpleStackVm::create_new_state())
        }
    }
}

fn value(s: &mut Src, m: &Machine) -> i128 {
    let v = match s.weighted(&[40, 15, 15, 12, 10, 8]) {
        0 => s.below(12) as i128,
        1 => m.hi - s.below(4) as i128,
        2 => m.lo + s.below(4) as i128,
        3 => 10i128.pow(s.below(20) as u32),
        4 => (m.hi >> s.below(64)) + s.below(3) as i128 - 1,
        _ => s.u64() as i128,
    };
    let v = if m.lo < 0 && s.chance(30) { -v } else { v };
    v.clamp(m.lo, m.hi)
}
fn const_value(s: &mut Src, m: &Machine) -> i128 {
    value(s, m).clamp(m.lo, m.hi)
}
fn base(s: &mut Src) -> u64 {
    match s.weighted(&[40, 25, 15, 10, 10]) {
        0 => 10,
        1 => 2,
        2 => s.below(4) as u64,
        3 => u64::MAX - s.below(3) as u64,
        _ => s.u64() >> s.below(64),
    }
}
fn gen_instr(s: &mut Src, m: &Machine) -> I {
    match s.weighted(&[30, 18, 10, 14, 14, 14]) {
        0 => PLAIN[s.below(PLAIN.len())].1,
        1 => PushConst(const_value(s, m)),
        2 => RegAddConst(const_value(s, m)),
        3 => *s.pick(&[Add, Sub]),
        4 => Pow(base(s)),
        _ => *s.pick(&[PopToReg, PopToReg2, PushReg, PushReg2, PushFromTree]),
    }
}
fn leaf_text(s: &mut Src, m: &Machine) -> String {
    match s.weighted(&[30, 25, 45]) {
        0 => s.below(10).to_string(),
        1 => value(s, m).to_string(),
        _ => {
            let v = [
                "", "x", "1x", "x1", " 1", "1 ", "-", "+", "+7", "-0", "--1", "1.0", "1e3", "0x1", "١", "1_0", "007", "-5",
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                "18446744073709551615", "18446744073709551616", "00000000000000000000000000000000001", "1\0", "½",
                "_7", "7_", "'7", "7L", "7f", "7u8", "７", "7\u{301}", "\u{feff}7", "7\n", "\t7", "7;", "(7)", "+ 7", "- 7", "++7", "+-7", "−7", "0b1", "0o7", "#7", "$7", "7%", "Ⅶ", "VII", "inf", "NaN", "1,000", "1 000", "1'000", "true", "\"7\"",
            ];
            if s.chance(10) {
                // a number with one more character somewhere
                let mut t: Vec<char> = s.pick(&["7", "42", "-3"]).chars().collect();
                let at = s.below(t.len() + 1);
                let x = if s.chance(50) { relative(s, '7') } else { char::from_u32(33 + s.below(94) as u32).unwrap_or('!') };
                t.insert(at, x);
                return t.into_iter().collect();
            }
            s.pick(&v).to_string()
        }
    }
}

fn c19(s: &mut Src, c: &mut Ctx) -> Res {
    let is_wide = s.chance(50);
    let mut r = Real::fresh(is_wide);
    let m = r.machine();
    if r.get() != (St { stack: vec![], reg: 0, reg2: 0, error: 0 }) {
        return Err(format!("the new state is {:?}", r.get()));
    }
    // the tree: nodes with a leaf, with a rule below, with several, with nothing below, and a removed one
    let mut t = Tree::<String>::new();
    let mut at: Vec<(NodeId, Leaf)> = vec![];
    let root = t.add_node(String::new(), None).map_err(|e| e.to_string())?;
    for k in 0..s.range(2, 4) {
        // a rule node carries no text, but in a tree built by hand it may
        let own = if s.chance(85) { String::new() } else { leaf_text(s, m) };
        let n = t.add_node(own, Some(root)).map_err(|e| e.to_string())?;
        let kids = if k == 0 { 1 } else { s.below(4) };
        let mut first = Leaf::None;
        for j in 0..kids {
            let tx = leaf_text(s, m);
            let child = t.add_node(tx.clone(), Some(n)).map_err(|e| e.to_string())?;
            if s.chance(8) {
                let below = leaf_text(s, m);
                t.add_node(below, Some(child)).map_err(|e| e.to_string())?;
            }
            if j == 0 {
                first = Leaf::Text(tx);
            }
        }
        at.push((n, first));
    }
    let top = t.get_children(root).first().and_then(|x| t.get_node(*x).ok()).map(|x| x.data.clone()).unwrap_or_default();
    at.push((root, Leaf::Text(top)));
    let gone = t.add_node("4".into(), Some(root)).map_err(|e| e.to_string())?;
    t.add_node("5".into(), Some(gone)).map_err(|e| e.to_string())?;
    t.remove_branch(gone).map_err(|e| e.to_string())?;
    at.push((gone, Leaf::None));
    let mut st = St { stack: vec![], reg: 0, reg2: 0, error: 0 };
    if s.chance(70) {
        for _ in 0..s.below(7) {
            st.stack.push(value(s, m));
        }
        if s.chance(2) {
            let deep = s.size(3000);
            let v = value(s, m);
            for j in 0..deep {
                st.stack.insert(0, if j % 2 == 0 { v } else { j as i128 });
            }
            c.label_if(deep > 64, "a deep stack");
        }
        st.reg = value(s, m);
        st.reg2 = value(s, m);
        st.error = *s.pick(&[0, 0, 0, 1, 2, 3, 7]);
        r.set(&st);
    }
    let start = st.clone();
    let n = s.range(1, 24);
    let mut log: Vec<String> = vec![];
    let mut want_out = String::new();
    let mut faults = 0;
    let mut results = 0;
    let mut res = Ok(());
    for _ in 0..n {
        let i = gen_instr(s, m);
        let (node, leaf) = if s.chance(70) { at[0].clone() } else { s.pick(&at).clone() };
        log.push(format!("{i:?}{}", if i == PushFromTree { format!(" {leaf:?}") } else { String::new() }));
        let before = st.clone();
        let eff = m.step(i, &leaf, &mut st, &mut want_out);
        if let Err(p) = guard(|| r.exec(&mut t, node, i)) {
            res = Err(format!("{i:?} in {before:?}: {p}"));
            break;
        }
        let got = r.get();
        match eff {
            Eff::Exact => {
                if got != st {
                    res = Err(format!("{i:?} in {before:?} with leaf {leaf:?} gives {got:?} instead of {st:?}"));
                    break;
                }
                let faulty = matches!(i, RegAddConst(_)) && st.reg == before.reg && st.error == NO_FIT
                    || matches!(i, Add | Sub | Pow(_)) && st.stack.len() != before.stack.len()
                    || matches!(i, PopToReg | PopToReg2 | PopDiscard | PushFromTree) && st.stack.len() == before.stack.len()
                    || matches!(i, Add | Sub | Pow(_)) && before.stack.is_empty();
                faults += usize::from(faulty);
                results += usize::from(matches!(i, Add | Sub | Pow(_) | RegAddConst(_)) && !faulty);
            }
            Eff::Open => {
                let mut rest = got.clone();
                let ok = if got.stack.len() == st.stack.len() {
                    rest.error = st.error;
                    got.error != 0 && rest == st
                } else {
                    let v = rest.stack.pop().unwrap_or(0);
                    let Pow(b) = i else { unreachable!() };
                    // v - reg2 = val * b^reg, reg < 0
                    let val = *before.stack.last().unwrap();
                    rest == st && {
                        match power(b, -st.reg) {
                            Some(p) => (v - st.reg2) * p == val,
                            None => val == 0 && v == st.reg2,
                        }
                    }
                };
                if !ok {
                    res = Err(format!("{i:?} in {before:?} gives {got:?}: neither an error nor the exact value"));
                    break;
                }
                st = got;
                c.label("exponent below zero");
            }
        }
    }
    let out = Capture::take(&c.dir);
    if res.is_ok() && out != want_out {
        res = Err(format!("prints {out:?} instead of {want_out:?}"));
    }
    c.label(if is_wide { "StackVm" } else { "SimpleStackVm" });
    c.label_if(faults > 0, "a fault is recorded");
    c.label_if(st.error == NO_FIT, "a result does not fit");
    c.label_if(!want_out.is_empty(), "prints");
    c.label_if(results > 0, "a result that fits");
    if results + faults >= 2 {
        c.nontrivial(&(is_wide, &log, format!("{start:?}")));
    }
    c.describe(|| format!("{} in {start:?}: {}", if is_wide { "StackVm" } else { "SimpleStackVm" }, log.join("; ")));
    res
}

/// a fixed program
fn c19_fixed(c: &Ctx, is_wide: bool, start: St, prog: &[I], leaf: &str) -> Res {
    let mut r = Real::fresh(is_wide);
    let m = r.machine();
    let mut t = Tree::<String>::new();
    let root = t.add_node(String::new(), None).map_err(|e| e.to_string())?;
    t.add_node(leaf.to_string(), Some(root)).map_err(|e| e.to_string())?;
    r.set(&start);
    let mut st = start;
    let mut out = String::new();
    for i in prog {
        let before = st.clone();
        m.step(*i, &Leaf::Text(leaf.into()), &mut st, &mut out);
        guard(|| r.exec(&mut t, root, *i)).map_err(|p| format!("{i:?} in {before:?}: {p}"))?;
        if r.get() != st {
            return Err(format!("{i:?} in {before:?} gives {:?} instead of {st:?}", r.get()));
        }
    }
    let got = Capture::take(&c.dir);
    if got != out {
        return Err(format!("prints {got:?} instead of {out:?}"));
    }
    Ok(())
}
fn c19_pinned() -> Vec<Pinned> {
    let z = || St { stack: vec![], reg: 0, reg2: 0, error: 0 };
    let mut v = vec![];
    for w in [true, false] {
        let n = if w { "StackVm" } else { "SimpleStackVm" };
        let (lo, hi) = if w { (WIDE.lo, WIDE.hi) } else { (SIMPLE.lo, SIMPLE.hi) };
        let mut p = |name: &str, st: St, prog: Vec<I>, leaf: &'static str| {
            v.push(pin(&format!("{n}: {name}"), move |c| c19_fixed(c, w, st.clone(), &prog, leaf)));
        };
        p("sum too large", St { stack: vec![hi], reg: 1, ..z() }, vec![Add, PushReg], "1");
        p("difference too small", St { stack: vec![lo], reg: 1, ..z() }, vec![Sub, PushReg], "1");
        p("power too large", St { stack: vec![1], reg: 64, ..z() }, vec![Pow(10), PushReg], "1");
        p("zero times a large power", St { stack: vec![0], reg: 64, reg2: 5, ..z() }, vec![Pow(10)], "1");
        p("large exponent of one", St { stack: vec![3], reg: 1 << 33, reg2: 5, ..z() }, vec![Pow(1)], "1");
        p("large exponent of zero", St { stack: vec![3], reg: 1 << 32, reg2: 5, ..z() }, vec![Pow(0)], "1");
        p("exponent over 32 bits", St { stack: vec![3], reg: 1 << 32, reg2: 5, ..z() }, vec![Pow(2)], "1");
        p("register too large", St { reg: hi, ..z() }, vec![RegAddConst(1)], "1");
        p("every instruction on nothing", z(), PLAIN.iter().map(|x| x.1).collect(), "7");
        p("leaf too large", z(), vec![PushFromTree], "18446744073709551616");
        let many = |i: I| (0..700).map(move |_| i);
        p("a stack that grows and shrinks", z(), many(PushConst(3)).chain(many(PushReg)).chain(many(PushReg2)).chain(many(PushFromTree)).chain(many(Add)).chain(many(Sub)).chain(many(PopDiscard)).chain(many(PopToReg2)).collect(), "7");
        let deep: Vec<i128> = (0..70_000).collect();
        p("a very deep stack", St { stack: deep, ..z() }, vec![PushConst(5), PushReg, PopToReg, PushFromTree, Add, PopDiscard, PopToReg2, PushReg2, Sub], "7");
    }
    v.push(pin("StackVm: product out of range, sum within", |c| {
        c19_fixed(c, true, St { stack: vec![1], reg: 63, reg2: -1, error: 0 }, &[Pow(2)], "1")
    }));
    v.push(pin("StackVm: smallest number", |c| c19_fixed(c, true, St { stack: vec![-1], reg: 63, reg2: 0, error: 0 }, &[Pow(2)], "1")));
    v
}

// ------------------------------------------------------------------ C20

/// independent reader of action code
#[derive(Debug, PartialEq, Eq)]
enum Code {
    Is(Vec<I>),
    Refused,
    /// white space before a semicolon, or a name that is no instruction: refused, or read as if it were not there
    Open(Vec<I>),
}
fn read_code(text: &str) -> Code {
    let t: Vec<char> = text.chars().collect();
    let mut p = 0;
    let ws = |p: &mut usize| {
        let a = *p;
        while *p < t.len() && t[*p].is_whitespace() {
            *p += 1;
        }
        *p > a
    };
    let mut out = vec![];
    let mut open = false;
    ws(&mut p);
    while p < t.len() {
        let a = p;
        while p < t.len() && (t[p].is_alphabetic() || p > a && (t[p].is_alphanumeric() || t[p] == '_')) {
            p += 1;
        }
        let name: String = t[a..p].iter().collect();
        if name.is_empty() {
            return Code::Refused;
        }
        if let Some((_, i)) = PLAIN.iter().find(|x| x.0 == name) {
            out.push(*i);
        } else if ["PushConst", "RegAddConst", "Pow"].contains(&name.as_str()) {
            ws(&mut p);
            let a = p;
            while p < t.len() && t[p].is_ascii_digit() {
                p += 1;
            }
            if a == p {
                return Code::Refused;
            }
            let mut v: i128 = 0;
            for x in &t[a..p] {
                v = (v * 10 + x.to_digit(10).unwrap() as i128).min(1 << 100);
            }
            if v > if name == "Pow" { usize::MAX as i128 } else { isize::MAX as i128 } {
                return Code::Refused;
            }
            out.push(match name.as_str() {
                "PushConst" => PushConst(v),
                "RegAddConst" => RegAddConst(v),
                _ => Pow(v as u64),
            });
        } else {
            open = true;
        }
        open |= ws(&mut p);
        if p >= t.len() || t[p] != ';' {
            return Code::Refused;
        }
        p += 1;
        ws(&mut p);
    }
    if open {
        Code::Open(out)
    } else {
        Code::Is(out)
    }
}
const WS: &[char] = &[' ', ' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{b}', '\u{2028}'];
fn some_ws(s: &mut Src, least: usize) -> String {
    let n = least + s.weighted(&[60, 25, 10, 5]);
    (0..n).map(|_| *s.pick(WS)).collect()
}
fn operand(s: &mut Src, signed: bool) -> (String, i128) {
    let hi = if signed { isize::MAX as i128 } else { usize::MAX as i128 };
    let v: i128 = match s.weighted(&[45, 20, 20, 15]) {
        0 => s.below(20) as i128,
        1 => hi - s.below(3) as i128,
        2 => (s.u64() >> s.below(64)) as i128 & hi,
        _ => 10i128.pow(s.below(19) as u32),
    };
    let zeros = if s.chance(12) { s.range(1, 30) } else { 0 };
    (format!("{}{v}", "0".repeat(zeros)), v)
}
pub fn gen_code(s: &mut Src) -> (String, Vec<I>) {
    let n = match s.weighted(&[45, 40, 12, 3]) {
        0 => s.below(5),
        1 => s.range(3, 12),
        2 => s.range(12, 60),
        _ => s.range(100, 300),
    };
    let mut t = some_ws(s, 0);
    let mut l = vec![];
    for _ in 0..n {
        let k = s.below(PLAIN.len() + 6);
        if k < PLAIN.len() {
            t.push_str(PLAIN[k].0);
            l.push(PLAIN[k].1);
        } else {
            let name = ["PushConst", "RegAddConst", "Pow"][(k - PLAIN.len()) % 3];
            let (d, v) = operand(s, name != "Pow");
            t.push_str(name);
            t.push_str(&some_ws(s, 1));
            t.push_str(&d);
            l.push(match name {
                "PushConst" => PushConst(v),
                "RegAddConst" => RegAddConst(v),
                _ => Pow(v as u64),
            });
        }
        t.push(';');
        t.push_str(&some_ws(s, 0));
    }
    if s.chance(1) {
        // very many
        let k = s.size(6000) / l.len().max(1);
        t = t.repeat(k + 1);
        l = l.repeat(k + 1);
    }
    (t, l)
}
fn mutate_code(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 2) {
        let at = s.below(v.len() + 1);
        match s.weighted(&[25, 15, 15, 15, 10, 10, 10]) {
            0 if !v.is_empty() => {
                v.remove(at.min(v.len() - 1));
            }
            1 => v.insert(at, ';'),
            2 => v.insert(at, *s.pick(&['1', '0', '9', '-', '+', '.', '_', '٣', '²'])),
            3 => v.insert(at, *s.pick(&['x', 'A', 'ä', '"', '(', ',', ' ', '\n', '#', '\\', '😀', '\0'])),
            4 => {
                // drop one of the semicolons
                let ix: Vec<usize> = (0..v.len()).filter(|i| v[*i] == ';').collect();
                if !ix.is_empty() {
                    let i = *s.pick(&ix);
                    v.remove(i);
                }
            }
            5 => {
                // drop or blow up an operand
                let ix: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
                if !ix.is_empty() {
                    let i = *s.pick(&ix);
                    if s.chance(50) {
                        let mut j = i;
                        while j < v.len() && v[j].is_ascii_digit() {
                            v.remove(j);
                        }
                        j = i;
                        while j > 0 && v[j - 1].is_ascii_digit() {
                            j -= 1;
                            v.remove(j);
                        }
                    } else {
                        let big = ["9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456"];
                        let b = *s.pick(&big);
                        let mut a = i;
                        while a > 0 && v[a - 1].is_ascii_digit() {
                            a -= 1;
                        }
                        while a < v.len() && v[a].is_ascii_digit() {
                            v.remove(a);
                        }
                        for (k, ch) in b.chars().enumerate() {
                            v.insert(a + k, ch);
                        }
                    }
                }
            }
            _ => {
                let k = at.min(v.len());
                v.truncate(k);
            }
        }
    }
    v.into_iter().collect()
}
fn real_code(text: &str, inner: bool) -> Result<Result<(Vec<I>, bool), String>, String> {
    let vm = StackVm {};
    guard(|| {
        let mut pw = PeekableWrapper::from_str(text);
        let mut pp = ParseProcess::new(&mut pw, None, None);
        if inner {
            let mut q = ParseProcess::new_nested(&mut pp, Some('}'), Some('\\'), 0);
            match vm.parse_instructions("r", &mut q) {
                Ok(l) => Ok((l.iter().map(unwide).collect(), q.peek().is_none())),
                Err(e) => Err(format!("{e:?}")),
            }
        } else {
            match vm.parse_instructions("r", &mut pp) {
                Ok(l) => Ok((l.iter().map(unwide).collect(), pp.peek().is_none())),
                Err(e) => Err(format!("{e:?}")),
            }
        }
    })
}
/// through a grammar: the instructions stored for the rule
fn grammar_code(text: &str) -> Result<Result<(Vec<I>, bool), String>, String> {
    let g = format!("start -> \"a\" r;r -> \"b\" {{{text}}};");
    let vm = StackVm {};
    match read_text(&g, &vm)? {
        Err(e) => Ok(Err(e)),
        Ok(pd) => {
            let Some(ix) = pd.get_element_index(&ElementVerbose::new_nt("r".into())) else { return Ok(Err("no rule r".into())) };
            match pd.parse_rules.rules.get(&ix) {
                Some(r) => Ok(Ok((r.instruction.iter().map(unwide).collect(), true))),
                None => Ok(Err("no rule r".into())),
            }
        }
    }
}
fn c20_compare(text: &str, how: &str, want: &Code, got: Result<Result<(Vec<I>, bool), String>, String>) -> Res {
    let got = got.map_err(|p| format!("reading {text:?} ({how}) {p}"))?;
    let bad = |w: &str| Err(format!("code {text:?} ({how}) {w}: {got:?}"));
    match (want, &got) {
        (Code::Is(l), Ok((g, true))) if l == g => Ok(()),
        (Code::Is(l), Ok((g, end))) => bad(&format!("is read into something other than {l:?} ({} of {}, all read: {end})", g.len(), l.len())),
        (Code::Is(_), Err(_)) => bad("is refused"),
        (Code::Refused, Err(_)) => Ok(()),
        (Code::Refused, Ok(_)) => bad("is wrong, but is read"),
        (Code::Open(_), Err(_)) => Ok(()),
        (Code::Open(l), Ok((g, true))) if l == g => Ok(()),
        (Code::Open(l), Ok(_)) => bad(&format!("is read into something other than {l:?}")),
    }
}
fn c20(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut text, list) = gen_code(s);
    let mutated = s.chance(55);
    if mutated {
        text = mutate_code(s, &text);
    } else if read_code(&text) != Code::Is(list.clone()) {
        return Err(format!("HARNESS: own reader misreads {text:?}"));
    }
    let want = read_code(&text);
    let how = s.below(3);
    c.describe(|| format!("code {text:?}: {want:?}"));
    c.label(match (&want, mutated) {
        (Code::Is(_), false) => "code as generated",
        (Code::Is(_), true) => "altered code, still right",
        (Code::Refused, _) => "altered code, wrong",
        (Code::Open(_), _) => "altered code, unspecified",
    });
    if list.len() >= 2 {
        c.nontrivial(&(&text, how));
    }
    // a brace or backslash would end the view or be an escape
    let plain = !text.contains(['}', '\\']);
    match how {
        1 if plain => c20_compare(&text, "bounded view", &want, real_code(&text, true)),
        2 if plain => c20_compare(&text, "grammar", &want, grammar_code(&text)),
        _ => c20_compare(&text, "text", &want, real_code(&text, false)),
    }
}
fn c20_pinned() -> Vec<Pinned> {
    let codes: &'static [&'static str] = &[
        "", " ", ";", "Add;", "Add", "Add;;", "Add;Sub", "Pow 10;", "Pow10;", "Pow;", "Pow ;", "Pow -1;", "PushConst 9223372036854775807;",
        "PushConst 9223372036854775808;", "PushConst 18446744073709551615;", "RegAddConst 9223372036854775808;", "Pow 18446744073709551615;",
        "Pow 18446744073709551616;", "PushConst 1 2;", "PushConst 1,", "PushConst 1;2;", "PushConst\n1;", "PopToReg2;PopToReg;PushReg2;PushReg;PrintReg2;PrintReg;",
        "RegAddConst 18446744073709551616;", "PushConst 00000000000000000000000000007;", "PushConst ٣;", "Add;\u{a0}Sub;\u{2003}", "PushConst x;", "Digit;PushFromTree;PopDiscard;PrintError;",
    ];
    let mut v = vec![pin("70000 instructions", |_| {
        let t = "Add;PushConst 7; Pow 10;".repeat(70_000 / 3);
        c20_compare(&t, "text", &read_code(&t), real_code(&t, false))?;
        c20_compare(&t, "bounded view", &read_code(&t), real_code(&t, true))?;
        c20_compare(&t, "grammar", &read_code(&t), grammar_code(&t))
    })];
    v.extend(codes
        .iter()
        .map(|t| {
            pin(&format!("code {t:?}"), move |_| {
                c20_compare(t, "text", &read_code(t), real_code(t, false))?;
                c20_compare(t, "bounded view", &read_code(t), real_code(t, true))?;
                c20_compare(t, "grammar", &read_code(t), grammar_code(t))
            })
        }));
    v
}

// ------------------------------------------------------------------ C21

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("REPO_DIR").unwrap_or("/repo".into()))
}
/// the grammar of examples/rust_defined_rules.rs
fn calculator_in_code() -> (ParserData<StackVm>, usize) {
    let mut p = ParserData::<StackVm>::new();
    let n = |p: &mut ParserData<StackVm>, x: &str| p.get_or_add_non_terminal(x);
    let start = n(&mut p, "start");
    let terms = n(&mut p, "terms");
    let terms_s = n(&mut p, "terms_s");
    let term = n(&mut p, "term");
    let add = n(&mut p, "add");
    let sub = n(&mut p, "sub");
    let number = n(&mut p, "number");
    let print = n(&mut p, "print");
    let number_s = n(&mut p, "number_s");
    let number_s_ = n(&mut p, "number_s_");
    let digit = n(&mut p, "digit");
    let blank = n(&mut p, "whitespace");
    let t_plus = p.get_or_add_terminal("+");
    let t_minus = p.get_or_add_terminal("-");
    let t_print = p.get_or_add_terminal("print");
    let t_blank = p.get_or_add_terminal(" ");
    p.add_production(start, vec![terms]);
    p.add_production(terms, vec![term, terms_s]);
    p.add_production(terms_s, vec![blank, term, terms_s]);
    p.add_production(terms_s, vec![]);
    for x in [add, sub, number, print] {
        p.add_production(term, vec![x]);
    }
    p.add_production(print, vec![t_print]);
    p.add_instructions(print, vec![WI::PopToReg, WI::PrintReg]);
    p.add_production(add, vec![t_plus]);
    p.add_instructions(add, vec![WI::PopToReg, WI::Add]);
    p.add_production(sub, vec![t_minus]);
    p.add_instructions(sub, vec![WI::PopToReg, WI::Sub]);
    p.add_production(number, vec![digit, number_s]);
    p.add_instructions(number, vec![WI::PopDiscard]);
    p.add_production(number_s, vec![number_s_]);
    p.add_production(number_s, vec![]);
    p.add_production(number_s_, vec![digit, number_s]);
    p.add_instructions(number_s_, vec![WI::PopToReg, WI::PopToReg2, WI::PopDiscard, WI::Pow(10), WI::RegAddConst(1), WI::PushReg]);
    let ds: Vec<Vec<usize>> = (0..10).map(|d| vec![p.get_or_add_terminal(&d.to_string())]).collect();
    p.set_productions(digit, ds);
    p.add_instructions(digit, vec![WI::PushFromTree, WI::PushConst(1)]);
    p.add_production(blank, vec![t_blank]);
    (p, start)
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Calc {
    stack: Vec<i128>,
    out: String,
    fault: Option<&'static str>,
}
/// direct evaluation; stops at the first fault
fn evaluate(script: &str, lo: i128, hi: i128) -> Option<Calc> {
    let mut r = Calc { stack: vec![], out: String::new(), fault: None };
    let word = |w: &str| matches!(w, "+" | "-" | "print") || !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit());
    if !script.split(' ').all(word) {
        return None;
    }
    for w in script.split(' ') {
        let v = match w {
            "+" | "-" => {
                let (Some(b), a) = (r.stack.pop(), r.stack.pop()) else {
                    r.fault = Some("operand");
                    return Some(r);
                };
                let Some(a) = a else {
                    r.fault = Some("operand");
                    return Some(r);
                };
                if w == "+" {
                    a + b
                } else {
                    a - b
                }
            }
            "print" => {
                let Some(v) = r.stack.pop() else {
                    r.fault = Some("operand");
                    return Some(r);
                };
                r.out.push_str(&format!("{v}\n"));
                continue;
            }
            d => d.bytes().fold(0i128, |v, b| (v * 10 + i128::from(b - b'0')).min(1 << 100)),
        };
        if v < lo || v > hi {
            r.fault = Some("range");
            return Some(r);
        }
        r.stack.push(v);
    }
    Some(r)
}

fn calc_number(s: &mut Src, large: bool) -> String {
    let v: u128 = match s.weighted(if large { &[50, 20, 12, 10, 8] } else { &[80, 0, 0, 0, 0, 20] }) {
        5 => 10u128.pow(s.below(10) as u32) - s.below(2) as u128,
        0 => s.below(100) as u128,
        1 => s.u64() as u128 >> s.below(64),
        2 => (isize::MAX as u128) + 2 - s.below(5) as u128,
        3 => 10u128.pow(s.below(21) as u32) - s.below(2) as u128,
        _ => (usize::MAX as u128) + 2 - s.below(4) as u128,
    };
    let zeros = if s.chance(10) { s.range(1, 30) } else { 0 };
    format!("{}{v}", "0".repeat(zeros))
}
fn calc_script(s: &mut Src) -> String {
    let n = match s.weighted(&[50, 40, 10]) {
        0 => s.range(1, 8),
        1 => s.range(5, 30),
        _ => s.range(30, 120),
    };
    let mut depth = 0usize;
    let mut w: Vec<String> = vec![];
    let tidy = s.chance(80);
    let large = s.chance(35);
    for _ in 0..n {
        let k = match depth {
            _ if !tidy => s.below(4),
            0 => 0,
            1 => s.weighted(&[80, 0, 0, 20]),
            _ => s.weighted(&[35, 25, 25, 15]),
        };
        match k {
            0 => {
                w.push(calc_number(s, large));
                depth += 1;
            }
            1 | 2 => {
                w.push(if k == 1 { "+" } else { "-" }.into());
                depth = depth.saturating_sub(1);
            }
            _ => {
                w.push("print".into());
                depth = depth.saturating_sub(1);
            }
        }
    }
    w.join(" ")
}

struct Ran {
    ok: bool,
    st: St,
    out: String,
    what: String,
}
fn run_calc(which: usize, script: &str, c: &Ctx) -> Result<Ran, String> {
    let file = |f: &str| std::fs::read_to_string(repo().join("examples").join(f)).map_err(|e| format!("HARNESS: {f}: {e}"));
    let fail = |p: String| format!("calculator {which} on {script:?} {p}");
    let _ = Capture::take(&c.dir);
    let (o, st) = match which {
        0 | 2 => {
            let vm = StackVm {};
            let mut st = StackVm::create_new_state();
            let mut p = if which == 0 {
                let text = file("stack_based_math.txt")?;
                parser_text(&text, &vm)?
            } else {
                let (pd, ix) = calculator_in_code();
                guard(|| Parser::new_from_parser_data(pd, ix, &vm)).map_err(fail)?
            };
            let o = parse_with(&mut p, script, &mut st);
            (o, St::of_wide(&st))
        }
        _ => {
            let vm = SimpleStackVm {};
            let mut st = SimpleStackVm::create_new_state();
            let text = file("simple_stack_based_math.txt")?;
            let mut p = parser_text(&text, &vm)?;
            let o = parse_with(&mut p, script, &mut st);
            (o, St::of_simple(&st))
        }
    };
    if let Outcome::Panic(p) = o {
        return Err(format!("calculator {which} on {script:?} {p}"));
    }
    Ok(Ran { ok: o.accepted(), st, out: Capture::take(&c.dir), what: o.short() })
}
fn c21_one(script: &str, c: &mut Ctx) -> Res {
    for which in 0..3 {
        let m = if which == 1 { &SIMPLE } else { &WIDE };
        let r = run_calc(which, script, c)?;
        let name = ["StackVm", "SimpleStackVm", "StackVm, grammar in code"][which];
        let Some(want) = evaluate(script, m.lo, m.hi) else {
            if r.ok {
                return Err(format!("{name} accepts {script:?}"));
            }
            c.label("no sentence");
            continue;
        };
        if !r.ok {
            return Err(format!("{name} refuses {script:?}: {}", r.what));
        }
        let got = format!("stack {:?} out {:?} error {}", r.st.stack, r.out, r.st.error);
        match want.fault {
            None => {
                if r.st.stack != want.stack || r.out != want.out || r.st.error != 0 {
                    return Err(format!("{name} on {script:?}: {got} instead of {want:?}"));
                }
                c.label("evaluated");
            }
            Some(f) => {
                if r.st.error == 0 {
                    return Err(format!("{name} on {script:?} records no error, but an {f} is missing or too large: {got}"));
                }
                if !r.out.starts_with(&want.out) {
                    return Err(format!("{name} on {script:?}: {got}, but it prints {:?} before the fault", want.out));
                }
                c.label(if f == "range" { "a value does not fit" } else { "an operand is missing" });
            }
        }
    }
    Ok(())
}
fn c21(s: &mut Src, c: &mut Ctx) -> Res {
    let mut script = calc_script(s);
    if s.chance(5) {
        // not a sentence, or another one
        let mut v: Vec<char> = script.chars().collect();
        let at = s.below(v.len() + 1);
        match s.below(3) {
            0 => v.insert(at, ' '),
            1 => v.insert(at, *s.pick(&['p', '+', '.', 'a', '\n'])),
            _ => {
                v.truncate(at);
            }
        }
        script = v.into_iter().collect();
    }
    let words = script.split(' ').count();
    if words >= 3 {
        c.nontrivial(&script);
    }
    c.describe(|| format!("script {script:?}"));
    c21_one(&script, c)
}
fn c21_pinned() -> Vec<Pinned> {
    let scripts: &'static [&'static str] = &[
        "1 2 + 3 + 4 - print", "0", "00000000000000000000000000000000000000000000000007 print", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "18446744073709551616", "9223372036854775807 1 +", "18446744073709551615 1 +", "0 1 -", "0 1 - print", "+", "1 +", "1 -", "print", "1 print", "1 2 print print", "",
        " ", "1 ", " 1", "1  2", "1 2+", "12 3 4 - - print", "100000000000000000000000000000 1", "10 100 1000 + +", "1 print 2 print + 3", "printprint", "print print",
    ];
    scripts.iter().map(|t| pin(&format!("script {t:?}"), move |c| c21_one(t, c))).collect()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "one of the two machines, a tree with leaves that are and are not numbers, a random state (small values, range limits, powers of ten, any 64 bits), 1-24 instructions with such operands; after each the whole state is compared with a model in 128-bit integers, at the end the captured standard output; non-trivial: at least two instructions computed a result or recorded a fault",
            max: 220,
            quick: 3_000_000,
            thorough: 100_000_000,
            case: c19,
            pinned: c19_pinned,
            known: no_known,
            cpu: 10,
        },
        Prop {
            id: "C20",
            rule: "a list of 0-300 instructions with operands up to the limits, rendered with random white space; in 55% altered (characters dropped or inserted, semicolons and operands dropped, operands blown up, cut off); read as plain text, in a bounded view or in a grammar, compared with an independent reader; non-trivial: at least two instructions were rendered",
            max: 400,
            quick: 3_000_000,
            thorough: 100_000_000,
            case: c20,
            pinned: c20_pinned,
            known: no_known,
            cpu: 10,
        },
        Prop {
            id: "C21",
            rule: "postfix scripts of 1-120 words (80% well formed, numbers up to beyond the machine limits and with leading zeros, 5% altered) run by the two calculator grammars of the repository and the one built in code; stack, output and error field compared with direct evaluation; non-trivial: at least three words",
            max: 700,
            quick: 160_000,
            thorough: 8_000_000,
            case: c21,
            pinned: c21_pinned,
            known: no_known,
            cpu: 10,
        },
    ]
}

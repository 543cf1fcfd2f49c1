//! Virtual machines defined outside the library: they record what the library hands them.
use crate::grammar::FlatTree;
use crate::sut::flatten;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub prod: String,
    pub text: String,
    /// what looking ahead showed disagreed with what was read
    pub oddity: Option<String>,
    pub from: usize,
    pub to: usize,
}
#[derive(Clone, Debug, Default)]
pub struct CallPlan {
    /// reading style, repeated
    pub ops: Vec<u8>,
    pub n_instr: usize,
    /// stop reading after so many characters
    pub leave_after: Option<usize>,
    pub fail: bool,
}
#[derive(Default)]
pub struct TraceVm {
    pub calls: RefCell<Vec<Call>>,
    pub plans: RefCell<VecDeque<CallPlan>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TInstr {
    pub rule: String,
    pub k: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Exec {
    pub rule: String,
    pub k: usize,
    pub sub: Result<FlatTree, String>,
    pub exists: bool,
}
#[derive(Default, Clone, Debug)]
pub struct TState {
    pub log: Vec<Exec>,
    /// record only the rule and instruction
    pub light: bool,
}

fn read_styled<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, plan: &CallPlan) -> (String, Option<String>) {
    let mut text = String::new();
    let mut odd = None;
    let mut i = 0usize;
    loop {
        if plan.leave_after == Some(text.chars().count()) {
            break;
        }
        let op = if plan.ops.is_empty() { 0 } else { plan.ops[i % plan.ops.len()] };
        i += 1;
        let before = p.cur_pos();
        let got = match op % 9 {
            0 => p.next(),
            1 | 2 => {
                let mut seen = p.peek().copied();
                for _ in 0..(op / 9 % 4) {
                    let again = p.peek().copied();
                    if again != seen {
                        odd = Some(format!("two looks ahead differ: {seen:?} {again:?}"));
                    }
                    seen = again;
                }
                let n = p.next();
                if n != seen {
                    odd = Some(format!("looked ahead {seen:?} but read {n:?}"));
                }
                n
            }
            3 => p.next_if(|_| true),
            4 => {
                let seen = p.peek().copied();
                match seen {
                    Some(c) => {
                        let n = p.next_if_eq(&c);
                        if n != seen {
                            odd = Some(format!("looked ahead {seen:?} but conditionally read {n:?}"));
                        }
                        n
                    }
                    None => p.next(),
                }
            }
            5 => {
                if let Some(c) = p.next_if(|_| false) {
                    odd = Some(format!("read {c:?} on a false condition"));
                }
                p.next()
            }
            6 => {
                let seen = p.peek_mut().copied();
                let n = p.next();
                if n != seen {
                    odd = Some(format!("looked ahead (mut) {seen:?} but read {n:?}"));
                }
                n
            }
            7 => {
                let seen = p.peek().copied();
                // any character but the one ahead
                let other = if seen == Some('\u{e000}') { 'a' } else { '\u{e000}' };
                if p.next_if_eq(&other).is_some() {
                    odd = Some("read a character that is not there".into());
                }
                let n = p.next_if(|c| Some(*c) == seen);
                if n != seen {
                    odd = Some(format!("looked ahead {seen:?} but conditionally read {n:?}"));
                }
                n
            }
            _ => {
                // through a view of its own
                let seen = if op >= 128 { p.peek().copied() } else { None };
                let n = {
                    let mut q = ParseProcess::new_nested(p, None, None, before);
                    if op >= 64 {
                        q.peek();
                    }
                    q.next()
                };
                if op >= 128 && n != seen {
                    odd = Some(format!("looked ahead {seen:?} but read {n:?} through a nested view"));
                }
                n
            }
        };
        match got {
            Some(c) => {
                if p.cur_pos() != before + 1 {
                    odd = Some(format!("position went from {before} to {}", p.cur_pos()));
                }
                text.push(c);
            }
            None => {
                if p.cur_pos() != before {
                    odd = Some("position moved without reading".into());
                }
                break;
            }
        }
    }
    (text, odd)
}

impl VM for TraceVm {
    type Tstate = TState;
    type Tinstrution = TInstr;
    fn parse_instructions<'a, T>(&'a self, prod_name: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<TInstr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let plan = self.plans.borrow_mut().pop_front().unwrap_or(CallPlan { n_instr: 1, ..Default::default() });
        let from = to_parse.cur_pos();
        let (text, oddity) = read_styled(to_parse, &plan);
        let to = to_parse.cur_pos();
        self.calls.borrow_mut().push(Call { prod: prod_name.to_string(), text, oddity, from, to });
        if plan.fail {
            return Err(ParserError::VmError { message: "refused by the machine".into() });
        }
        Ok((0..plan.n_instr).map(|k| TInstr { rule: prod_name.to_string(), k }).collect())
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur_node: NodeId, instruction: &TInstr, state: &mut TState) {
        let sub = if state.light { Ok(vec![]) } else { flatten(tree, cur_node) };
        state.log.push(Exec {
            rule: instruction.rule.clone(),
            k: instruction.k,
            sub,
            exists: tree.node_exists(cur_node) && tree.get_node(cur_node).is_ok(),
        });
    }
    fn create_new_state() -> TState {
        TState::default()
    }
}

/// sub tree below entry `ix` of a flattened tree
pub fn sub_of(f: &FlatTree, ix: usize) -> FlatTree {
    let d = f[ix].0;
    let mut out = vec![(0, f[ix].1.clone())];
    for (e, t) in &f[ix + 1..] {
        if *e <= d {
            break;
        }
        out.push((e - d, t.clone()));
    }
    out
}

//! C29: every piece of the notation can be read by itself.
use super::notation::action_text;
use crate::choices::Src;
use crate::grammar::*;
use crate::render::*;
use crate::runner::*;
use crate::sut::*;
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::peekables::{PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::{parse_terminal, RuleParser};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug)]
enum Piece {
    Terminal(String),
    /// Some((is rule, name or text)) or the empty marker
    Element(Option<(bool, String)>),
    Production(Alt),
    Alternatives(Vec<Alt>),
    Rule { st: Stmt, n_instr: usize },
    Blank,
}
fn names_of(s: &mut Src) -> Vec<String> {
    let n = s.range(1, 5);
    gen_names(s, n, true)
}
fn some_alt(s: &mut Src, n: usize, al: &[char], o: &GenOpts) -> Alt {
    if s.chance(15) {
        return vec![];
    }
    let k = if s.chance(4) { s.size(300) } else { s.range(1, 5) };
    (0..k.max(1)).map(|_| if s.chance(45) { Sym::N(s.below(n)) } else { Sym::T(gen_terminal(s, al, o)) }).collect()
}
/// where the error is, if it says so
fn place(e: &ParserError) -> Option<usize> {
    match e {
        ParserError::UnexpectedCharError { pos, .. } | ParserError::EndOfCharsError { pos } => Some(*pos),
        _ => None,
    }
}

fn c29(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts::default();
    let al = alphabet(s);
    let names = names_of(s);
    let l = Layout::gen(s);
    // a text of several pieces, each with the place where it ends
    let mut text = String::new();
    let mut pieces: Vec<(Piece, usize, usize)> = vec![];
    let count = s.range(1, 7);
    let mut plans = VecDeque::new();
    for _ in 0..count {
        let from = text.chars().count();
        let p = match s.weighted(&[15, 20, 25, 15, 20, 8]) {
            0 => Piece::Terminal(gen_terminal(s, &al, &o)),
            1 => Piece::Element(match s.below(4) {
                0 => None,
                1 => Some((false, gen_terminal(s, &al, &o))),
                _ => Some((true, s.pick(&names).clone())),
            }),
            2 => Piece::Production(some_alt(s, names.len(), &al, &o)),
            3 => Piece::Alternatives((0..s.range(1, 4)).map(|_| some_alt(s, names.len(), &al, &o)).collect()),
            4 => {
                let st = Stmt {
                    rule: s.below(names.len()),
                    alts: (0..s.range(1, 4)).map(|_| some_alt(s, names.len(), &al, &o)).collect(),
                    action: if s.chance(40) { Some(action_text(s)) } else { None },
                    over: if s.chance(25) { Some(if s.chance(50) { None } else { Some(s.below(names.len())) }) } else { None },
                };
                let n_instr = if st.action.is_some() { s.below(4) } else { 0 };
                if st.action.is_some() {
                    plans.push_back(CallPlan { n_instr, ..Default::default() });
                }
                Piece::Rule { st, n_instr }
            }
            _ => Piece::Blank,
        };
        match &p {
            Piece::Terminal(t) => text += &format!("\"{t}\""),
            Piece::Element(None) => text.push('#'),
            Piece::Element(Some((true, n))) => text += n,
            Piece::Element(Some((false, t))) => text += &format!("\"{t}\""),
            Piece::Production(a) => {
                text += &l.o(s);
                render_alt(s, &l, &names, a, &mut text);
            }
            Piece::Alternatives(v) => {
                for (k, a) in v.iter().enumerate() {
                    if k > 0 {
                        text += &l.o(s);
                        text.push('|');
                    }
                    text += &l.o(s);
                    render_alt(s, &l, &names, a, &mut text);
                }
            }
            Piece::Rule { st, .. } => {
                let mut x = String::new();
                render_stmt(s, &l, &names, st, &mut x);
                let x = x.trim_end();
                text += x;
            }
            Piece::Blank => text += &l.o(s),
        }
        let to = text.chars().count();
        // something that does not belong to the piece
        match &p {
            Piece::Production(_) | Piece::Alternatives(_) => {
                text += &l.o(s);
                let x = *s.pick(&[';', '{', ']', ')', '+', '-', '1', '_', ':', '.', '\'']);
                if (x == '1' || x == '_') && text.chars().last().is_some_and(|y| !y.is_whitespace()) {
                    text.push('\n');
                }
                text.push(x);
            }
            Piece::Element(Some((true, _))) => text.push(*s.pick(&[' ', ';', '"', '-', '#', '.', '|'])),
            Piece::Blank => text.push(*s.pick(&['a', ';', '#', '_', '\0', '\u{200b}', '\u{feff}', '1'])),
            _ => {
                if s.chance(30) {
                    text.push(*s.pick(&['a', ';', '#', '"', '\\', '\n', '}', 'ä']));
                }
            }
        }
        pieces.push((p, from, to));
    }
    let end = text.chars().count();
    // the text may stop behind its last piece
    if s.chance(40) {
        let (p, _, to) = pieces.last().unwrap();
        let keep = if matches!(p, Piece::Production(_) | Piece::Alternatives(_)) && s.chance(50) { end } else { *to };
        text = text.chars().take(keep).collect();
    }
    c.describe(|| format!("{text:?}\npieces: {pieces:?}"));
    c.label(if pieces.len() < 3 { "1-2 pieces" } else { "3-7 pieces" });
    if pieces.len() > 1 {
        c.nontrivial(&text);
    }
    let chars: Vec<char> = text.chars().collect();
    let vm = TraceVm::default();
    *vm.plans.borrow_mut() = plans;
    let mut pw = PeekableWrapper::from_str(&text);
    let mut rp = RuleParser::new(&mut pw, &vm);
    let mut numbers: BTreeMap<(bool, String), usize> = BTreeMap::new();
    let mut calls = 0;
    for (k, (p, from, to)) in pieces.iter().enumerate() {
        // up to the piece
        while rp.parse_process.cur_pos() < *from {
            if rp.parse_process.next().is_none() {
                return Err(format!("the text ends at {} instead of {}", rp.parse_process.cur_pos(), chars.len()));
            }
        }
        if rp.parse_process.cur_pos() > *from {
            return Err(format!("before piece {k}, {} characters have been read instead of {from}", rp.parse_process.cur_pos()));
        }
        let alt_of = |pr: &Production, pd: &ParserData<TraceVm>| prod_of(pd, pr);
        let head = format!("piece {k} (characters {from} to {to} of the text)");
        let want_alt = |a: &Alt| -> CAlt {
            a.iter()
                .map(|y| match y {
                    Sym::T(t) => (false, t.clone()),
                    Sym::N(j) => (true, names[*j].clone()),
                })
                .collect()
        };
        let mut blank_after = false;
        match p {
            Piece::Terminal(t) => {
                let r = guard(|| parse_terminal(&mut rp.parse_process)).map_err(|m| format!("{head}: {m}"))?;
                match r {
                    Ok(x) if x == *t => {}
                    r => return Err(format!("{head}: terminal {t:?} read as {r:?}")),
                }
            }
            Piece::Element(e) => {
                let r = guard(|| RuleParser::<TraceVm>::parse_element(&mut rp.parse_process)).map_err(|m| format!("{head}: {m}"))?;
                let got = r.map(|x| x.map(|v| (v.et == ElementType::NonTerminal, v.name)));
                match got {
                    Ok(x) if x == *e => {}
                    r => return Err(format!("{head}: symbol {e:?} read as {r:?}")),
                }
            }
            Piece::Production(a) => {
                let r = guard(|| rp.parse_production()).map_err(|m| format!("{head}: {m}"))?;
                let x = r.map_err(|e| format!("{head}: alternative refused: {e:?}"))?;
                let got = alt_of(&x, &rp.parser_data);
                if got != want_alt(a) {
                    return Err(format!("{head}: alternative {:?} read as {got:?}", want_alt(a)));
                }
                blank_after = true;
            }
            Piece::Alternatives(v) => {
                let r = guard(|| rp.parse_possible_productions()).map_err(|m| format!("{head}: {m}"))?;
                let x = r.map_err(|e| format!("{head}: alternatives refused: {e:?}"))?;
                let got: Vec<CAlt> = x.iter().map(|y| alt_of(y, &rp.parser_data)).collect();
                let want: Vec<CAlt> = v.iter().map(want_alt).collect();
                if got != want {
                    return Err(format!("{head}: alternatives {want:?} read as {got:?}"));
                }
                blank_after = true;
            }
            Piece::Rule { st, n_instr } => {
                let r = guard(|| rp.parse_rule()).map_err(|m| format!("{head}: {m}"))?;
                let (key, rule) = r.map_err(|e| format!("{head}: statement refused: {e:?}"))?;
                let got: Vec<CAlt> = rule.possible_productions.iter().map(|y| alt_of(y, &rp.parser_data)).collect();
                let want: Vec<CAlt> = st.alts.iter().map(want_alt).collect();
                if elem(&rp.parser_data, key) != (true, names[st.rule].clone()) {
                    return Err(format!("{head}: the statement is about {:?} instead of {:?}", elem(&rp.parser_data, key), names[st.rule]));
                }
                if got != want {
                    return Err(format!("{head}: alternatives {want:?} read as {got:?}"));
                }
                let ig = rule.ignore.map(|x| elem(&rp.parser_data, x));
                let wi = st.over.flatten().map(|j| (true, names[j].clone()));
                if ig != wi {
                    return Err(format!("{head}: ignore production {ig:?} instead of {wi:?}"));
                }
                let wins: Vec<TInstr> = (0..*n_instr).map(|k| TInstr { rule: names[st.rule].clone(), k }).collect();
                if rule.instruction != wins {
                    return Err(format!("{head}: instructions {:?} instead of {wins:?}", rule.instruction));
                }
                calls += usize::from(st.action.is_some());
                if vm.calls.borrow().len() != calls {
                    return Err(format!("{head}: the machine has been asked {} times instead of {calls}", vm.calls.borrow().len()));
                }
                if let Some(t) = &st.action {
                    let calls = vm.calls.borrow();
                    let call = calls.last().unwrap();
                    if call.prod != names[st.rule] || call.text.trim_start() != t.trim_start() {
                        return Err(format!("{head}: the machine was asked with {call:?} instead of the name {:?} and the text {t:?}", names[st.rule]));
                    }
                }
            }
            Piece::Blank => parse_whitespace(&mut rp.parse_process),
        }
        // exactly the piece has been read; behind alternatives also the white space
        let at = rp.parse_process.cur_pos();
        let mut upto = *to;
        if blank_after {
            while chars.get(upto).is_some_and(|c| c.is_whitespace()) {
                upto += 1;
            }
        }
        if at < *to || at > upto {
            return Err(format!("{head}: {at} characters of the text have been read, should be {to}{}", if upto > *to { format!(" to {upto}") } else { String::new() }));
        }
        if rp.parse_process.peek().copied() != chars.get(at).copied() {
            return Err(format!("{head}: next comes {:?}, should be {:?}", rp.parse_process.peek().copied(), chars.get(at)));
        }
        // symbols keep their numbers from piece to piece
        for (ix, e) in rp.parser_data.get_elements_verbose().into_iter().enumerate() {
            let key = (e.et == ElementType::NonTerminal, e.name);
            if let Some(old) = numbers.insert(key.clone(), ix) {
                if old != ix {
                    return Err(format!("{head}: {key:?} had the number {old} and now has {ix}"));
                }
            }
        }
    }
    // what is left
    let at = rp.parse_process.cur_pos();
    let rest: String = std::iter::from_fn(|| rp.parse_process.next()).collect();
    let want: String = chars[at..].iter().collect();
    if rest != want {
        return Err(format!("behind the last piece comes {rest:?} instead of {want:?}"));
    }
    wrong_piece(s, c, &al, &o)
}

/// a piece that is not there, or not complete
pub fn wrong_piece(s: &mut Src, c: &mut Ctx, al: &[char], o: &GenOpts) -> Res {
    let t = gen_terminal(s, al, o);
    let lead: String = (0..s.below(4)).map(|_| *s.pick(&['x', 'ä', '1', '\n', '日'])).collect();
    let (body, what): (String, usize) = match s.below(5) {
        // a terminal without its end
        0 => (format!("\"{t}"), 0),
        1 => (format!("\"{t}\\\""), 0),
        // no terminal at all
        2 => (s.pick(&["a\"", "'a'", " \"a\"", "#", "", "\\\"", "“a”"]).to_string(), 1),
        // no symbol
        3 => (s.pick(&["|", ";", "->", "1a", "_a", " a", "{", "", "$", "'", "\u{301}a", "\u{200b}a"]).to_string(), 2),
        // no alternative
        _ => (s.pick(&["|", " ;", "-> a", " 1a", "_a", " ", "{", "", "  $", "\n|\n"]).to_string(), 3),
    };
    let text = format!("{lead}{body}");
    let n = text.chars().count();
    let at = lead.chars().count();
    let vm = TraceVm::default();
    let mut pw = PeekableWrapper::from_str(&text);
    let mut rp = RuleParser::new(&mut pw, &vm);
    for _ in 0..at {
        rp.parse_process.next();
    }
    let chars: Vec<char> = text.chars().collect();
    let head = format!("in {text:?} from {at}");
    match what {
        0 => {
            // a text ending in an odd number of backslashes turns the last quote into a character of the terminal
            let r = guard(|| parse_terminal(&mut rp.parse_process)).map_err(|m| format!("{head}: {m}"))?;
            let mut esc = false;
            let closed = chars[at + 1..].iter().any(|&ch| {
                let q = ch == '"' && !esc;
                esc = ch == '\\' && !esc;
                q
            });
            if closed {
                return Ok(());
            }
            c.label("terminal without an end");
            match r {
                Err(e) if place(&e) == Some(n) => Ok(()),
                r => Err(format!("{head}: a terminal that does not end gives {r:?}, should be the end of the text at {n}")),
            }
        }
        1 | 2 => {
            let r = if what == 1 {
                guard(|| parse_terminal(&mut rp.parse_process).map(|_| ()))
            } else {
                guard(|| RuleParser::<TraceVm>::parse_element(&mut rp.parse_process).map(|_| ()))
            }
            .map_err(|m| format!("{head}: {m}"))?;
            c.label("no symbol there");
            match r {
                Err(e) if place(&e) == Some(at) => {
                    if let ParserError::UnexpectedCharError { chr, .. } = &e {
                        if Some(chr) != chars.get(at) {
                            return Err(format!("{head}: the error {e:?} names another character than {:?}", chars.get(at)));
                        }
                    }
                    if rp.parse_process.cur_pos() != at {
                        return Err(format!("{head}: something was read although nothing fits"));
                    }
                    Ok(())
                }
                r => Err(format!("{head}: no symbol there, but {r:?}")),
            }
        }
        _ => {
            c.label("no alternative there");
            let r = guard(|| if s.chance(50) { rp.parse_production().map(|_| ()) } else { rp.parse_possible_productions().map(|_| ()) }).map_err(|m| format!("{head}: {m}"))?;
            if r.is_ok() {
                return Err(format!("{head}: an alternative was found where there is none"));
            }
            let p = rp.parse_process.cur_pos();
            if chars[at..p.min(n)].iter().any(|x| !x.is_whitespace()) {
                return Err(format!("{head}: more than white space was read although there is no alternative"));
            }
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "A case is a text of 1-7 pieces (terminals, symbols, alternatives, lists of alternatives, whole statements, white space), with characters between them that belong to none; one rule reader reads them one after the other by the function for each piece, and value, place reached, numbers of symbols and calls of the machine are compared with what was written; then one missing or incomplete piece. Non-trivial: at least two pieces.",
        max: 1500, quick: 2_000_000, thorough: 60_000_000, case: c29, pinned: no_pinned, known: no_known, cpu: 30,
    }]
}

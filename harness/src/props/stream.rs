//! C17, C18: the character stream and the lexical helpers.
use crate::choices::Src;
use crate::runner::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug)]
struct View {
    stop: Option<char>,
    esc: Option<char>,
    after_esc: bool,
    pos: usize,
}
struct Model {
    text: Vec<char>,
    at: usize,
    views: Vec<View>,
    read: Vec<char>,
    log: Vec<String>,
    // statistics
    looks: usize,
    stops: usize,
    escapes: usize,
    depth: usize,
    looked_at_esc: bool,
}
impl Model {
    fn seen(&self) -> Option<char> {
        let c = *self.text.get(self.at)?;
        if self.views.iter().any(|v| v.stop == Some(c) && !v.after_esc) {
            return None;
        }
        Some(c)
    }
    fn take(&mut self) {
        let c = self.text[self.at];
        self.at += 1;
        self.read.push(c);
        for v in &mut self.views {
            v.pos += 1;
            if v.stop == Some(c) && v.after_esc {
                self.escapes += 1;
            }
            v.after_esc = v.esc == Some(c);
        }
    }
}

const ALPHA: &[char] = &['a', '}', '\\', 'b', '"', '{', 'ä', '😀', '\n', ';', '\0'];
fn special(s: &mut Src) -> Option<char> {
    if s.chance(80) {
        Some(*s.pick(&['}', '\\', '"', 'a', ';', 'ä']))
    } else {
        None
    }
}
fn new_view(s: &mut Src, pos: usize) -> View {
    // mostly the pair that grammar texts use
    let (stop, mut esc) = if s.chance(60) { (Some('}'), Some('\\')) } else { (special(s), special(s)) };
    if esc == stop {
        esc = None;
    }
    View { stop, esc, after_esc: false, pos }
}

/// one random operation; Ok(true): leave this view, Ok(false): go on
enum Next {
    Go,
    Leave,
    Open,
}
fn step<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, m: &mut Model, s: &mut Src) -> Result<Next, String> {
    let want = m.seen();
    let lvl = m.views.len();
    let pos = m.views[lvl - 1].pos;
    if p.cur_pos() != pos {
        return Err(format!("position is {}, {} characters counted", p.cur_pos(), pos));
    }
    let check = |what: &str, got: Option<char>, want: Option<char>| {
        if got != want {
            return Err(format!("{what} gives {got:?}, the text has {want:?} next"));
        }
        Ok(())
    };
    if want.is_none() && m.at < m.text.len() {
        m.stops += 1;
    }
    let op = s.weighted(&[30, 26, 6, 8, 6, 7, 7, 4, 10, 8, 3]);
    m.log.push(format!("{}{}", "  ".repeat(lvl - 1), ["next", "peek", "peek_mut", "next_if(true)", "next_if(false)", "next_if_eq(seen)", "next_if_eq(other)", "next_if(is alphabetic)", "open view", "leave view", "take(2)"][op]));
    match op {
        0 => {
            check("reading", p.next(), want)?;
            if want.is_some() {
                m.take();
            }
        }
        1 => {
            for _ in 0..s.range(1, 3) {
                m.looks += 1;
                m.looked_at_esc |= want.is_some() && m.views.iter().any(|v| v.esc == want);
                check("looking ahead", p.peek().copied(), want)?;
            }
        }
        2 => {
            m.looks += 1;
            check("looking ahead (mutable)", p.peek_mut().copied(), want)?;
        }
        3 => {
            let mut shown = None;
            let r = p.next_if(|c| {
                shown = Some(*c);
                true
            });
            check("reading on a true condition", r, want)?;
            if want.is_some() {
                check("the condition", shown, want)?;
                m.take();
            }
        }
        4 => check("reading on a false condition", p.next_if(|_| false), None)?,
        5 => {
            let e = want.unwrap_or('}');
            check("reading the expected character", p.next_if_eq(&e), want)?;
            if want.is_some() {
                m.take();
            }
        }
        6 => {
            let e = *s.pick(ALPHA);
            let w = want.filter(|c| *c == e);
            check("reading a certain character", p.next_if_eq(&e), w)?;
            if w.is_some() {
                m.take();
            }
        }
        7 => {
            let w = want.filter(|c| c.is_alphabetic());
            check("reading a letter", p.next_if(|c| c.is_alphabetic()), w)?;
            if w.is_some() {
                m.take();
            }
        }
        8 => return Ok(Next::Open),
        9 => return Ok(Next::Leave),
        _ => {
            let got: Vec<char> = p.by_ref().take(2).collect();
            let mut exp = vec![];
            for _ in 0..2 {
                match m.seen() {
                    Some(c) => {
                        exp.push(c);
                        m.take();
                    }
                    None => break,
                }
            }
            if got != exp {
                return Err(format!("reading two gives {got:?}, the text has {exp:?} next"));
            }
        }
    }
    let pos = m.views[lvl - 1].pos;
    if p.cur_pos() != pos {
        return Err(format!("position is {}, {} characters counted", p.cur_pos(), pos));
    }
    Ok(Next::Go)
}

macro_rules! level {
    ($name:ident, $next:ident) => {
        fn $name<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, m: &mut Model, s: &mut Src, fuel: &mut usize) -> Res {
            m.depth = m.depth.max(m.views.len());
            while *fuel > 0 {
                *fuel -= 1;
                match step(p, m, s)? {
                    Next::Go => {}
                    Next::Leave => break,
                    Next::Open => {
                        let here = p.cur_pos();
                        let relative = s.chance(20);
                        let v = new_view(s, if relative { 0 } else { here });
                        m.log.push(format!("{}view stop {:?} escape {:?}", "  ".repeat(m.views.len()), v.stop, v.esc));
                        m.views.push(v.clone());
                        {
                            let mut q = if relative { ParseProcess::new(p, v.stop, v.esc) } else { ParseProcess::new_nested(p, v.stop, v.esc, here) };
                            $next(&mut q, m, s, fuel)?;
                        }
                        m.views.pop();
                    }
                }
            }
            Ok(())
        }
    };
}
level!(lvl1, lvl2);
level!(lvl2, lvl3);
level!(lvl3, lvl4);
level!(lvl4, lvl5);
fn lvl5<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, m: &mut Model, s: &mut Src, fuel: &mut usize) -> Res {
    m.depth = m.depth.max(m.views.len());
    while *fuel > 0 {
        *fuel -= 1;
        if let Next::Leave = step(p, m, s)? {
            break;
        }
    }
    Ok(())
}

fn stream_text(s: &mut Src) -> String {
    let n = match s.weighted(&[25, 50, 20, 5]) {
        0 => s.range(0, 4),
        1 => s.range(4, 16),
        2 => s.range(16, 60),
        _ => s.range(60, 300),
    };
    let dense = s.chance(60);
    (0..n)
        .map(|_| {
            if dense {
                *s.pick(&ALPHA[..4])
            } else if s.chance(10) {
                char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')
            } else {
                *s.pick(ALPHA)
            }
        })
        .collect()
}

/// a source of characters of our own
struct Cursor {
    text: Vec<char>,
    at: usize,
}
impl Iterator for Cursor {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.text.get(self.at).copied();
        self.at += usize::from(c.is_some());
        c
    }
}
impl TPeekable for Cursor {
    fn peek(&mut self) -> Option<&char> {
        self.text.get(self.at)
    }
    fn peek_mut(&mut self) -> Option<&mut char> {
        self.text.get_mut(self.at)
    }
    fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
        if func(self.text.get(self.at)?) { self.next() } else { None }
    }
    fn next_if_eq(&mut self, expected: &char) -> Option<char> {
        self.next_if(|c| c == expected)
    }
}
/// operations on the source itself, before and after any view of it
fn raw_steps<T: TPeekable<Item = char>>(p: &mut T, text: &[char], at: &mut usize, s: &mut Src, log: &mut Vec<String>) -> Res {
    for _ in 0..s.below(6) {
        let want = text.get(*at).copied();
        let op = s.below(7);
        let e = *s.pick(ALPHA);
        let (name, got, exp, takes) = match op {
            0 => ("next", p.next(), want, true),
            1 => ("peek", p.peek().copied(), want, false),
            2 => ("peek_mut", p.peek_mut().copied(), want, false),
            3 => ("next_if(true)", p.next_if(|_| true), want, true),
            4 => ("next_if(false)", p.next_if(|_| false), None, false),
            5 => ("next_if_eq(some)", p.next_if_eq(&e), want.filter(|c| *c == e), true),
            _ => ("next_if_eq(seen)", p.next_if_eq(&want.unwrap_or('x')), want, true),
        };
        log.push(format!("source: {name}"));
        if got != exp {
            return Err(format!("{name} on the source gives {got:?} instead of {exp:?}"));
        }
        *at += usize::from(takes && exp.is_some());
    }
    Ok(())
}
fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let text = stream_text(s);
    let chars: Vec<char> = text.chars().collect();
    match s.weighted(&[60, 15, 10, 15]) {
        0 => c17_on(&mut PeekableWrapper::from_str(&text), &text, "a text", s, c),
        1 => c17_on(&mut PeekableWrapper::new(chars.into_iter().peekable()), &text, "a list of characters", s, c),
        2 => {
            let back: String = text.chars().rev().collect();
            c17_on(&mut PeekableWrapper::new(back.chars().rev().peekable()), &text, "a text from its end", s, c)
        }
        _ => c17_on(&mut Cursor { text: chars, at: 0 }, &text, "a source of one's own", s, c),
    }
}
fn c17_on<T: TPeekable<Item = char>>(pw: &mut T, text: &str, source: &str, s: &mut Src, c: &mut Ctx) -> Res {
    let chars: Vec<char> = text.chars().collect();
    let mut at = 0;
    let mut log = vec![];
    let raw = s.chance(25);
    let first = if raw { raw_steps(pw, &chars, &mut at, s, &mut log) } else { Ok(()) };
    let v = if s.chance(50) { View { stop: None, esc: None, after_esc: false, pos: 0 } } else { new_view(s, 0) };
    log.push(format!("view stop {:?} escape {:?}", v.stop, v.esc));
    let mut m = Model {
        text: chars,
        at,
        views: vec![v.clone()],
        read: vec![],
        log,
        looks: 0,
        stops: 0,
        escapes: 0,
        depth: 0,
        looked_at_esc: false,
    };
    let mut fuel = s.range(1, 90);
    let mut r = first.and_then(|_| {
        let mut p = ParseProcess::new(pw, v.stop, v.esc);
        lvl1(&mut p, &mut m, s, &mut fuel)
    });
    if r.is_ok() && raw {
        let Model { text, at, log, .. } = &mut m;
        r = raw_steps(pw, text, at, s, log);
    }
    c.describe(|| format!("{source}: {:?}\n{}", text, m.log.join("\n")));
    r?;
    // nothing was lost: what is left is the rest of the text
    let rest: String = pw.collect();
    let want: String = m.text[m.at..].iter().collect();
    if rest != want {
        return Err(format!("left over is {rest:?} instead of {want:?}"));
    }
    c.label(format!("from {source}"));
    c.label(format!("{} views deep", m.depth));
    c.label_if(m.stops > 0, "met a stop character");
    c.label_if(m.escapes > 0, "read an escaped stop character");
    c.label_if(m.looked_at_esc, "looked ahead at an escape character");
    if m.looks > 0 && m.read.len() > 1 && (m.stops > 0 || m.escapes > 0) {
        c.nontrivial(&(&text, source, &m.log));
    }
    Ok(())
}
fn c17_pinned() -> Vec<Pinned> {
    vec![
        pin("looking at the escape character twice", |_| {
            let mut pw = PeekableWrapper::from_str("\\}x}y");
            let mut p = ParseProcess::new(&mut pw, Some('}'), Some('\\'));
            for _ in 0..3 {
                if p.peek() != Some(&'\\') {
                    return Err("looking ahead does not show the escape character".into());
                }
            }
            let mut got = String::new();
            while let Some(x) = p.peek().copied() {
                let _ = p.peek();
                if p.next() != Some(x) {
                    return Err("read something else than seen".into());
                }
                got.push(x);
            }
            if got != "\\}x" || p.cur_pos() != 3 {
                return Err(format!("read {got:?}, position {}", p.cur_pos()));
            }
            Ok(())
        }),
        pin("stop character without an escape character", |_| {
            let mut pw = PeekableWrapper::from_str("ab;c");
            let got: String = {
                let p = ParseProcess::new(&mut pw, Some(';'), None);
                p.collect()
            };
            let rest: String = pw.collect();
            if got != "ab" || rest != ";c" {
                return Err(format!("view {got:?}, rest {rest:?}"));
            }
            Ok(())
        }),
        pin("mutable look at a stop character", |_| {
            let mut pw = PeekableWrapper::from_str("}");
            let mut p = ParseProcess::new(&mut pw, Some('}'), Some('\\'));
            if p.peek_mut().is_some() {
                return Err("a mutable look shows the stop character".into());
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ C18

const WORDY: &[char] = &[
    'a', 'Z', '_', '0', '7', '9', ' ', '-', ';', '\n', '\t', 'ä', 'ß', '٣', 'Ⅷ', 'ª', '\u{301}', '中', '²', '½', '\u{a0}', '\u{3000}', '\u{200b}', '\u{85}', '\u{2028}', '.', '+', 'é', '😀', '\u{1c}', '\0', '０', 'ﬁ', '\u{feff}', '\u{180e}',
];
fn lex_text(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.range(0, 6) {
        match s.weighted(&[2500, 2500, 1500, 1500, 1000, 1000, 4]) {
            0 => t.push(*s.pick(WORDY)),
            1 => {
                if s.chance(25) {
                    t.push('-');
                }
                if s.chance(30) {
                    for _ in 0..s.range(1, 25) {
                        t.push('0');
                    }
                }
                if s.chance(50) {
                    let v = s.pick(&[0u128, 9, 10, 127, 128, 255, 256, 32767, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, 18446744073709551614, 18446744073709551615, 18446744073709551616, 99999999999999999999, 340282366920938463463374607431768211455]);
                    t.push_str(&v.to_string());
                } else {
                    for _ in 0..s.range(1, 22) {
                        t.push(*s.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']));
                    }
                }
            }
            2 => {
                for _ in 0..s.range(1, 12) {
                    t.push(*s.pick(&['a', 'b', '_', '1', 'Z', 'ü', '中', '٣', 'Ⅷ']));
                }
            }
            3 => {
                for _ in 0..s.range(1, 5) {
                    t.push(*s.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{3000}', '\u{85}', '\u{2028}', '\u{b}']));
                }
            }
            4 => t.push(char::from_u32(s.below(0x3000) as u32).unwrap_or('x')),
            5 => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            _ => {
                // a run longer than any sensible buffer
                let x = s.pick(&["a", "0", " ", "z_9", "\u{3000}", "\u{4e2d}", "\n", "_"]);
                let cap = if s.chance(10) { 70_000 } else { 3000 };
                let n = s.size(cap);
                t.push_str(&x.repeat(n));
            }
        }
    }
    t
}

#[derive(Debug, PartialEq, Eq)]
enum Val {
    U(usize),
    I(isize),
    S(String),
    Unit,
}
/// what reading at `at` must give: value and characters consumed, or the place of the error.
/// The place is None where only the error itself is specified.
fn lex_model(op: usize, sym: char, t: &[char], at: usize) -> Result<(Val, usize), Option<(usize, Option<char>)>> {
    let here = |k: usize| Some((k, t.get(k).copied()));
    let run = |from: usize, f: &dyn Fn(char) -> bool| t[from..].iter().take_while(|c| f(**c)).count();
    let text = |a: usize, b: usize| t[a..b].iter().collect::<String>();
    let big = |x: &str| {
        // value without leading zeros, at most 39 digits
        let y = x.trim_start_matches('0');
        if y.len() > 38 {
            None
        } else if y.is_empty() {
            Some(0i128)
        } else {
            y.bytes().try_fold(0i128, |a, b| a.checked_mul(10)?.checked_add(i128::from(b - b'0')))
        }
    };
    match op {
        0 => {
            let n = run(at, &|c| ('0'..='9').contains(&c));
            if n == 0 {
                return Err(here(at));
            }
            match big(&text(at, at + n)).and_then(|v| usize::try_from(v).ok()) {
                Some(v) => Ok((Val::U(v), n)),
                None => Err(None),
            }
        }
        1 => {
            let neg = usize::from(t.get(at) == Some(&'-'));
            let n = run((at + neg).min(t.len()), &|c| ('0'..='9').contains(&c));
            if n == 0 {
                return Err(here(at + neg));
            }
            match big(&text(at + neg, at + neg + n)).map(|v| if neg == 1 { -v } else { v }).and_then(|v| isize::try_from(v).ok()) {
                Some(v) => Ok((Val::I(v), n + neg)),
                None => Err(None),
            }
        }
        2 => {
            let n = run(at, &|c| ('0'..='9').contains(&c));
            Ok((Val::S(text(at, at + n)), n))
        }
        3 => {
            if !t.get(at).is_some_and(|c| c.is_alphabetic()) {
                return Err(here(at));
            }
            let n = 1 + run(at + 1, &|c| c.is_alphanumeric() || c == '_');
            Ok((Val::S(text(at, at + n)), n))
        }
        4 => {
            if t.get(at) == Some(&sym) {
                Ok((Val::Unit, 1))
            } else {
                Err(here(at))
            }
        }
        _ => Ok((Val::Unit, run(at, &|c| c.is_whitespace()))),
    }
}
const OPS: &[&str] = &["parse_usize", "parse_isize", "parse_digits", "parse_var_name", "parse_symbol", "parse_whitespace"];

fn lex_run<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, op: usize, sym: char) -> Result<Val, ParserError> {
    match op {
        0 => parse_usize(p).map(Val::U),
        1 => parse_isize(p).map(Val::I),
        2 => parse_digits(p).map(Val::S),
        3 => parse_var_name(p).map(Val::S),
        4 => parse_symbol(p, sym).map(|_| Val::Unit),
        _ => {
            parse_whitespace(p);
            Ok(Val::Unit)
        }
    }
}
fn lex_steps<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>, t: &[char], base: usize, ops: &[(usize, char)], log: &mut Vec<String>) -> Result<usize, String> {
    let mut at = 0;
    for &(op, sym) in ops {
        let got = lex_run(p, op, sym);
        let want = lex_model(op, sym, t, at);
        log.push(format!("{}{} at {at}: {got:?}", OPS[op], if op == 4 { format!(" {sym:?}") } else { String::new() }));
        match (got, want) {
            (Ok(v), Ok((w, n))) => {
                if v != w {
                    return Err(format!("{} at {at} gives {v:?} instead of {w:?}", OPS[op]));
                }
                at += n;
            }
            (Ok(v), Err(_)) => return Err(format!("{} at {at} gives {v:?} instead of an error", OPS[op])),
            (Err(e), Ok((w, _))) => return Err(format!("{} at {at} fails with {e:?} instead of giving {w:?}", OPS[op])),
            (Err(e), Err(None)) => {
                let _ = e;
                return Ok(at);
            }
            (Err(e), Err(Some((k, ch)))) => {
                let ok = match (&e, ch) {
                    (ParserError::UnexpectedCharError { chr, pos, .. }, Some(w)) => *chr == w && *pos == base + k,
                    (ParserError::EndOfCharsError { pos }, None) => *pos == base + k,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{} at {at} fails with {e:?}, but reading failed at {} on {ch:?}", OPS[op], base + k));
                }
                // a failed symbol or name consumes nothing
                if k == at && p.cur_pos() != base + at {
                    return Err(format!("a failed {} moved the position", OPS[op]));
                }
                if k != at {
                    return Ok(at);
                }
            }
        }
        if p.cur_pos() != base + at {
            return Err(format!("position after {} is {} instead of {}", OPS[op], p.cur_pos(), base + at));
        }
    }
    let rest: String = p.collect();
    let want: String = t[at..].iter().collect();
    if rest != want {
        return Err(format!("left over is {rest:?} instead of {want:?}"));
    }
    Ok(at)
}
fn c18(s: &mut Src, c: &mut Ctx) -> Res {
    let text = lex_text(s);
    let t: Vec<char> = text.chars().collect();
    // a bounded view must make no difference
    let mode = s.weighted(&[50, 25, 25]);
    let base = if mode == 1 { s.below(1000) } else { 0 };
    let mut ops = vec![];
    for _ in 0..s.range(1, 6) {
        let op = s.below(6);
        let sym = if s.chance(60) && !t.is_empty() { *s.pick(&t) } else { *s.pick(WORDY) };
        ops.push((op, sym));
    }
    // lead the first operation to where it applies
    let mut log = vec![];
    let r = match mode {
        0 => {
            let mut pw = PeekableWrapper::from_str(&text);
            let mut p = ParseProcess::new(&mut pw, None, None);
            lex_steps(&mut p, &t, 0, &ops, &mut log)
        }
        1 => {
            let mut pw = PeekableWrapper::from_str(&text);
            let mut p = ParseProcess::new_nested(&mut pw, None, None, base);
            lex_steps(&mut p, &t, base, &ops, &mut log)
        }
        _ => {
            let inner: String = t.iter().filter(|c| **c != '}' && **c != '\\').collect();
            let t2: Vec<char> = inner.chars().collect();
            let whole = format!("{inner}}}tail");
            let mut pw = PeekableWrapper::from_str(&whole);
            let mut outer = ParseProcess::new(&mut pw, None, None);
            let mut p = ParseProcess::new_nested(&mut outer, Some('}'), Some('\\'), 0);
            let at = lex_steps(&mut p, &t2, 0, &ops, &mut log);
            at
        }
    };
    c.describe(|| format!("text {text:?}, first position {base}{}\n{}", if mode == 2 { ", in a bounded view" } else { "" }, log.join("\n")));
    for l in &log {
        c.label(l.split(' ').next().unwrap_or("").to_string() + if l.contains("Err(") { " error" } else { "" });
    }
    let at = r?;
    if at > 0 {
        c.nontrivial(&(&text, &ops, mode));
    }
    Ok(())
}
fn c18_pinned() -> Vec<Pinned> {
    let mut v = vec![];
    for (n, op, texts) in [
        ("unsigned limits", 0usize, vec!["18446744073709551615;", "18446744073709551616", "00018446744073709551615x", "0", "", "-1", "+1", "٣", "12٣", "1_000"]),
        ("signed limits", 1, vec!["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-0", "--1", "-", "- 1", "+1", "-٣", "-00009223372036854775808;"]),
        ("names", 3, vec!["a", "_a", "1a", "ä1_٣x y", "a-b", "", "中文", "ª", "\u{301}a", "a\u{301}", "Ⅷ"]),
        ("white space", 5, vec!["", "  x", "\u{3000}\u{a0}\u{85}\u{2028}x", "\u{200b}", "\r\n\t\u{b}\u{c}\u{1c}"]),
    ] {
        v.push(pin(n, move |_| {
            for x in &texts {
                let t: Vec<char> = x.chars().collect();
                let mut pw = PeekableWrapper::from_str(x);
                let mut p = ParseProcess::new(&mut pw, None, None);
                lex_steps(&mut p, &t, 0, &[(op, 'x')], &mut vec![]).map_err(|e| format!("{x:?}: {e}"))?;
            }
            Ok(())
        }));
    }
    for (n, op, unit) in [("a long name", 3usize, "ab_\u{e4}9"), ("many zeros", 0, "0"), ("many zeros, signed", 1, "0"), ("many digits", 2, "1234567890"), ("much white space", 5, " \n\u{3000}")] {
        v.push(pin(n, move |_| {
            for k in [50, 51, 52, 85, 99, 100, 127, 128, 200, 204, 205, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 13107, 13108, 21846, 65535, 65536, 65537, 100_001] {
                let x = unit.repeat(k) + "-";
                let t: Vec<char> = x.chars().collect();
                let mut pw = PeekableWrapper::from_str(&x);
                let mut p = ParseProcess::new(&mut pw, None, None);
                lex_steps(&mut p, &t, 0, &[(op, 'x'), (4, '-')], &mut vec![]).map_err(|e| format!("{unit:?} {k} times: {}", crate::sut::clip(&e, 300)))?;
            }
            Ok(())
        }));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "A case is a text over few special and some arbitrary characters, delivered as text, list, backwards or by a source of the caller's own, and up to 90 random operations (read, look ahead, mutable look, conditional reads, take, open and leave nested views) on up to five nested views, each compared with a model on the text. Non-trivial: at least one look ahead, two characters read, and a stop character met or an escaped one read; counted by text and operations.",
            max: 400,
            quick: 6_000_000,
            thorough: 60_000_000,
            case: c17,
            pinned: c17_pinned,
            known: no_known,
            cpu: 20,
        },
        Prop {
            id: "C18",
            rule: "A case is a text of digit runs (around the limits of the types), names, white space and arbitrary characters, read by 1-6 random helpers in a row, plain, with an offset, or in a bounded view; value, consumption and error place are compared with independent code. Non-trivial: at least one character is consumed.",
            max: 120,
            quick: 6_000_000,
            thorough: 60_000_000,
            case: c18,
            pinned: c18_pinned,
            known: no_known,
            cpu: 20,
        },
    ]
}

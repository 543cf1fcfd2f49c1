//! An independent reader of the rule notation.
use crate::sut::{CAlt, CRules};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// exactly these rules
    Valid(CRules),
    /// must be refused
    Invalid(String),
    /// the notation does not say: may be refused; if it is accepted, and the rules are given, then these
    Open(Option<CRules>),
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(String),
    Term(String),
    Arrow,
    /// the two characters of the arrow with white space between
    LooseArrow,
    Hash,
    Semi,
    Pipe,
    Colon,
    Action,
    Over(Over),
    Dollar { spaced: bool },
}
#[derive(Clone, Debug, PartialEq)]
enum Over {
    None,
    Rule(String),
    /// white space inside (but for the colon), or a name that is not IGNORE
    Unclear(Option<Option<String>>),
}

struct Tokens {
    toks: Vec<(Tok, bool)>, // (token, white space before it)
}
fn name_at(t: &[char], i: usize) -> Option<usize> {
    if !t.get(i)?.is_alphabetic() {
        return None;
    }
    let mut j = i + 1;
    while t.get(j).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
        j += 1;
    }
    Some(j)
}
fn tokens(text: &str) -> Result<Tokens, String> {
    let t: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    loop {
        let ws0 = i;
        while t.get(i).is_some_and(|c| c.is_whitespace()) {
            i += 1;
        }
        let ws = i > ws0;
        let Some(&c) = t.get(i) else { break };
        let tok = match c {
            '#' => {
                i += 1;
                Tok::Hash
            }
            ';' => {
                i += 1;
                Tok::Semi
            }
            '|' => {
                i += 1;
                Tok::Pipe
            }
            ':' => {
                i += 1;
                Tok::Colon
            }
            '-' => {
                let mut j = i + 1;
                while t.get(j).is_some_and(|c| c.is_whitespace()) {
                    j += 1;
                }
                if t.get(j) != Some(&'>') {
                    return Err(format!("no arrow at {i}"));
                }
                let loose = j > i + 1;
                i = j + 1;
                if loose {
                    Tok::LooseArrow
                } else {
                    Tok::Arrow
                }
            }
            '"' => {
                let mut j = i + 1;
                let mut esc = false;
                loop {
                    match t.get(j) {
                        None => return Err(format!("unterminated terminal at {i}")),
                        Some('"') if !esc => break,
                        Some('\\') => esc = !esc,
                        Some(_) => esc = false,
                    }
                    j += 1;
                }
                let s = t[i + 1..j].iter().collect();
                i = j + 1;
                Tok::Term(s)
            }
            '{' => {
                let mut j = i + 1;
                loop {
                    match t.get(j) {
                        None => return Err(format!("unterminated action at {i}")),
                        Some('}') if t[j - 1] != '\\' => break,
                        _ => j += 1,
                    }
                }
                i = j + 1;
                Tok::Action
            }
            '$' => {
                let mut j = i + 1;
                while t.get(j).is_some_and(|c| c.is_whitespace()) {
                    j += 1;
                }
                if t.get(j) == Some(&'[') {
                    let spaced = j > i + 1;
                    let Some(len) = t[j..].iter().position(|c| *c == ']') else {
                        return Err(format!("unterminated override at {i}"));
                    };
                    let inner: Vec<char> = t[j + 1..j + len].to_vec();
                    i = j + len + 1;
                    Tok::Over(over(&inner, spaced)?)
                } else {
                    let spaced = j > i + 1;
                    i += 1;
                    Tok::Dollar { spaced }
                }
            }
            _ => match name_at(&t, i) {
                Some(j) => {
                    let s = t[i..j].iter().collect();
                    i = j;
                    Tok::Name(s)
                }
                None => return Err(format!("stray character {c:?} at {i}")),
            },
        };
        out.push((tok, ws));
    }
    Ok(Tokens { toks: out })
}
fn over(inner: &[char], spaced: bool) -> Result<Over, String> {
    // name : # or name
    let mut loose = spaced;
    let mut i = 0;
    let mut ws = |i: &mut usize| {
        while inner.get(*i).is_some_and(|c| c.is_whitespace()) {
            *i += 1;
            loose = true;
        }
    };
    ws(&mut i);
    let j = name_at(inner, i).ok_or("override without a name")?;
    let nm: String = inner[i..j].iter().collect();
    if nm != "IGNORE" {
        return Ok(Over::Unclear(None));
    }
    i = j;
    while inner.get(i).is_some_and(|c| c.is_whitespace()) {
        i += 1;
    }
    if inner.get(i) != Some(&':') {
        return Err("override without a colon".into());
    }
    i += 1;
    ws(&mut i);
    let val = if inner.get(i) == Some(&'#') {
        i += 1;
        None
    } else {
        let j = name_at(inner, i).ok_or("override without a value")?;
        let v: String = inner[i..j].iter().collect();
        i = j;
        Some(v)
    };
    ws(&mut i);
    if i != inner.len() {
        return Err("stray text in an override".into());
    }
    Ok(if loose {
        Over::Unclear(Some(val))
    } else {
        match val {
            None => Over::None,
            Some(v) => Over::Rule(v),
        }
    })
}

struct RuleText {
    alts: Vec<CAlt>,
    ignore: Option<String>,
}

pub fn read(text: &str) -> Verdict {
    let tk = match tokens(text) {
        Ok(t) => t,
        Err(e) => return Verdict::Invalid(e),
    };
    let t = &tk.toks;
    let inv = |m: &str, i: usize| Verdict::Invalid(format!("{m} at token {i}: {:?}", t.get(i).map(|x| &x.0)));
    let mut i = 0;
    let mut rules: BTreeMap<String, RuleText> = BTreeMap::new();
    // may be refused although the rules are clear / nothing is said about the rules either
    let mut open = false;
    let mut unclear = false;
    let mut file_ignore: Option<String> = None;
    let mut first = true;
    while i < t.len() {
        if let Tok::Dollar { spaced } = t[i].0 {
            if first {
                open |= spaced;
            } else {
                // directives belong at the top
                open = true;
                unclear = true;
            }
            match t.get(i + 1) {
                Some((Tok::Name(n), _)) if n == "IGNORE" => {}
                _ => return inv("unknown directive", i + 1),
            }
            match t.get(i + 2) {
                Some((Tok::Colon, _)) => {}
                _ => return inv("colon expected", i + 2),
            }
            let Some((Tok::Name(n), _)) = t.get(i + 3) else { return inv("name expected", i + 3) };
            let Some((Tok::Semi, _)) = t.get(i + 4) else { return inv("semicolon expected", i + 4) };
            file_ignore = Some(n.clone());
            i += 5;
            first = false;
            continue;
        }
        first = false;
        let Tok::Name(name) = &t[i].0 else { return inv("rule name expected", i) };
        i += 1;
        match t.get(i) {
            Some((Tok::Arrow, _)) => {}
            Some((Tok::LooseArrow, _)) => open = true,
            _ => return inv("arrow expected", i),
        }
        i += 1;
        let mut ignore = file_ignore.clone();
        let mut has_over = false;
        if let Some((Tok::Over(o), _)) = t.get(i) {
            has_over = true;
            match o {
                Over::None => ignore = None,
                Over::Rule(r) => ignore = Some(r.clone()),
                Over::Unclear(Some(v)) => {
                    open = true;
                    ignore = v.clone();
                }
                Over::Unclear(None) => {
                    open = true;
                    unclear = true;
                }
            }
            i += 1;
        }
        let mut alts: Vec<CAlt> = vec![];
        loop {
            let mut a: CAlt = vec![];
            if matches!(t.get(i), Some((Tok::Hash, _))) {
                i += 1;
            } else {
                loop {
                    match t.get(i) {
                        Some((Tok::Name(n), _)) => a.push((true, n.clone())),
                        Some((Tok::Term(s), _)) => a.push((false, s.clone())),
                        _ => break,
                    }
                    i += 1;
                }
                if a.is_empty() {
                    return inv("symbol expected", i);
                }
            }
            alts.push(a);
            if matches!(t.get(i), Some((Tok::Pipe, _))) {
                i += 1;
            } else {
                break;
            }
        }
        if matches!(t.get(i), Some((Tok::Action, _))) {
            i += 1;
        }
        let Some((Tok::Semi, _)) = t.get(i) else { return inv("semicolon expected", i) };
        i += 1;
        match rules.get_mut(name) {
            None => {
                rules.insert(name.clone(), RuleText { alts, ignore });
            }
            Some(r) => {
                if has_over {
                    // what an override in a later statement for the same rule means is not said
                    open = true;
                    unclear = true;
                }
                r.alts.extend(alts);
            }
        }
    }
    match weave(&rules) {
        Some(r) if !open => Verdict::Valid(r),
        Some(r) if !unclear => Verdict::Open(Some(r)),
        _ => Verdict::Open(None),
    }
}

fn weave(rules: &BTreeMap<String, RuleText>) -> Option<CRules> {
    let mut out = CRules::new();
    for (n, r) in rules {
        let mut alts = r.alts.clone();
        if let Some(ig) = &r.ignore {
            // everything that can be reached from the ignore production
            let mut seen = BTreeSet::new();
            let mut todo = vec![ig.clone()];
            while let Some(x) = todo.pop() {
                if !seen.insert(x.clone()) {
                    continue;
                }
                // an ignore production that is not completely defined
                let d = rules.get(&x)?;
                for (is_rule, s) in d.alts.iter().flatten() {
                    if *is_rule {
                        todo.push(s.clone());
                    }
                }
            }
            if !seen.contains(n) {
                for a in alts.iter_mut() {
                    let mut b = vec![];
                    for (k, s) in a.iter().enumerate() {
                        if k > 0 {
                            b.push((true, ig.clone()));
                        }
                        b.push(s.clone());
                    }
                    *a = b;
                }
            }
        }
        out.insert(n.clone(), alts);
    }
    Some(out)
}

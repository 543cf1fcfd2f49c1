//! Writing a grammar in the rule notation, in a random layout.
use crate::choices::Src;
use crate::grammar::*;

pub const WS: &[&str] = &[" ", "\n", "\t", "  ", "\r\n", " \n\t", "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{b}\u{c}"];

pub struct Layout {
    /// 0 compact, 1 plain, 2 wild
    pub style: usize,
}
impl Layout {
    pub fn gen(s: &mut Src) -> Layout {
        Layout { style: s.weighted(&[40, 15, 45]) }
    }
    pub fn plain() -> Layout {
        Layout { style: 0 }
    }
    /// optional white space
    pub fn o(&self, s: &mut Src) -> String {
        match self.style {
            0 => " ".into(),
            1 => String::new(),
            _ => match s.weighted(&[50, 30, 15, 5]) {
                0 => String::new(),
                1 => s.pick(&WS[..4]).to_string(),
                2 => s.pick(WS).to_string(),
                _ => {
                    let mut x = String::new();
                    for _ in 0..s.range(1, 6) {
                        x.push_str(s.pick(WS));
                    }
                    if s.chance(1) && s.chance(8) {
                        // very many of them
                        x = x.repeat(s.size(2000));
                    }
                    x
                }
            },
        }
    }
    /// required white space
    pub fn r(&self, s: &mut Src) -> String {
        let x = self.o(s);
        if x.is_empty() {
            match self.style {
                2 => s.pick(WS).to_string(),
                _ => " ".into(),
            }
        } else {
            x
        }
    }
}

/// one statement `name -> alts {action} ;`
#[derive(Clone, Debug)]
pub struct Stmt {
    pub rule: usize,
    pub alts: Vec<Alt>,
    /// text between the braces
    pub action: Option<String>,
    /// Some(None): `$[IGNORE:#]`; Some(Some(i)): `$[IGNORE:name]`
    pub over: Option<Option<usize>>,
}

pub fn plain_stmts(g: &Grammar) -> Vec<Stmt> {
    (0..g.n())
        .filter(|&i| !g.rules[i].is_empty())
        .map(|i| Stmt { rule: i, alts: g.rules[i].clone(), action: None, over: None })
        .collect()
}

pub fn render_alt(s: &mut Src, l: &Layout, names: &[String], a: &Alt, out: &mut String) {
    if a.is_empty() {
        out.push('#');
        return;
    }
    for (k, sy) in a.iter().enumerate() {
        if k > 0 {
            let both = matches!(sy, Sym::N(_)) && matches!(a[k - 1], Sym::N(_));
            out.push_str(&if both { l.r(s) } else { l.o(s) });
        }
        match sy {
            Sym::N(j) => out.push_str(&names[*j]),
            Sym::T(t) => {
                out.push('"');
                out.push_str(t);
                out.push('"');
            }
        }
    }
}

pub fn render_stmt(s: &mut Src, l: &Layout, names: &[String], st: &Stmt, out: &mut String) {
    out.push_str(&names[st.rule]);
    out.push_str(&l.o(s));
    out.push_str("->");
    out.push_str(&l.o(s));
    if let Some(o) = &st.over {
        out.push_str("$[IGNORE");
        out.push_str(&l.o(s));
        out.push(':');
        match o {
            None => out.push('#'),
            Some(i) => out.push_str(&names[*i]),
        }
        out.push(']');
        out.push_str(&l.o(s));
    }
    for (k, a) in st.alts.iter().enumerate() {
        if k > 0 {
            out.push_str(&l.o(s));
            out.push('|');
            out.push_str(&l.o(s));
        }
        render_alt(s, l, names, a, out);
    }
    out.push_str(&l.o(s));
    if let Some(t) = &st.action {
        out.push('{');
        out.push_str(t);
        out.push('}');
        out.push_str(&l.o(s));
    }
    out.push(';');
    out.push_str(&l.o(s));
}

pub fn render(s: &mut Src, l: &Layout, names: &[String], stmts: &[Stmt], ignore: Option<usize>) -> String {
    let mut out = l.o(s);
    if let Some(i) = ignore {
        out.push_str("$IGNORE");
        out.push_str(&l.o(s));
        out.push(':');
        out.push_str(&l.o(s));
        out.push_str(&names[i]);
        out.push_str(&l.o(s));
        out.push(';');
        out.push_str(&l.o(s));
    }
    for st in stmts {
        render_stmt(s, l, names, st, &mut out);
    }
    out
}

/// fixed readable layout
pub fn render_plain(g: &Grammar) -> String {
    let mut s = Src::new(&[]);
    let l = Layout::plain();
    let mut out = String::new();
    for st in plain_stmts(g) {
        let mut one = String::new();
        render_stmt(&mut s, &l, &g.names, &st, &mut one);
        out.push_str(one.trim_end());
        out.push('\n');
    }
    out
}

/// split the alternatives of rules over several statements and change the order of the statements;
/// statements of one rule stay in order and only the first one carries action and override
pub fn scatter(s: &mut Src, stmts: Vec<Stmt>) -> Vec<Stmt> {
    let mut queues: Vec<Vec<Stmt>> = vec![];
    for st in stmts {
        let mut q = vec![];
        let mut rest = st.alts.clone();
        let mut first = true;
        while !rest.is_empty() {
            let n = if rest.len() > 1 && s.chance(30) { s.range(1, rest.len() - 1) } else { rest.len() };
            let tail = rest.split_off(n);
            q.push(Stmt {
                rule: st.rule,
                alts: rest,
                action: if first { st.action.clone() } else { None },
                over: if first { st.over } else { None },
            });
            rest = tail;
            first = false;
        }
        q.reverse();
        queues.push(q);
    }
    let mut out = vec![];
    while !queues.is_empty() {
        let i = s.below(queues.len());
        out.push(queues[i].pop().unwrap());
        if queues[i].is_empty() {
            queues.remove(i);
        }
    }
    out
}

//! Grammar model, textbook LL(1) algorithms (the reference) and generators.
use crate::choices::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sym {
    T(String),
    N(usize),
}
pub type Alt = Vec<Sym>;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Grammar {
    pub names: Vec<String>,
    /// alternatives per rule; no alternative at all = the rule is not defined
    pub rules: Vec<Vec<Alt>>,
    pub start: usize,
}

pub type Look = Option<char>; // None = end of input

#[derive(Clone, Debug)]
pub struct Sets {
    pub nullable: Vec<bool>,
    pub first: Vec<BTreeSet<char>>,
    pub follow: Vec<BTreeSet<Look>>,
}

impl Grammar {
    pub fn n(&self) -> usize {
        self.names.len()
    }
    pub fn chars(&self) -> BTreeSet<char> {
        let mut s = BTreeSet::new();
        for a in self.rules.iter().flatten() {
            for x in a {
                if let Sym::T(t) = x {
                    s.extend(t.chars());
                }
            }
        }
        s
    }
    pub fn undefined_used(&self) -> bool {
        self.rules.iter().flatten().flatten().any(|s| matches!(s, Sym::N(i) if self.rules[*i].is_empty()))
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut nl = vec![false; self.n()];
        loop {
            let mut ch = false;
            for i in 0..self.n() {
                if !nl[i] && self.rules[i].iter().any(|a| alt_nullable(a, &nl)) {
                    nl[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return nl;
            }
        }
    }

    /// textbook least fixpoints
    pub fn sets(&self) -> Sets {
        let nullable = self.nullable();
        let n = self.n();
        let mut first = vec![BTreeSet::new(); n];
        loop {
            let mut ch = false;
            for i in 0..n {
                for a in &self.rules[i] {
                    let f = seq_first(a, &nullable, &first);
                    for c in f {
                        ch |= first[i].insert(c);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut follow: Vec<BTreeSet<Look>> = vec![BTreeSet::new(); n];
        if self.start < n {
            follow[self.start].insert(None);
        }
        loop {
            let mut ch = false;
            for i in 0..n {
                for a in &self.rules[i] {
                    for (k, s) in a.iter().enumerate() {
                        if let Sym::N(j) = s {
                            let rest = &a[k + 1..];
                            let mut add: BTreeSet<Look> =
                                seq_first(rest, &nullable, &first).into_iter().map(Some).collect();
                            if alt_nullable(rest, &nullable) {
                                add.extend(follow[i].iter().cloned());
                            }
                            for c in add {
                                ch |= follow[*j].insert(c);
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        Sets { nullable, first, follow }
    }

    pub fn predict(&self, st: &Sets, i: usize, a: &Alt) -> BTreeSet<Look> {
        let mut p: BTreeSet<Look> = seq_first(a, &st.nullable, &st.first).into_iter().map(Some).collect();
        if alt_nullable(a, &st.nullable) {
            p.extend(st.follow[i].iter().cloned());
        }
        p
    }

    /// first conflict (rule, alternative, later alternative)
    pub fn conflict(&self, st: &Sets) -> Option<(usize, usize, usize)> {
        for i in 0..self.n() {
            let mut seen: BTreeMap<Look, usize> = BTreeMap::new();
            for (k, a) in self.rules[i].iter().enumerate() {
                for c in self.predict(st, i, a) {
                    if let Some(o) = seen.insert(c, k) {
                        if o != k {
                            return Some((i, o, k));
                        }
                    }
                }
            }
            // two alternatives with empty prediction cannot collide
        }
        None
    }

    /// left-corner edges (rule, alternative, position) -> rule
    fn left_corners(&self, nl: &[bool]) -> Vec<(usize, usize, usize, usize)> {
        let mut e = vec![];
        for i in 0..self.n() {
            for (k, a) in self.rules[i].iter().enumerate() {
                for (p, s) in a.iter().enumerate() {
                    match s {
                        Sym::T(t) if t.is_empty() => continue,
                        Sym::T(_) => break,
                        Sym::N(j) => {
                            e.push((i, k, p, *j));
                            if !nl[*j] {
                                break;
                            }
                        }
                    }
                }
            }
        }
        e
    }
    /// an edge on a left-corner cycle
    pub fn left_recursion(&self) -> Option<(usize, usize, usize)> {
        let nl = self.nullable();
        let edges = self.left_corners(&nl);
        let n = self.n();
        let mut adj = vec![vec![]; n];
        for &(i, _, _, j) in &edges {
            adj[i].push(j);
        }
        // strongly connected components would do; reachability is enough at this size
        let reach = |from: usize| -> Vec<bool> {
            let mut seen = vec![false; n];
            let mut st = vec![from];
            while let Some(x) = st.pop() {
                for &y in &adj[x] {
                    if !seen[y] {
                        seen[y] = true;
                        st.push(y);
                    }
                }
            }
            seen
        };
        let mut cache: BTreeMap<usize, Vec<bool>> = BTreeMap::new();
        for &(i, k, p, j) in &edges {
            if i == j {
                return Some((i, k, p));
            }
            let r = cache.entry(j).or_insert_with(|| reach(j));
            if r[i] {
                return Some((i, k, p));
            }
        }
        None
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut pr = vec![false; self.n()];
        loop {
            let mut ch = false;
            for i in 0..self.n() {
                if !pr[i]
                    && self.rules[i].iter().any(|a| a.iter().all(|s| matches!(s, Sym::T(_)) || matches!(s, Sym::N(j) if pr[*j])))
                {
                    pr[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return pr;
            }
        }
    }

    /// usable by the textbook definition
    pub fn is_ll1(&self) -> bool {
        self.left_recursion().is_none() && self.conflict(&self.sets()).is_none()
    }

    /// least derivation height of each rule and the alternative that attains it
    pub fn min_alt(&self) -> Vec<(usize, usize)> {
        let n = self.n();
        let mut h = vec![(usize::MAX, 0usize); n];
        loop {
            let mut ch = false;
            for i in 0..n {
                for (k, a) in self.rules[i].iter().enumerate() {
                    let mut m = 0usize;
                    for s in a {
                        if let Sym::N(j) = s {
                            m = m.max(h[*j].0);
                        }
                    }
                    if m != usize::MAX && m + 1 < h[i].0 {
                        h[i] = (m + 1, k);
                        ch = true;
                    }
                }
            }
            if !ch {
                return h;
            }
        }
    }
}

pub fn alt_nullable(a: &[Sym], nl: &[bool]) -> bool {
    a.iter().all(|s| match s {
        Sym::T(t) => t.is_empty(),
        Sym::N(i) => nl[*i],
    })
}
pub fn seq_first(a: &[Sym], nl: &[bool], first: &[BTreeSet<char>]) -> BTreeSet<char> {
    let mut out = BTreeSet::new();
    for s in a {
        match s {
            Sym::T(t) => {
                if let Some(c) = t.chars().next() {
                    out.insert(c);
                    return out;
                }
            }
            Sym::N(i) => {
                out.extend(first[*i].iter().cloned());
                if !nl[*i] {
                    return out;
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct GenOpts {
    /// terminals must be writable between quotes
    pub text_ok: bool,
    /// allow the terminal ""
    pub empty_terminal: bool,
    /// rarely generate a larger grammar
    pub max_rules: usize,
    /// terminals of more than a few characters
    pub long_terminals: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { text_ok: true, empty_terminal: true, max_rules: 40, long_terminals: true }
    }
}

const ASCII: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'x', 'y', 'z', '0', '1', '9', '+', '-', '*', '(', ')', ' ', '[', ']', ',', '=', 'A',
    'Z', '_', '.',
];
const TRICKY: &[char] = &[
    '#', ';', '|', '{', '}', '$', ':', '>', '!', '\n', '\t', '\r', '\'', '/', '~', '\u{7f}', '\0', '%', '&', '?',
];
const WIDE: &[char] = &[
    'ä', 'ß', 'é', 'Ω', 'ж', '日', '本', '語', '😀', '🦀', '\u{301}', '\u{a0}', '\u{3000}', '\u{ffff}', '\u{10ffff}',
    '\u{80}', '²', '١', '\u{feff}',
];
/// characters with relatives: other case, other width, other normal form, other line end
const RELATED: &[char] = &[
    'k', 'K', '\u{212a}', 's', 'S', '\u{17f}', 'i', 'I', 'ı', 'İ', 'ä', 'Ä', 'å', 'Å', '\u{212b}', 'ω', 'Ω', '\u{2126}',
    'σ', 'ς', 'Σ', 'ж', 'Ж', 'ß', 'ẞ', 'é', 'e', '\u{301}', 'ａ', 'a', '１', '1', '\n', '\r', '\u{85}', '\u{2028}', '\u{b}',
    '\u{c}', ' ', '\u{a0}', '\t', '\u{200b}', '\u{200d}', '\u{202e}', '\u{fffd}', '\u{e000}', '\u{d7ff}', '\u{100}',
    '\u{1f600}', '\u{f600}', '\u{10061}', '\u{161}',
];
/// characters that are not seen, or that change how their neighbours look
pub const UNSEEN: &[char] = &[
    '\u{fe0f}', '\u{fe0e}', '\u{fe00}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{2060}', '\u{2061}', '\u{2063}', '\u{ad}', '\u{feff}', '\u{180e}', '\u{180b}',
    '\u{34f}', '\u{61c}', '\u{202a}', '\u{202c}', '\u{202e}', '\u{2066}', '\u{2069}', '\u{e0001}', '\u{e0100}', '\u{301}', '\u{300}', '\u{20e3}', '\u{1f3fb}', '\u{3164}', '\u{115f}',
    '\0', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1f}', ' ', '\u{7f}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2002}', '\u{2009}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{3000}', '\u{fff9}', '\u{fffc}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{e000}', '\u{f8ff}', '\u{10fffd}', '\u{10ffff}',
];
/// a character that is easily taken for `c`
pub fn relative(s: &mut Src, c: char) -> char {
    let v = c as u32;
    let cand = match s.below(10) {
        0 => c.to_uppercase().next().unwrap_or(c),
        1 => c.to_lowercase().next().unwrap_or(c),
        2 => char::from_u32(v ^ 0x20).unwrap_or(c),
        3 => char::from_u32(v ^ 1).unwrap_or(c),
        4 => char::from_u32(v & 0x7f).unwrap_or(c),
        5 => char::from_u32(v & 0xff).unwrap_or(c),
        6 => char::from_u32(v & 0xffff).unwrap_or(c),
        7 => char::from_u32(v | 0x80).unwrap_or(c),
        8 => char::from_u32(v + 0x100 * (1 + s.below(2) as u32 * 0xff)).unwrap_or(c),
        _ => match c {
            '\n' => '\r',
            '\r' => '\n',
            ' ' => '\u{a0}',
            '\u{a0}' => ' ',
            'a'..='z' | '0'..='9' => char::from_u32(v + 0xfee0).unwrap_or(c),
            _ => char::from_u32(v.wrapping_sub(0xfee0)).unwrap_or(c),
        },
    };
    if cand == c {
        *s.pick(RELATED)
    } else {
        cand
    }
}

pub fn alphabet(s: &mut Src) -> Vec<char> {
    let mode = s.weighted(&[45, 18, 18, 9, 7, 3]);
    if mode == 5 {
        // anywhere
        let k = s.range(2, 8);
        let mut v: Vec<char> = vec![];
        while v.len() < k {
            let c = char::from_u32(s.size(0x10ffff) as u32).unwrap_or('\u{e001}');
            let c = if c == '"' || c == '\\' { 'q' } else { c };
            v.push(c);
            if s.chance(30) {
                let r = relative(s, c);
                if r != '"' && r != '\\' {
                    v.push(r);
                }
            }
        }
        return v;
    }
    let mut pool: Vec<char> = match mode {
        0 => ASCII.to_vec(),
        1 => ASCII.iter().chain(TRICKY).cloned().collect(),
        2 => ASCII[..9].iter().chain(WIDE).cloned().collect(),
        4 => RELATED.to_vec(),
        _ => ASCII.iter().chain(TRICKY).chain(WIDE).cloned().collect(),
    };
    let k = s.range(2, pool.len().min(24));
    let start = s.below(pool.len());
    pool.rotate_left(start);
    pool.truncate(k);
    pool
}

/// characters that no generated grammar uses by itself: for repairs that need a fresh leading character
pub fn fresh_char(used: &BTreeSet<char>, k: &mut u32) -> char {
    loop {
        let c = char::from_u32(0x4e00 + *k).unwrap();
        *k += 1;
        if !used.contains(&c) {
            return c;
        }
    }
}
pub fn nice_fresh(used: &BTreeSet<char>, k: &mut u32) -> char {
    for c in "ghijklmnopqrstuvwBCDEFGHIJKLMNOPQRSTUVWXY2345678".chars() {
        if !used.contains(&c) {
            return c;
        }
    }
    fresh_char(used, k)
}

/// words with a meaning in the notation, in messages, as names of rules, or in other notations
pub const WORDS: &[&str] = &[
    "start", "start", "IGNORE", "$IGNORE: ws;", "$[IGNORE:#]", "terminate", "Terminate", "empty", "Empty", "#", "##", "->", ";", "|", "{", "}", "{}", ":", "r1", "r2", "list", "term", "digit", "a",
    "//", "/*", "*/", "--", "<!--", "\n", "\r\n", "\n\n", " ", "  ", "\t", "\t ", "0", "00", "1", "-1", "+1", "1.0", "0x1", "1e5", "true", "null", "None", "e\u{301}", "é", "ﬁ", "ß", "SS", "🇩🇪", "👩\u{200d}🔬",
    "\0", "\u{feff}", "EOF", "PushConst", "Print", "print", "'", "''", "`", "%s", "{0}", "..", "\u{7f}", "a\u{300}b", "aa", "aab", "ab", "aba", "start start",
];

/// text of a terminal over the alphabet; in raw form (escapes as written in a grammar text)
pub fn gen_terminal(s: &mut Src, al: &[char], o: &GenOpts) -> String {
    let len = match s.weighted(&[60, 25, 10, 3, 2]) {
        0 => 1,
        1 => s.range(2, 3),
        2 => s.range(3, 8),
        3 => {
            if o.empty_terminal {
                0
            } else {
                1
            }
        }
        _ => {
            if o.long_terminals {
                s.range(9, 300)
            } else {
                4
            }
        }
    };
    if s.chance(2) {
        // words that have a meaning somewhere else
        let w = *s.pick(WORDS);
        if !w.is_empty() || o.empty_terminal {
            return w.to_string();
        }
    }
    let mut t = String::new();
    if len > 20 {
        // long literals repeat a short random block
        let block: Vec<char> = (0..s.range(1, 6)).map(|_| *s.pick(al)).collect();
        for i in 0..len {
            t.push(block[i % block.len()]);
        }
        return t;
    }
    for _ in 0..len {
        if s.chance(3) {
            if o.text_ok {
                // escape pairs stay as they are written
                t.push('\\');
                t.push(*s.pick(&['"', '\\', 'n', 'ä', '}']));
            } else {
                t.push(*s.pick(&['"', '\\', 'ä']));
            }
        } else {
            t.push(*s.pick(al));
        }
    }
    t
}

const NAME_POOL: &[&str] = &[
    "a", "b", "c", "list", "list_s", "list_s_", "term", "terms", "expr", "digit", "number", "A", "B", "aa", "ab", "a_",
    "a1", "a2", "startx", "star", "Start", "START", "x9", "ws", "whitespace", "IGNORE", "ä", "größe", "名前", "é1",
    "ß_2", "Ω", "rule1", "rule10", "rule2", "r", "R_", "identifier", "ident", "end", "empty", "terminate", "ж",
];

pub fn gen_names(s: &mut Src, n: usize, start_name: bool) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    let style = s.weighted(&[40, 30, 30]);
    let off = s.below(NAME_POOL.len());
    for i in 0..n {
        if i == 0 && start_name {
            names.push("start".into());
            continue;
        }
        let mut nm = match style {
            0 => format!("r{i}"),
            1 if i <= NAME_POOL.len() => NAME_POOL[(off + i * 7) % NAME_POOL.len()].to_string(),
            _ => {
                let mut x = s.pick(&["a", "b", "n", "s", "start", "ä", "Z"]).to_string();
                for _ in 0..s.below(4) {
                    x.push(*s.pick(&['_', '1', 'a', 'b', '²', 'é', '0']));
                }
                x
            }
        };
        while names.contains(&nm) {
            nm.push_str(["_", "1", "a"][i % 3]);
        }
        names.push(nm);
    }
    names
}

/// an arbitrary grammar with all rules defined; nothing else guaranteed
pub fn raw_grammar(s: &mut Src, o: &GenOpts) -> Grammar {
    let n = match s.weighted(&[30, 45, 20, 5]) {
        0 => s.range(1, 3),
        1 => s.range(3, 6),
        2 => s.range(6, 12),
        _ => s.range(12, o.max_rules.max(13)),
    }
    .min(o.max_rules);
    let names = gen_names(s, n, true);
    let eps = *s.pick(&[12u32, 30, 0, 50, 70]);
    let ntr = *s.pick(&[45u32, 30, 60, 75, 15]);
    let al = alphabet(s);
    let max_alt = if s.chance(6) { s.range(4, 12) } else { s.range(1, 4) };
    let max_len = if s.chance(6) { s.range(4, 10) } else { s.range(1, 4) };
    let back = *s.pick(&[10u32, 0, 40]); // leading symbols that point backwards
    let mut rules = vec![];
    for i in 0..n {
        let na = s.range(1, max_alt);
        let mut alts: Vec<Alt> = vec![];
        for k in 0..na {
            if s.chance(eps) {
                if !alts.iter().any(|a| a.is_empty()) || s.chance(3) {
                    alts.push(vec![]);
                    continue;
                }
            }
            let len = s.range(1, max_len);
            let mut a = vec![];
            let mut leading = true;
            for _ in 0..len {
                if s.chance(ntr) {
                    let j = if leading && !s.chance(back) {
                        if i + 1 >= n {
                            usize::MAX
                        } else {
                            s.range(i + 1, n - 1)
                        }
                    } else if s.chance(50) {
                        s.below(n)
                    } else {
                        (i + 1 + s.below(3)) % n
                    };
                    if j != usize::MAX {
                        a.push(Sym::N(j));
                        continue;
                    }
                }
                let mut t = gen_terminal(s, &al, o);
                if leading && s.chance(70) && t.len() == 1 {
                    // different alternatives tend to start differently
                    t = al[(i * 3 + k) % al.len()].to_string();
                }
                leading &= t.is_empty();
                a.push(Sym::T(t));
            }
            alts.push(a);
        }
        rules.push(alts);
    }
    Grammar { names, rules, start: 0 }
}

/// every rule derives some string
pub fn make_productive(s: &mut Src, g: &mut Grammar, k: &mut u32) {
    loop {
        let pr = g.productive();
        let Some(i) = pr.iter().position(|p| !p) else { return };
        if s.chance(50) && !g.rules[i].iter().any(|a| a.is_empty()) {
            g.rules[i].push(vec![]);
        } else {
            let c = nice_fresh(&g.chars(), k);
            g.rules[i].push(vec![Sym::T(c.to_string())]);
        }
    }
}
pub fn break_left_recursion(_s: &mut Src, g: &mut Grammar, k: &mut u32) {
    while let Some((i, a, p)) = g.left_recursion() {
        let c = nice_fresh(&g.chars(), k);
        g.rules[i][a][p] = Sym::T(c.to_string());
    }
}

/// now and then one dimension of the grammar is far larger than usual; what it is
pub fn magnify(s: &mut Src, g: &mut Grammar) -> Option<&'static str> {
    if !s.chance(4) {
        return None;
    }
    let al: Vec<char> = g.chars().into_iter().filter(|c| *c != '\\' && *c != '"').collect();
    let c = |s: &mut Src| if al.is_empty() { "m".to_string() } else { s.pick(&al).to_string() };
    let i = s.below(g.n());
    let k = s.below(g.rules[i].len());
    match s.below(5) {
        4 => {
            // many symbols that can be empty, one after the other
            let n = s.size(120);
            let at = s.below(g.rules[i][k].len() + 1);
            for j in 0..n {
                let mut name = format!("opt{j}");
                while g.names.contains(&name) {
                    name.push('o');
                }
                let t = char::from_u32(0x6000 + j as u32).unwrap_or('m').to_string();
                let mut alts = vec![vec![Sym::T(t)], vec![]];
                if j % 3 == 1 {
                    alts.swap(0, 1);
                }
                g.names.push(name);
                g.rules.push(alts);
                g.rules[i][k].insert(at + j, Sym::N(g.names.len() - 1));
            }
            Some("many optional symbols")
        }
        0 | 1 => {
            // a long alternative
            let n = s.size(700);
            let block: Vec<Sym> = (0..s.range(1, 5))
                .map(|_| if s.chance(20) { Sym::N(s.range(i, g.n() - 1)) } else { Sym::T(c(s)) })
                .map(|y| if y == Sym::N(i) { Sym::T("m".into()) } else { y })
                .collect();
            let first = s.below(2);
            for j in 0..n {
                let y = block[j % block.len()].clone();
                // nonterminals only now and then: the derivation must not explode
                let y = if matches!(y, Sym::N(_)) && j > 12 { Sym::T("m".into()) } else { y };
                if first == 0 {
                    g.rules[i][k].push(y);
                } else {
                    g.rules[i][k].insert(j.min(1), y);
                }
            }
            Some("long alternative")
        }
        2 => {
            // many alternatives
            let n = s.size(400);
            for j in 0..n {
                let t = char::from_u32(0x5000 + j as u32 * (1 + 7 * s.below(2) as u32)).unwrap_or('m').to_string();
                let mut a = vec![Sym::T(t)];
                if j % 5 == 4 {
                    a.push(Sym::T(c(s)));
                }
                g.rules[i].push(a);
            }
            Some("many alternatives")
        }
        _ => {
            // a long terminal
            let n = s.size(6000);
            let t: String = (0..s.range(1, 4)).map(|_| c(s)).collect();
            g.rules[i][k].push(Sym::T(t.repeat(n / 3 + 1)));
            Some("long terminal")
        }
    }
}

/// a reduced-to-productive LL(1) grammar, by repairing `raw_grammar`
pub fn ll1_grammar(s: &mut Src, o: &GenOpts) -> Grammar {
    let mut g = raw_grammar(s, o);
    if o.max_rules > 3 {
        magnify(s, &mut g);
    }
    make_ll1(s, &mut g);
    g
}
pub fn make_ll1(s: &mut Src, g: &mut Grammar) {
    let mut k = 0;
    for round in 0..400 {
        make_productive(s, g, &mut k);
        break_left_recursion(s, g, &mut k);
        let st = g.sets();
        let Some((i, _a, b)) = g.conflict(&st) else {
            if g.productive().iter().all(|&x| x) {
                return;
            }
            continue;
        };
        let used = g.chars();
        match if round > 200 { 1 } else { s.weighted(&[45, 30, 25]) } {
            0 => {
                let c = nice_fresh(&used, &mut k);
                g.rules[i][b].insert(0, Sym::T(c.to_string()));
            }
            1 => {
                if g.rules[i].len() > 1 {
                    g.rules[i].remove(b);
                }
            }
            _ => {
                let c = nice_fresh(&used, &mut k);
                match g.rules[i][b].first_mut() {
                    Some(Sym::T(t)) if !t.is_empty() => {
                        let rest: String = t.chars().skip(1).collect();
                        // keep escape pairs intact
                        if t.starts_with('\\') {
                            let rest2: String = t.chars().skip(2).collect();
                            *t = format!("{c}{rest2}");
                        } else {
                            *t = format!("{c}{rest}");
                        }
                    }
                    _ => g.rules[i][b].insert(0, Sym::T(c.to_string())),
                }
            }
        }
    }
    // never reached in practice; keep the generator total
    g.rules = vec![vec![vec![Sym::T("a".into())]]; g.names.len()];
}

// ---------------------------------------------------------------- derivations

/// derivation tree in preorder; iterative so that deep ones are fine
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DNode {
    Rule { rule: usize, alt: usize, depth: u32 },
    Leaf { text: String, depth: u32 },
}
pub type DTree = Vec<DNode>;

/// random derivation from `rule`: random alternatives while fuel lasts, least-height ones afterwards
pub fn derive(s: &mut Src, g: &Grammar, min: &[(usize, usize)], rule: usize, fuel: usize) -> DTree {
    let mut fuel = fuel;
    // some derivations go on as long as they can
    let grow = if fuel > 3 && s.chance(30) { recursive_alts(g) } else { vec![] };
    let mut out = vec![];
    let mut todo: Vec<(Sym, u32)> = vec![(Sym::N(rule), 0)];
    while let Some((sym, depth)) = todo.pop() {
        match sym {
            Sym::T(t) => out.push(DNode::Leaf { text: t, depth }),
            Sym::N(i) => {
                let alt = if fuel > 0 && !grow.is_empty() && !grow[i].is_empty() && !(s.chance(8) && !s.exhausted()) {
                    fuel -= 1;
                    if s.exhausted() { grow[i][fuel % grow[i].len()] } else { *s.pick(&grow[i]) }
                } else if fuel > 0 && !s.exhausted() {
                    fuel -= 1;
                    let mut k = s.below(g.rules[i].len());
                    // prefer alternatives with something in them, rules above all
                    for _ in 0..2 {
                        if !g.rules[i][k].iter().any(|y| matches!(y, Sym::N(_))) && s.chance(55) {
                            k = s.below(g.rules[i].len());
                        }
                    }
                    k
                } else {
                    min[i].1
                };
                out.push(DNode::Rule { rule: i, alt, depth });
                for x in g.rules[i][alt].iter().rev() {
                    todo.push((x.clone(), depth + 1));
                }
            }
        }
        if out.len() > 200_000 {
            fuel = 0;
        }
    }
    out
}
/// per rule the alternatives that lead back to the rule
pub fn recursive_alts(g: &Grammar) -> Vec<Vec<usize>> {
    let n = g.n();
    let mut reach = vec![vec![false; n]; n];
    for i in 0..n {
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            for y in g.rules[x].iter().flatten() {
                if let Sym::N(j) = y {
                    if !reach[i][*j] {
                        reach[i][*j] = true;
                        st.push(*j);
                    }
                }
            }
        }
    }
    (0..n)
        .map(|i| {
            (0..g.rules[i].len())
                .filter(|&k| g.rules[i][k].iter().any(|y| matches!(y, Sym::N(j) if *j == i || reach[*j][i])))
                .collect()
        })
        .collect()
}
pub fn yield_of(d: &DTree) -> String {
    let mut o = String::new();
    for n in d {
        if let DNode::Leaf { text, .. } = n {
            o.push_str(text);
        }
    }
    o
}
/// the tree the library should return, flattened: (depth, node text)
pub type FlatTree = Vec<(u32, String)>;
pub fn flat_of(d: &DTree) -> FlatTree {
    d.iter()
        .map(|n| match n {
            DNode::Rule { depth, .. } => (*depth, String::new()),
            DNode::Leaf { text, depth } => (*depth, text.clone()),
        })
        .collect()
}

/// script mutations
pub fn mutate(s: &mut Src, script: &str, al: &[char]) -> String {
    let mut v: Vec<char> = script.chars().collect();
    let rounds = s.weighted(&[70, 20, 10]) + 1;
    for _ in 0..rounds {
        let c = if s.chance(25) { *s.pick(&['a', '#', '\n', ' ', 'ü', '😀', '\\', '"', '\0', '1']) } else if al.is_empty() { 'a' } else { *s.pick(al) };
        match s.below(13) {
            12 => {
                // something unseen next to a character
                let i = s.below(v.len() + 1);
                let x = *s.pick(UNSEEN);
                v.insert(i, x);
            }
            0 => {
                let i = s.below(v.len() + 1);
                v.truncate(i);
            }
            8 | 9 if !v.is_empty() => {
                // one character, or every occurrence of it, by one that looks like it
                let i = s.below(v.len());
                let old = v[i];
                let new = relative(s, old);
                if s.chance(30) {
                    v.iter_mut().filter(|x| **x == old).for_each(|x| *x = new);
                } else {
                    v[i] = new;
                }
            }
            10 => {
                // at the very end or the very beginning
                let j = *s.pick(&['\n', ' ', '\r', '\0', '\u{feff}', '\u{1a}', '\u{200b}', '\t', '\u{301}', ';', '"']);
                if s.chance(30) {
                    v.insert(0, j);
                } else {
                    v.push(j);
                }
            }
            11 if v.len() > 1 => {
                // drop a block
                let i = s.below(v.len());
                let j = (i + 1 + s.size(v.len())).min(v.len());
                v.drain(i..j);
            }
            1 => v.push(c),
            2 if !v.is_empty() => {
                let i = s.below(v.len());
                v.remove(i);
            }
            3 => {
                let i = s.below(v.len() + 1);
                v.insert(i, c);
            }
            4 if !v.is_empty() => {
                let i = s.below(v.len());
                v[i] = c;
            }
            5 if v.len() > 1 => {
                let i = s.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            6 if !v.is_empty() => {
                let i = s.below(v.len());
                let j = (i + s.range(1, 4)).min(v.len());
                let blk: Vec<char> = v[i..j].to_vec();
                for (o, b) in blk.into_iter().enumerate() {
                    v.insert(i + o, b);
                }
            }
            _ => {
                let t = s.range(1, 3);
                for _ in 0..t {
                    v.push(if al.is_empty() { 'b' } else { *s.pick(al) });
                }
            }
        }
    }
    v.into_iter().collect()
}

/// a script for `g`: (text, derivation if it was derived and not edited)
pub fn gen_script(s: &mut Src, g: &Grammar, fuel_max: usize) -> (String, Option<DTree>) {
    let min = g.min_alt();
    let al: Vec<char> = g.chars().into_iter().collect();
    match s.weighted(&[35, 40, 12, 8, 5]) {
        0 => {
            let fuel = s.below(fuel_max + 1);
            let d = derive(s, g, &min, g.start, fuel);
            (yield_of(&d), Some(d))
        }
        1 => {
            let fuel = s.below(fuel_max + 1);
            let d = derive(s, g, &min, g.start, fuel);
            let t = yield_of(&d);
            (mutate(s, &t, &al), None)
        }
        2 => {
            // random string over the alphabet
            let n = s.below(10);
            ((0..n).map(|_| if al.is_empty() { 'a' } else { *s.pick(&al) }).collect(), None)
        }
        3 => {
            // two derivations glued, possibly of another rule
            let fuel = s.below(fuel_max + 1);
            let a = yield_of(&derive(s, g, &min, g.start, fuel));
            let r = s.below(g.n());
            let b = yield_of(&derive(s, g, &min, r, fuel / 2));
            (a + &b, None)
        }
        _ => {
            let r = s.below(g.n());
            let fuel = s.below(fuel_max + 1);
            (yield_of(&derive(s, g, &min, r, fuel)), None)
        }
    }
}

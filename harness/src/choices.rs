//! Choice sequences: the single source of randomness of every case.
//!
//! `ChoiceStrategy` is a proptest strategy whose values are vectors of 16-bit choices and whose value
//! tree shrinks them (delete blocks, zero blocks, lower single values). Decoders read a sequence
//! through `Src`; once it is exhausted every further choice is 0, the simplest one.
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use proptest::prelude::Rng;

pub struct Src<'a> {
    d: &'a [u16],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u16]) -> Src<'a> {
        Src { d, p: 0 }
    }
    pub fn raw(&mut self) -> u16 {
        let v = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.p >= self.d.len()
    }
    /// uniform in 0..n, monotone in the choice
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n > 1 << 14 {
            return ((u128::from(self.u64()) * n as u128) >> 64) as usize;
        }
        (self.raw() as usize * n) >> 16
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true in `pct` of 100 cases; choice 0 is false
    pub fn chance(&mut self, pct: u32) -> bool {
        (u32::from(self.raw()) * 100) >> 16 >= 100 - pct.min(100) && pct > 0
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// 0..=max, every order of magnitude about equally likely
    pub fn size(&mut self, max: usize) -> usize {
        let bits = (usize::BITS - max.leading_zeros()) as usize;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1usize << (b - 1);
        let hi = (lo - 1 + lo).min(max);
        lo + self.below((hi - lo).saturating_add(1))
    }
    /// index by weight; the first entry should be the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        (0..4).fold(0, |a, _| a << 16 | u64::from(self.raw()))
    }
    /// Fisher-Yates; all-zero choices leave the order as it is
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub struct ChoiceStrategy {
    pub max: usize,
}

impl Strategy for ChoiceStrategy {
    type Tree = ChoiceTree;
    type Value = Vec<u16>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        // a sixth of the cases are short sequences, so that small cases are well covered
        let len = match rng.next_u32() % 12 {
            0 => (rng.next_u32() as usize % 24).min(self.max),
            1 => (rng.next_u32() as usize % 120).min(self.max),
            _ => self.max,
        };
        let mut bytes = vec![0u8; len * 2];
        rng.fill_bytes(&mut bytes);
        let v: Vec<u16> = bytes.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        Ok(ChoiceTree::new(v))
    }
}

#[derive(Clone, Copy, Debug)]
enum Pass {
    Trim,
    Delete,
    Zero,
    Lower,
    Done,
}

pub struct ChoiceTree {
    best: Vec<u16>,
    cur: Vec<u16>,
    pass: Pass,
    size: usize,
    at: usize,
    step: u32,
    progress: bool,
    rounds: u32,
}

impl ChoiceTree {
    pub fn new(v: Vec<u16>) -> ChoiceTree {
        ChoiceTree { best: v.clone(), cur: v, pass: Pass::Trim, size: 0, at: 0, step: 0, progress: false, rounds: 0 }
    }
    fn start_block(&mut self, p: Pass) {
        self.pass = p;
        self.size = (self.best.len() / 2).clamp(1, 256);
        self.at = self.best.len();
    }
    /// compute the next candidate from `best`; false when all passes are exhausted
    fn next(&mut self) -> bool {
        loop {
            match self.pass {
                Pass::Trim => {
                    // keep the first half / three quarters / ...
                    let n = self.best.len();
                    self.step += 1;
                    if self.step > 12 || n == 0 {
                        self.step = 0;
                        self.start_block(Pass::Delete);
                        continue;
                    }
                    let keep = n - (n >> self.step.min(12)).max(1);
                    self.cur = self.best[..keep].to_vec();
                    return true;
                }
                Pass::Delete | Pass::Zero => {
                    if self.at == 0 {
                        if self.size == 1 {
                            if matches!(self.pass, Pass::Delete) {
                                self.start_block(Pass::Zero);
                            } else {
                                self.pass = Pass::Lower;
                                self.at = 0;
                                self.step = 0;
                            }
                        } else {
                            self.size = (self.size / 2).max(1);
                            self.at = self.best.len();
                        }
                        if self.best.is_empty() {
                            self.pass = Pass::Done;
                        }
                        continue;
                    }
                    let hi = self.at.min(self.best.len());
                    let lo = hi.saturating_sub(self.size);
                    self.at = lo;
                    if lo == hi {
                        continue;
                    }
                    let mut c = self.best.clone();
                    if matches!(self.pass, Pass::Delete) {
                        c.drain(lo..hi);
                    } else {
                        if c[lo..hi].iter().all(|&x| x == 0) {
                            continue;
                        }
                        c[lo..hi].iter_mut().for_each(|x| *x = 0);
                    }
                    self.cur = c;
                    return true;
                }
                Pass::Lower => {
                    if self.at >= self.best.len() {
                        if self.progress && self.rounds < 3 {
                            self.rounds += 1;
                            self.progress = false;
                            self.step = 0;
                            self.pass = Pass::Trim;
                            continue;
                        }
                        self.pass = Pass::Done;
                        continue;
                    }
                    let x = self.best[self.at];
                    // 1/2, 3/4, 7/8 ... of the value
                    self.step += 1;
                    let cut = x >> self.step;
                    if cut == 0 || self.step > 8 {
                        self.at += 1;
                        self.step = 0;
                        continue;
                    }
                    self.cur = self.best.clone();
                    self.cur[self.at] = x - cut;
                    return true;
                }
                Pass::Done => return false,
            }
        }
    }
}

impl ValueTree for ChoiceTree {
    type Value = Vec<u16>;
    fn current(&self) -> Vec<u16> {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // the current value fails: it is the new best
        if self.cur != self.best {
            self.progress = true;
            self.best = self.cur.clone();
            if matches!(self.pass, Pass::Trim | Pass::Lower) {
                self.step = self.step.saturating_sub(1);
            }
        }
        self.next()
    }
    fn complicate(&mut self) -> bool {
        // the current value passes: go on from the best one
        if self.next() {
            true
        } else {
            let changed = self.cur != self.best;
            self.cur = self.best.clone();
            let _ = changed;
            false
        }
    }
}

//! The source of every random choice. A case is a pure function of its tape of choices, so a
//! failing case shrinks by shrinking the tape and replays from the tape alone.

pub struct Src {
    tape: Vec<u64>, // replayed choices; once used up, further choices are 0 (replay) or random
    pos: usize,
    rng: Option<u64>,
    pub used: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut s = 0x5f0f_1234_u64;
    let mut out = 0;
    for p in parts {
        s ^= p.wrapping_mul(0xff51afd7ed558ccd);
        out = splitmix(&mut s);
    }
    out
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(seed), used: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, used: vec![] }
    }
    /// Follows the tape, then goes on at random.
    pub fn guided(tape: Vec<u64>, seed: u64) -> Self {
        Src { tape, pos: 0, rng: Some(seed), used: vec![] }
    }
    /// A choice in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos] % n
        } else if let Some(r) = self.rng.as_mut() {
            splitmix(r) % n
        } else {
            0
        };
        self.pos += 1;
        self.used.push(v);
        v as usize
    }
    /// Inclusive range; `lo` is the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index by weight; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A word of the program's own (see dict.rs) that fits.
    pub fn word(&mut self, fits: impl Fn(&str) -> bool, or: &str) -> String {
        let w = &crate::dict::get().words;
        let i = self.below(w.len().max(1));
        // (the next one that fits)
        (0..w.len()).map(|k| &w[(i + k) % w.len()]).find(|x| fits(x)).cloned().unwrap_or(or.to_string())
    }
    /// A number at or next to one of the program's own, at most `max`.
    pub fn number(&mut self, max: i64) -> i64 {
        let n = &crate::dict::get().nums;
        let fit = n.partition_point(|x| *x <= max).max(1);
        let x = n.get(self.below(fit)).copied().unwrap_or(1);
        (x + [0, 1, -1][self.below(3)]).clamp(0, max)
    }
}

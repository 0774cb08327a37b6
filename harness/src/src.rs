//! Choice source. Every random decision of a generator goes through `Src`, which records the
//! decisions on a tape. A tape can be replayed and shrunk; zero is always the simplest choice and
//! a tape that ends early continues with zeros.

use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(mut seed: u64) -> Self {
        let a = splitmix(&mut seed);
        let b = splitmix(&mut seed) | 1;
        Rng(a, b)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (((self.next() >> 1) as u128 * n as u128) >> 63) as u64
    }
    /// xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

/// FNV style mixing of identifiers into a seed.
pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        let mut x = h ^ p;
        h = splitmix(&mut x);
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

/// Entry of a tape that is drawn anew (`Src::mixed`).
pub const HOLE: u64 = 0x484F_4C45_9E37_79B9;

enum Mode {
    Random(Rng),
    /// Replays `input` but for its holes and draws what comes after it (guided search).
    Mixed(Rng),
    Replay,
}

pub struct Src {
    mode: Mode,
    input: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
    mirror: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(Rng::new(seed)),
            input: Vec::new(),
            pos: 0,
            tape: Vec::new(),
            mirror: None,
        }
    }

    pub fn mixed(input: Vec<u64>, seed: u64) -> Self {
        Src {
            mode: Mode::Mixed(Rng::new(seed)),
            input,
            pos: 0,
            tape: Vec::new(),
            mirror: None,
        }
    }

    /// The next choice of a mixed source, if it is given.
    fn given(&mut self) -> Option<u64> {
        match self.input.get(self.pos) {
            Some(&HOLE) | None => None,
            Some(v) => Some(*v),
        }
    }

    pub fn replay(tape: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay,
            input: tape,
            pos: 0,
            tape: Vec::new(),
            mirror: None,
        }
    }

    pub fn set_mirror(&mut self, f: std::fs::File) {
        self.mirror = Some(f);
    }

    fn push(&mut self, v: u64) -> u64 {
        self.tape.push(v);
        if let Some(f) = &mut self.mirror {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    /// A value in `0..n`; `n == 0` stands for the whole range of `u64`.
    pub fn below(&mut self, n: u64) -> u64 {
        if let Mode::Mixed(_) = self.mode {
            let g = self.given();
            self.pos += 1;
            if let Some(v) = g {
                return self.push(if n == 0 { v } else { v % n });
            }
        }
        let v = match &mut self.mode {
            Mode::Random(r) | Mode::Mixed(r) => {
                let v = r.next();
                if n == 0 {
                    v
                } else {
                    (((v >> 1) as u128 * n as u128) >> 63) as u64
                }
            }
            Mode::Replay => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        };
        self.push(v)
    }

    /// A value in `0..n` (`0`: all) that is drawn by `f` while generating at random. Only the value
    /// itself is recorded, so the tape does not depend on how it was found.
    pub fn draw(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if let Mode::Mixed(_) = self.mode {
            if self.given().is_some() {
                return self.below(n);
            }
            self.pos += 1;
        }
        if let Mode::Random(r) | Mode::Mixed(r) = &mut self.mode {
            let v = f(r);
            let v = if n == 0 { v } else { v % n };
            self.push(v)
        } else {
            self.below(n)
        }
    }

    /// Generator for decisions that are not recorded themselves (only their outcome is, through
    /// `draw`); present while generating at random.
    pub fn rng(&mut self) -> Option<&mut Rng> {
        let open = self.given().is_none();
        match &mut self.mode {
            Mode::Random(r) => Some(r),
            Mode::Mixed(r) if open => Some(r),
            _ => None,
        }
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability num/den (false is the simple choice).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// Index chosen by weight; the tape records the index itself.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let n = weights.len() as u64;
        if let Mode::Mixed(_) = self.mode {
            if self.given().is_some() {
                return self.below(n) as usize;
            }
            self.pos += 1;
        }
        if let Mode::Random(r) | Mode::Mixed(r) = &mut self.mode {
            let total: u64 = weights.iter().map(|w| *w as u64).sum();
            let mut x = (((r.next() >> 1) as u128 * total as u128) >> 63) as u64;
            let mut idx = 0;
            for (i, w) in weights.iter().enumerate() {
                if x < *w as u64 {
                    idx = i;
                    break;
                }
                x -= *w as u64;
            }
            self.push(idx as u64) as usize
        } else {
            self.below(n) as usize
        }
    }

    /// Number of elements of a list: geometric like with mean about `mean`, at most `max`.
    pub fn more(&mut self, have: usize, mean: u64, max: usize) -> bool {
        have < max && self.below(mean + 1) != 0
    }
}

/// Shrinks a failing tape. `fails` returns true if the tape still fails; `budget` bounds the
/// number of evaluations.
pub fn shrink(tape: Vec<u64>, mut budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    // `fails` gives back the tape that was really consumed
    let mut best = tape;
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && budget > 0 {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                budget -= 1;
                match fails(&cand) {
                    Some(t) if t.len() < best.len() || (t.len() == best.len() && t < best) => {
                        best = t;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        while size >= 1 && budget > 0 {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    budget -= 1;
                    if let Some(t) = fails(&cand) {
                        if t.len() < best.len() || (t.len() == best.len() && t < best) {
                            best = t;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // reduce single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi && budget > 0 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                budget -= 1;
                match fails(&cand) {
                    Some(t) if t.len() < best.len() || (t.len() == best.len() && t < best) => {
                        best = t;
                        improved = true;
                        if i >= best.len() || best[i] > mid {
                            break;
                        }
                        hi = best[i];
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    best
}

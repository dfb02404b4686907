//! The source of choices behind every generator.
//!
//! A generator draws bounded integers from a `Src`. A `Src` is seeded (a pure
//! function of seed, property, phase and case number), replays a recorded
//! list of choices (used for shrinking), or reads fuzzer bytes. Generators are
//! written so that the choice `0` is the simplest one.

use crate::dict::dict;

pub struct Src<'a> {
    mode: Mode<'a>,
    pub rec: Vec<u64>,
    /// The last numbers and strings of the case, for generators whose values
    /// are related to earlier ones.
    nums: Vec<u64>,
    strs: Vec<Vec<u8>>,
}

enum Mode<'a> {
    Rand(u64),
    Replay(&'a [u64], usize),
    Bytes(&'a [u8], usize),
    /// A list of choices, then random ones.
    Extend(&'a [u64], usize, u64),
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Self {
        Src { mode: Mode::Rand(seed), rec: Vec::new(), nums: Vec::new(), strs: Vec::new() }
    }
    pub fn replay(choices: &'a [u64]) -> Self {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new(), nums: Vec::new(), strs: Vec::new() }
    }
    pub fn bytes(data: &'a [u8]) -> Self {
        Src { mode: Mode::Bytes(data, 0), rec: Vec::new(), nums: Vec::new(), strs: Vec::new() }
    }

    pub fn extend(choices: &'a [u64], seed: u64) -> Self {
        Src { mode: Mode::Extend(choices, 0, seed), rec: Vec::with_capacity(choices.len() + 8), nums: Vec::new(), strs: Vec::new() }
    }

    /// True when a fuzzer input has been used up.
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Bytes(d, p) => *p >= d.len(),
            Mode::Replay(c, p) | Mode::Extend(c, p, _) => *p >= c.len(),
            Mode::Rand(_) => false,
        }
    }

    /// Now and then, a number that is new in the tree under test, or one next
    /// to it, within `lo..=hi`.
    fn special(&mut self, lo: u64, hi: u64) -> Option<u64> {
        let s = match &mut self.mode {
            Mode::Rand(s) => s,
            Mode::Extend(c, p, s) if *p >= c.len() => s,
            _ => return None,
        };
        let nums = &dict().nums;
        if nums.is_empty() || hi - lo < 15 {
            return None;
        }
        *s = s.wrapping_add(0x9e3779b97f4a7c15);
        let r = mix(*s);
        if r & 15 != 0 {
            return None;
        }
        let d = nums[(r >> 32) as usize % nums.len()];
        let d = match r >> 4 & 15 {
            0 => d.wrapping_mul(2),
            1 => d / 2,
            2 => d.wrapping_add(32),
            3 => d.wrapping_sub(32),
            4 => d.wrapping_mul(8),
            5 => d / 8,
            6..=8 => d.wrapping_add(1),
            9 | 10 => d.wrapping_sub(1),
            _ => d,
        };
        (lo <= d && d <= hi).then_some(d)
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if let Some(v) = self.special(0, n - 1) {
            self.rec.push(v);
            return v;
        }
        let v = match &mut self.mode {
            Mode::Rand(s) => {
                *s = s.wrapping_add(0x9e3779b97f4a7c15);
                let r = mix(*s);
                if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(n - 1)
            }
            Mode::Extend(c, p, s) => {
                *p += 1;
                match c.get(*p - 1) {
                    Some(v) if *v < n => *v,
                    Some(v) => v % n,
                    None => {
                        *s = s.wrapping_add(0x9e3779b97f4a7c15);
                        ((mix(*s) as u128 * n as u128) >> 64) as u64
                    }
                }
            }
            Mode::Bytes(d, p) => {
                let width = match n - 1 {
                    0 => 0,
                    x if x <= 0xff => 1,
                    x if x <= 0xffff => 2,
                    x if x <= 0xffff_ffff => 4,
                    _ => 8,
                };
                let mut v = 0u64;
                for i in 0..width {
                    let b = d.get(*p).copied().unwrap_or(0);
                    *p += 1;
                    v |= (b as u64) << (8 * i);
                }
                v % n
            }
        };
        self.rec.push(v);
        v
    }
    /// Any 64-bit value.
    pub fn any64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if let Some(v) = self.special(lo, hi) {
            self.rec.push(v - lo);
            return v;
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability `num/den`; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.usize(items.len())]
    }
    /// An index drawn with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    pub fn note(&mut self, n: u64) {
        if self.nums.len() == 8 {
            self.nums.remove(0);
        }
        self.nums.push(n);
    }
    pub fn note_str(&mut self, s: &[u8]) {
        if s.len() > 600 {
            return;
        }
        if self.strs.len() == 4 {
            self.strs.remove(0);
        }
        self.strs.push(s.to_vec());
    }
    /// Now and then, an earlier number of the case or one related to it,
    /// within `lo..=hi`.
    pub fn related(&mut self, lo: u64, hi: u64) -> Option<u64> {
        if self.nums.is_empty() || !self.chance(1, 12) {
            return None;
        }
        let n = self.nums.len();
        let back = if self.flip() { 0 } else { self.usize(n) };
        let v = self.nums[n - 1 - back];
        let v = match self.below(8) {
            0 => v,
            1 | 2 => v.wrapping_add(1),
            3 => v.wrapping_sub(1),
            4 => v ^ 1 << self.below(64),
            5 => v.wrapping_neg(),
            6 => v.wrapping_mul(2),
            _ => v.wrapping_add(self.below(9)).wrapping_sub(4),
        };
        (lo <= v && v <= hi).then_some(v)
    }
    /// Now and then, one of the last strings of the case.
    pub fn again(&mut self) -> Option<Vec<u8>> {
        if self.strs.is_empty() || !self.chance(1, 16) {
            return None;
        }
        let n = self.strs.len();
        let i = n - 1 - if self.flip() { 0 } else { self.usize(n) };
        Some(self.strs[i].clone())
    }
}

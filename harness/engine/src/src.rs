//! The source of every random choice. A case is a pure function of the sequence of choices drawn
//! here; the sequence is recorded, so it can be shrunk, mutated, saved and replayed.

use crate::cov;
use std::io::Write;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// Draw on the constants of executed comparisons (they depend on the cases run before).
    dictionary: bool,
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: &[u64]) -> Rng {
        let mut x = 0x243F_6A88_85A3_08D3u64;
        for &v in seed {
            x ^= v;
            splitmix(&mut x);
            x = x.rotate_left(23).wrapping_mul(0xD129_8C4F_52E7_1A2B);
        }
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], dictionary: true }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn next128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: u128) -> u128 {
        if max == u128::MAX {
            return self.next128();
        }
        let n = max + 1;
        if n <= 1 << 32 {
            return ((self.next() >> 32) as u128 * n) >> 32;
        }
        if n <= 1 << 64 {
            return (self.next() as u128 * n) >> 64;
        }
        self.next128() % n
    }
}

pub struct Src {
    pub rec: Vec<u128>,
    replay: Vec<u128>,
    pos: usize,
    rng: Option<Rng>,
    pub thorough: bool,
    pub trace: Option<std::fs::File>,
    keep: bool,
}

impl Src {
    pub fn random(rng: Rng, thorough: bool) -> Src {
        Src { rec: vec![], replay: vec![], pos: 0, rng: Some(rng), thorough, trace: None, keep: true }
    }
    /// A source whose choices are a function of the seed alone, kept out of the record: for long
    /// histories inside a case.
    pub fn inner(seed: u64, thorough: bool) -> Src {
        let rng = Rng { dictionary: false, ..Rng::new(&[seed]) };
        Src { keep: false, ..Src::random(rng, thorough) }
    }
    /// Strict replay: past the end every choice is 0.
    pub fn replay(choices: Vec<u128>, thorough: bool) -> Src {
        Src { rec: vec![], replay: choices, pos: 0, rng: None, thorough, trace: None, keep: true }
    }
    /// Replay a mutated prefix, then continue at random.
    pub fn mutated(choices: Vec<u128>, rng: Rng, thorough: bool) -> Src {
        Src { rec: vec![], replay: choices, pos: 0, rng: Some(rng), thorough, trace: None, keep: true }
    }

    /// A choice in 0..=max; `f` picks it when it is not replayed. 0 is the simplest choice.
    #[inline]
    fn choice(&mut self, max: u128, f: impl FnOnce(&mut Rng) -> u128) -> u128 {
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            self.pos += 1;
            if v > max { v % (max + 1) } else { v }
        } else if let Some(r) = &mut self.rng {
            f(r)
        } else {
            0
        };
        debug_assert!(v <= max);
        if self.keep {
            self.rec.push(v);
        }
        if let Some(t) = &mut self.trace {
            let _ = t.write_all(format!("{v}\n").as_bytes());
        }
        v
    }

    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: usize) -> usize {
        self.choice(max as u128, |r| r.upto(max as u128)) as usize
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.upto(n - 1)
    }
    /// Uniform in lo..=hi; shrinks to lo.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto(hi - lo)
    }
    /// true with probability num/den; shrinks to false.
    pub fn prob(&mut self, num: u32, den: u32) -> bool {
        self.choice(1, |r| (r.upto(den as u128 - 1) < num as u128) as u128) == 1
    }
    pub fn coin(&mut self) -> bool {
        self.prob(1, 2)
    }
    /// Index with the given weights; shrinks to 0, so put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        self.choice(w.len() as u128 - 1, |r| {
            let mut x = r.upto(total as u128 - 1) as u32;
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    return i as u128;
                }
                x -= k;
            }
            unreachable!()
        }) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// "One more element?" flag of a sequence of about `mean` elements (geometric).
    pub fn more(&mut self, mean: usize) -> bool {
        let d = if cfg!(miri) { mean.min(8) } else { mean } as u32 + 1;
        self.choice(1, |r| (r.upto(d as u128 - 1) != 0) as u128) == 1
    }
    /// A size in lo..=hi with small values, powers of two and their neighbours, dictionary
    /// constants and both ends more likely than under a uniform choice.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        // the interpreter is about a thousand times slower
        let hi = if cfg!(miri) { hi.min(lo + 10) } else { hi };
        let span = (hi - lo) as u128;
        lo + self.choice(span, |r| special(r, lo as i128, hi as i128, true) as u128 - lo as u128) as usize
    }
    /// A signed value in lo..=hi, biased to small values, both ends, powers of two, dictionary
    /// constants, all bit lengths; shrinks towards 0 (or the end nearest to it).
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        self.signed(lo, hi, |r| special(r, lo, hi, false))
    }
    /// A signed value uniform in lo..=hi; shrinks like `int`.
    pub fn uni(&mut self, lo: i128, hi: i128) -> i128 {
        self.signed(lo, hi, |r| (lo as u128).wrapping_add(r.upto((hi as u128).wrapping_sub(lo as u128))) as i128)
    }
    fn signed(&mut self, lo: i128, hi: i128, f: impl FnOnce(&mut Rng) -> i128) -> i128 {
        debug_assert!(lo <= hi);
        let span = (hi as u128).wrapping_sub(lo as u128);
        let c = self.choice(span, |r| encode(f(r), lo, hi));
        decode(c, lo, hi)
    }
    /// As `int`, for the whole of u128.
    pub fn u128(&mut self, max: u128) -> u128 {
        if max <= i128::MAX as u128 {
            return self.int(0, max as i128) as u128;
        }
        self.choice(max, |r| {
            let v = match r.upto(5) {
                0 => r.upto(max),
                1 => max - r.upto(4),
                2 => r.upto(8),
                3 => (1u128 << r.upto(127)).wrapping_add(r.upto(2)).wrapping_sub(1),
                4 => r.next128() >> r.upto(127),
                _ => (special(r, 0, i128::MAX, false)) as u128,
            };
            if v > max { v % (max + 1) } else { v }
        })
    }
    /// A permutation of 0..n.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.upto(n - 1 - i);
            p.swap(i, j);
        }
        p
    }
    /// lo <= l <= r <= hi, biased to the ends, to l near r and to aligned bounds.
    pub fn sub_range(&mut self, n: usize) -> (usize, usize) {
        let a = self.index_upto(n);
        let b = self.index_upto(n);
        if a <= b { (a, b) } else { (b, a) }
    }
    /// Position in 0..=n, biased to the ends and to multiples of powers of two.
    pub fn index_upto(&mut self, n: usize) -> usize {
        self.choice(n as u128, |r| match r.upto(9) {
            0 => 0,
            1 => n as u128,
            2 | 3 => {
                let k = r.upto(7) as u32;
                let v = (r.upto(n as u128) >> k) << k;
                v.min(n as u128)
            }
            _ => r.upto(n as u128),
        }) as usize
    }
}

/// Distance order from the value closest to zero: 0, -1, 1, -2, 2, ... while both sides last.
fn encode(v: i128, lo: i128, hi: i128) -> u128 {
    if lo >= 0 {
        return (v - lo) as u128;
    }
    if hi <= 0 {
        return (hi as u128).wrapping_sub(v as u128);
    }
    let neg = lo.unsigned_abs(); // number of negative values
    let pos = hi as u128; // number of positive values
    let both = neg.min(pos);
    if v >= 0 {
        let v = v as u128;
        if v <= both { 2 * v } else { both + v }
    } else {
        let v = v.unsigned_abs();
        if v <= both { 2 * v - 1 } else { both + v }
    }
}
fn decode(c: u128, lo: i128, hi: i128) -> i128 {
    if lo >= 0 {
        return lo + c as i128;
    }
    if hi <= 0 {
        return (hi as u128).wrapping_sub(c) as i128;
    }
    let neg = lo.unsigned_abs();
    let pos = hi as u128;
    let both = neg.min(pos);
    if c <= 2 * both {
        if c % 2 == 0 { (c / 2) as i128 } else { (c.div_ceil(2) as i128).wrapping_neg() }
    } else if pos > neg {
        (c - both) as i128
    } else {
        ((c - both) as i128).wrapping_neg()
    }
}

fn special(r: &mut Rng, lo: i128, hi: i128, size: bool) -> i128 {
    let span = (hi as u128).wrapping_sub(lo as u128);
    let clamp = |v: i128, r: &mut Rng| {
        if v >= lo && v <= hi { v } else { (lo as u128).wrapping_add(r.upto(span)) as i128 }
    };
    match r.upto(if size { 11 } else { 9 }) {
        0 | 1 => (lo as u128).wrapping_add(r.upto(span)) as i128,
        2 => {
            // small magnitude
            let v = r.upto(8) as i128;
            let v = if lo < 0 && r.upto(1) == 1 { -v } else { lo.max(0).saturating_add(v) };
            clamp(v, r)
        }
        3 => {
            let d = r.upto(3.min(span)) as i128;
            if r.upto(1) == 0 { hi - d } else { lo + d }
        }
        4 | 5 => {
            // bit-length uniform
            let v = (r.next128() >> 1 >> r.upto(126)) as i128;
            let v = if lo < 0 && r.upto(1) == 1 { -v } else { v };
            if v < lo || v > hi {
                let m = v.unsigned_abs() % span.max(1);
                (lo as u128).wrapping_add(m) as i128
            } else {
                v
            }
        }
        6 => {
            let v = (1i128 << r.upto(126)) + r.upto(2) as i128 - 1;
            let v = if lo < 0 && r.upto(1) == 1 { -v } else { v };
            clamp(v, r)
        }
        7 | 8 => {
            let n = if r.dictionary { cov::n_constants() } else { 0 };
            if n == 0 {
                return (lo as u128).wrapping_add(r.upto(span)) as i128;
            }
            let c = cov::constant_at(r.upto(n as u128 - 1) as usize);
            let c = match r.upto(3) {
                0 => c as i64 as i128,
                1 => c as i32 as i128,
                _ => c as i128,
            };
            clamp(c + r.upto(2) as i128 - 1, r)
        }
        _ => {
            // geometric-like around small sizes
            let cap = 1u128 << r.upto(7);
            clamp(lo.saturating_add(r.upto(cap) as i128), r)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn encode_decode() {
        for (lo, hi) in [(-5, 5), (-2, 9), (-9, 2), (0, 7), (3, 9), (-9, -3), (-4, 0)] {
            let mut seen = vec![];
            for c in 0..=(hi - lo) as u128 {
                let v = decode(c, lo, hi);
                assert!(v >= lo && v <= hi);
                assert_eq!(encode(v, lo, hi), c);
                seen.push(v);
            }
            seen.sort();
            seen.dedup();
            assert_eq!(seen.len() as i128, hi - lo + 1);
        }
        let (lo, hi) = (i128::MIN, i128::MAX);
        for v in [lo, lo + 1, -1, 0, 1, hi - 1, hi] {
            assert_eq!(decode(encode(v, lo, hi), lo, hi), v);
        }
    }
}

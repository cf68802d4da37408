//! Strings for P18 and P19, and their exhaustive enumeration.
use engine::{Ctx, Rng, Src};

/// Comparable elements that are neither Copy nor Clone nor ordered.
#[derive(PartialEq, Debug)]
pub struct El(pub String);

pub fn string(src: &mut Src, ctx: &mut Ctx) -> Vec<u32> {
    let k = *src.pick(&[2u32, 1, 3, 30]);
    let fam = src.weighted(&[3, 4, 3, 2, 2]);
    ctx.label(["random", "periodic with changes", "squares and borders", "Fibonacci-like", "all equal with changes"][fam]);
    let hi = *src.pick(&[8usize, 20, 40, 120]);
    let n = src.size(0, hi);
    let letter = |src: &mut Src| src.upto(k as usize - 1) as u32;
    let mut s: Vec<u32> = vec![];
    match fam {
        0 => s = (0..n).map(|_| letter(src)).collect(),
        1 => {
            let p = 1 + src.upto(6);
            let w: Vec<u32> = (0..p).map(|_| letter(src)).collect();
            s = (0..n).map(|i| w[i % p]).collect();
        }
        2 => {
            while s.len() < n {
                match src.weighted(&[3, 2, 2]) {
                    1 => s.extend_from_within(..),
                    2 if !s.is_empty() => {
                        let l = src.below(s.len());
                        s.extend_from_within(..=l);
                    }
                    _ => {
                        let c = letter(src);
                        s.push(c);
                    }
                }
            }
            s.truncate(n);
        }
        3 => {
            let (mut a, mut b) = (vec![letter(src)], vec![letter(src), letter(src)]);
            while b.len() < n {
                let mut c = b.clone();
                c.extend_from_slice(&a);
                a = b;
                b = c;
            }
            b.truncate(n);
            s = b;
        }
        _ => s = vec![0; n],
    }
    if fam != 0 && n > 0 {
        for _ in 0..src.upto(2) {
            let i = src.below(n);
            s[i] = letter(src) + src.upto(1) as u32;
        }
    }
    ctx.label_if(n == 0, "empty");
    s
}
/// All strings of length 0..=len over k letters, in order.
pub fn count(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}
pub fn nth(k: u64, mut i: u64) -> Vec<u8> {
    let mut l = 0;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    (0..l).map(|_| { let c = b'a' + (i % k) as u8; i /= k; c }).collect()
}
pub fn big(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = 1 + r.upto(2);
    let mut s: Vec<u8> = (0..n).map(|_| r.upto(k) as u8).collect();
    let hi = [3u128, 50, 5000][r.upto(2) as usize];
    let p = 1 + r.upto(hi) as usize;
    for i in p..n {
        if r.upto(n as u128 / 3) > 0 {
            s[i] = s[i - p];
        }
    }
    s
}
/// Longest common prefix of s and each suffix, by polynomial hashes and binary search; the
/// mismatch position is confirmed directly, and so are sampled parts of the match.
pub fn z_oracle(s: &[u8]) -> Vec<usize> {
    const M: u128 = (1 << 61) - 1;
    let n = s.len();
    let b = 911_382_323u128;
    let mut h = vec![0u64; n + 1];
    let mut p = vec![1u64; n + 1];
    for i in 0..n {
        h[i + 1] = ((h[i] as u128 * b + s[i] as u128 + 1) % M) as u64;
        p[i + 1] = (p[i] as u128 * b % M) as u64;
    }
    let get = |l: usize, r: usize| (h[r] as u128 + M - h[l] as u128 * p[r - l] as u128 % M) % M;
    (0..n)
        .map(|i| {
            if i == 0 {
                return 0;
            }
            let (mut lo, mut hi) = (0, n - i);
            while lo < hi {
                let m = (lo + hi + 1) / 2;
                if get(0, m) == get(i, i + m) { lo = m } else { hi = m - 1 }
            }
            assert!(lo == n - i || s[lo] != s[i + lo], "oracle: hash collision");
            let mut k = 1;
            while k <= lo {
                assert!(s[lo - k] == s[i + lo - k], "oracle: hash collision");
                k *= 2;
            }
            lo
        })
        .collect()
}

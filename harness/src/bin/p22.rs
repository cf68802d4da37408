//! P22 factorial tables against Pascal's triangle and prime factorisation of the binomial.
use engine::*;
use harness::modint::M;
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, Modulus};

type Fns = (u32, &'static str, fn(usize, &mut Ctx) -> R, fn(usize, &[(usize, usize)], &[u32], &mut Ctx) -> R);

/// Every pair of a small table against Pascal's triangle.
fn table<T: Modulus>(n: usize, ctx: &mut Ctx) -> R {
    let p = T::VALUE as u64;
    let f = Factorial::<T>::new(n);
    let mut row = vec![1u64 % p];
    for i in 0..=n {
        let mut perm = 1 % p;
        for k in 0..=i {
            ensure_eq!(f.choose(i, k).val() as u64, row[k], "table of {n} modulo {p}: choose({i}, {k})");
            ensure_eq!(f.perm(i, k).val() as u64, perm, "table of {n} modulo {p}: perm({i}, {k})");
            perm = perm * (i - k) as u64 % p;
            ctx.checks += 2;
        }
        let mut next = vec![1 % p; i + 2];
        for k in 1..=i {
            next[k] = (row[k - 1] + row[k]) % p;
        }
        row = next;
    }
    ctx.nontrivial_if(n >= 3);
    Ok(())
}
/// Binomial from its prime factorisation, falling factorial by multiplication.
fn binomial(n: usize, k: usize, primes: &[u32], p: u64) -> u64 {
    let mut r = 1 % p;
    for &q in primes.iter().take_while(|&&q| q as usize <= n) {
        let q = q as usize;
        let (mut a, mut b, mut c, mut carry, mut e) = (k, n - k, n, 0, 0u64);
        // Kummer: the exponent of q is the number of carries when adding k and n - k in base q
        while c > 0 {
            carry = (a % q + b % q + carry >= q) as usize;
            e += carry as u64;
            (a, b, c) = (a / q, b / q, c / q);
        }
        for _ in 0..e {
            r = (r as u128 * q as u128 % p as u128) as u64;
        }
    }
    r
}
fn pairs<T: Modulus>(size: usize, q: &[(usize, usize)], primes: &[u32], ctx: &mut Ctx) -> R {
    let p = T::VALUE as u64;
    let f = Factorial::<T>::new(size);
    for &(n, k) in q {
        ensure_eq!(f.choose(n, k).val() as u64, binomial(n, k, primes, p), "table of {size} modulo {p}: choose({n}, {k})");
        let mut perm = 1 % p;
        for i in 0..k {
            perm = (perm as u128 * (n - i) as u128 % p as u128) as u64;
        }
        ensure_eq!(f.perm(n, k).val() as u64, perm, "table of {size} modulo {p}: perm({n}, {k})");
        ctx.checks += 2;
    }
    Ok(())
}

macro_rules! list {
    ($($p:literal)*) => { [
        $( ($p, "hint true", table::<M<$p, true>> as fn(usize, &mut Ctx) -> R, pairs::<M<$p, true>> as fn(usize, &[(usize, usize)], &[u32], &mut Ctx) -> R),
           ($p, "hint false", table::<M<$p, false>> as _, pairs::<M<$p, false>> as _), )*
        (1_000_000_007, "Mod1000000007", table::<Mod1000000007> as _, pairs::<Mod1000000007> as _),
        (998_244_353, "Mod998244353", table::<Mod998244353> as _, pairs::<Mod998244353> as _),
    ] };
}
const FIELDS: [Fns; 46] = list!(2 3 5 7 11 13 17 19 31 61 67 97 101 257 499 1009 7919 65537 167772161 469762049 1000000009 2147483647);
const CAP: usize = 150;

fn cases() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, f) in FIELDS.iter().enumerate() {
        for n in 0..(f.0 as usize).min(CAP) {
            v.push((i, n));
        }
    }
    v
}
fn total(_: bool) -> u64 {
    cases().len() as u64
}
fn small(i: u64, ctx: &mut Ctx) -> R {
    let (f, n) = cases()[i as usize];
    ctx.note(|| format!("modulus {} ({}), table of size {n}, every pair", FIELDS[f].0, FIELDS[f].1));
    FIELDS[f].2(n, ctx)
}
fn random(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = src.below(FIELDS.len());
    let p = FIELDS[f].0 as usize;
    let hi = if src.prob(1, 400) { if src.thorough { 3_000_000 } else { 300_000 } } else { *src.pick(&[60, 1200]) };
    let size = src.size(0, hi.min(p - 1));
    let primes = harness::num::primes_upto(size.max(1));
    let mut q = vec![];
    loop {
        let n = size - src.size(0, size);
        let k = src.size(0, n);
        q.push((n, if src.coin() { k } else { n - k }));
        if !src.more(6) {
            break;
        }
    }
    ctx.note(|| format!("modulus {p} ({}), table of size {size}, pairs {q:?}", FIELDS[f].1));
    ctx.label_if(size == p - 1, "table reaches modulus - 1");
    ctx.label_if(size > 1500, "large table");
    ctx.nontrivial_if(size >= 20 && q.iter().any(|&(n, k)| k > 1 && k + 1 < n));
    FIELDS[f].3(size, &q, &primes, ctx)
}

pub fn property() -> Property {
    Property {
        id: "P22",
        facets: vec![
            Facet::exhaustive("small", "every table size below min(p, 150) of 46 prime fields (with and without the primality hint), every pair 0 <= k <= n against Pascal's triangle and the falling factorial; non-trivial: size >= 3", total, small),
            Facet { fuel: 20_000_000_000, ..Facet::random("random", "tables up to 300,000 (3,000,000 thorough) below the modulus, a few pairs each, against the binomial rebuilt from its prime factorisation (Kummer) and the falling factorial; non-trivial: size >= 20 and a pair with 1 < k < n - 1", 4_800_000, 48_000_000, random) },
        ],
        assumptions: &["the modulus is prime and above the table size"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

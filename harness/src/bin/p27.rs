//! P27 primality test and primitive root.
use engine::*;
use harness::num;
use rust_cp::math::internal_math::verif_hooks::{is_prime, primitive_root};
use std::sync::OnceLock;

const CHUNK: u64 = 1 << 16;
fn small_primes() -> &'static [u32] {
    static P: OnceLock<Vec<u32>> = OnceLock::new();
    P.get_or_init(|| num::primes_upto(46341))
}
fn all_total(_: bool) -> u64 {
    (1 << 31) / CHUNK
}
/// One block of the segmented sieve of Eratosthenes, and the same block of negative numbers.
fn block(i: u64, ctx: &mut Ctx) -> R {
    let lo = i * CHUNK;
    ctx.note(|| format!("all n in {lo}..{}, and the negatives of some", lo + CHUNK));
    let mut composite = vec![false; CHUNK as usize];
    for &p in small_primes() {
        let p = p as u64;
        if p * p >= lo + CHUNK {
            break;
        }
        let mut j = (p * p).max(lo.div_ceil(p) * p);
        while j < lo + CHUNK {
            composite[(j - lo) as usize] = true;
            j += p;
        }
    }
    for (k, c) in composite.iter().enumerate() {
        let n = lo + k as u64;
        let want = n >= 2 && !c;
        if is_prime(n as i32) != want {
            return Err(Fail::from(format!("is_prime({n}): got {}, expected {want}", !want)));
        }
        if k % 64 == 0 || want && k % 4 == 0 {
            let neg = -(n as i64) as i32;
            ensure_eq!(is_prime(neg), false, "is_prime({neg})");
        }
    }
    ctx.checks += CHUNK;
    ctx.nontrivial_if(i > 0);
    Ok(())
}
fn negative(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = -1 - src.int(0, i32::MAX as i128) as i64;
    ctx.note(|| format!("n = {n}"));
    ensure_eq!(is_prime(n as i32), false, "is_prime({n})");
    ctx.checks += 1;
    ctx.nontrivial_if(num::is_prime_trial(n.unsigned_abs()));
    Ok(())
}

/// The smallest generator, from the factors of p - 1.
fn check_root(p: u32, ctx: &mut Ctx) -> R {
    let g = primitive_root(p as i32);
    let phi = p as u64 - 1;
    let f = num::prime_factors(phi);
    let generates = |h: u64| f.iter().all(|q| num::pow_mod(h as u128, (phi / q) as u128, p as u128) != 1);
    let want = if p == 2 { 1 } else { (1..p as u64).find(|&h| generates(h)).unwrap() };
    ensure_eq!(g as i64, want as i64, "primitive_root({p})");
    ctx.checks += 1;
    ctx.label_if(f.len() >= 6, "six or more prime factors of p - 1");
    ctx.label_if(want > 20, "root above 20");
    ctx.nontrivial_if(want > 2);
    Ok(())
}
fn roots_limit(thorough: bool) -> usize {
    if thorough { 10_000_000 } else { 700_000 }
}
fn roots_primes() -> &'static [u32] {
    static P: OnceLock<Vec<u32>> = OnceLock::new();
    P.get_or_init(|| num::primes_upto(roots_limit(true)))
}
fn roots_total(thorough: bool) -> u64 {
    roots_primes().partition_point(|&p| p as usize <= roots_limit(thorough)) as u64
}
fn roots_small(i: u64, ctx: &mut Ctx) -> R {
    let p = roots_primes()[i as usize];
    ctx.note(|| format!("p = {p}"));
    check_root(p, ctx)
}
/// A multiplicative-group order with chosen factors, then the primes near it.
fn roots_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let max = i32::MAX as u64;
    let prime = |n: u64| small_primes().iter().take_while(|&&p| p as u64 * p as u64 <= n).all(|&p| n % p as u64 != 0);
    let mut step = 2u64;
    match src.weighted(&[3, 4, 2, 1]) {
        0 => {}
        1 => {
            // smooth: a product of small primes
            while src.more(5) {
                let q = *src.pick(&[2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29]);
                if step * q * 40 < max {
                    step *= q;
                }
            }
        }
        2 => step = 2 * small_primes()[src.below(small_primes().len())] as u64,
        _ => {
            let k = src.upto(26);
            step = 1 << (k + 1);
        }
    }
    // p = k * step + 1
    let mut k = src.int(1, (max / step - 1) as i128) as u64;
    if src.prob(1, 4) {
        k = max / step - src.int(0, ((max / step) / 2) as i128) as u64;
    }
    let mut tries = 0;
    while k * step + 1 > max || !prime(k * step + 1) {
        k = if k * step + 1 >= max { 1 } else { k + 1 };
        tries += 1;
        if tries > 3000 {
            return Ok(());
        }
    }
    let p = (k * step + 1) as u32;
    ctx.note(|| format!("p = {p}, p - 1 = {:?}", num::prime_factors(p as u64 - 1)));
    ensure_eq!(is_prime(p as i32), true, "is_prime({p})");
    check_root(p, ctx)
}
const SPECIAL: [u32; 12] = [2, 3, 5, 167772161, 469762049, 754974721, 998244353, 1000000007, 1000000009, 2147483647, 2147483629, 1811939329];
fn special_total(_: bool) -> u64 {
    SPECIAL.len() as u64
}
fn special(i: u64, ctx: &mut Ctx) -> R {
    ctx.note(|| format!("p = {}", SPECIAL[i as usize]));
    check_root(SPECIAL[i as usize], ctx)
}

pub fn property() -> Property {
    Property {
        id: "P27",
        facets: vec![
            Facet { fuel: 20_000_000_000, ..Facet::exhaustive("all", "every n from 0 to 2^31 - 1, in blocks of 65,536, against a segmented sieve, and the negatives of a sample; non-trivial: every block but the first", all_total, block) },
            Facet::random("negative", "negative numbers, over all bit lengths; non-trivial: the absolute value is prime", 200_000, 4_000_000, negative),
            Facet::exhaustive("special", "primitive roots of the primes with a built-in answer and of other well-known ones", special_total, special),
            Facet::exhaustive("roots", "primitive roots of every prime up to 700,000 (10,000,000 thorough) against the smallest h whose powers (p-1)/q are not 1; non-trivial: root above 2", roots_total, roots_small),
            Facet::random("roots-large", "primitive roots of primes up to 2^31 - 1 with p - 1 chosen as arbitrary, smooth, twice a prime times something, or a high power of two times something; non-trivial: root above 2", 60_000, 1_500_000, roots_large),
        ],
        assumptions: &["primitive_root is asked about primes only"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

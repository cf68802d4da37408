//! P28 modular building blocks against wide arithmetic.
use engine::*;
use harness::num;
use rust_cp::math::internal_math::verif_hooks::{barrett_mul, barrett_umod, inv_gcd, mul_mod, pow_mod, safe_mod};

fn check_safe(x: i64, m: i64, ctx: &mut Ctx) -> R {
    ensure_eq!(safe_mod(x, m) as i128, (x as i128).rem_euclid(m as i128), "safe_mod({x}, {m})");
    ctx.checks += 1;
    Ok(())
}
fn check_pow(x: i64, n: i64, m: i32, ctx: &mut Ctx) -> R {
    let want = num::pow_mod((x as i128).rem_euclid(m as i128) as u128, n as u128, m as u128);
    ensure_eq!(pow_mod(x, n, m) as i128, want as i128, "pow_mod({x}, {n}, {m})");
    ctx.checks += 1;
    Ok(())
}
fn check_mul(a: u32, b: u32, m: u32, ctx: &mut Ctx) -> R {
    let want = a as u64 * b as u64 % m as u64;
    ensure_eq!(barrett_umod(m), m, "umod of the reciprocal of {m}");
    ensure_eq!(barrett_mul(m, a, b) as u64, want, "{a} * {b} modulo {m} through the reciprocal");
    // ceil(2^64 / m), which wraps to 0 for m = 1
    let im = (1u128 << 64).div_ceil(m as u128) as u64;
    ensure_eq!(mul_mod(a, b, m, im) as u64, want, "mul_mod({a}, {b}, {m}, {im})");
    ctx.checks += 3;
    Ok(())
}
fn check_inv(a: i64, b: i64, ctx: &mut Ctx) -> R {
    let (g, x) = inv_gcd(a, b);
    let want = num::gcd(a.unsigned_abs() as u128, b as u128) as i64;
    ensure_eq!(g, want, "gcd reported by inv_gcd({a}, {b})");
    ensure!(0 <= x && x < b / g, "inv_gcd({a}, {b}) gives x = {x}, not in 0..{}", b / g);
    ensure_eq!((x as i128 * a as i128 - g as i128).rem_euclid(b as i128), 0, "inv_gcd({a}, {b}) gives x = {x}: x * a - gcd modulo b");
    ctx.checks += 3;
    Ok(())
}

const N: i64 = 160;
fn small_total(_: bool) -> u64 {
    N as u64
}
fn small(i: u64, ctx: &mut Ctx) -> R {
    let m = i as i64 + 1;
    ctx.note(|| format!("m = {m}: every remainder, product and inverse of small arguments"));
    for x in -3 * N..=3 * N {
        check_safe(x, m, ctx)?;
        check_inv(x, m, ctx)?;
        for n in 0..12 {
            check_pow(x, n, m as i32, ctx)?;
        }
    }
    for d in 0..N {
        for x in [i64::MIN + d, i64::MAX - d] {
            check_safe(x, m, ctx)?;
            check_inv(x, m, ctx)?;
            check_pow(x, i64::MAX - d, m as i32, ctx)?;
        }
        check_inv(m, i64::MAX - d, ctx)?;
        check_inv(-m, i64::MAX - d, ctx)?;
        check_inv(i64::MIN + d, i64::MAX - m, ctx)?;
    }
    for a in 0..m {
        for b in 0..m {
            check_mul(a as u32, b as u32, m as u32, ctx)?;
        }
    }
    ctx.nontrivial_if(m > 1);
    Ok(())
}
fn rem(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = src.int(1, i64::MAX as i128) as i64;
    let x = if src.prob(1, 3) {
        let k = src.int((i64::MIN / m) as i128, (i64::MAX / m) as i128);
        let d = src.int(-2, 2);
        (k * m as i128 + d).clamp(i64::MIN as i128, i64::MAX as i128) as i64
    } else {
        src.int(i64::MIN as i128, i64::MAX as i128) as i64
    };
    ctx.note(|| format!("remainder of {x} by {m}"));
    ctx.nontrivial_if(x < 0 && m > 2);
    ctx.label_if(x.unsigned_abs() > 1 << 62, "beyond 2^62");
    check_safe(x, m, ctx)
}
fn power(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = if src.coin() { src.int(1, i32::MAX as i128) } else { i32::MAX as i128 - src.int(0, i32::MAX as i128 - 1) } as i32;
    let x = if src.coin() { src.int(i64::MIN as i128, i64::MAX as i128) } else { m as i128 - 1 - src.int(0, m as i128 - 1) } as i64;
    let n = src.int(0, i64::MAX as i128) as i64;
    ctx.note(|| format!("{x} ** {n} modulo {m}"));
    ctx.label_if(n > u32::MAX as i64, "exponent beyond 32 bits");
    ctx.label_if(x < 0, "negative base");
    ctx.label_if(m == 1, "modulus 1");
    ctx.nontrivial_if(n > 2 && m > 2 && x % m as i64 != 0 && x.rem_euclid(m as i64) != 1);
    check_pow(x, n, m, ctx)
}
fn product(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = match src.weighted(&[2, 2, 1]) {
        0 => src.int(1, 1 << 31) as u32,
        1 => (1u32 << 31) - src.int(0, (1 << 31) - 1) as u32,
        _ => {
            // divisors of 2^64 - 1 and of 2^64 make the reciprocal exact or just inexact
            *src.pick(&[3u32, 5, 17, 257, 641, 65537, 6700417, 1 << 16, 1 << 30, 1 << 31, 255, 65535])
        }
    };
    let hi = m as i128 - 1;
    let a = if src.coin() { hi - src.int(0, hi) } else { src.int(0, hi) } as u32;
    let b = match src.weighted(&[2, 2, 3]) {
        0 => src.int(0, hi) as u32,
        1 => (hi - src.int(0, hi)) as u32,
        _ if num::gcd(a as u128, m as u128) == 1 => {
            // the product leaves a remainder near 0 or near m
            let d = src.int(-3, 3);
            (num::inv_mod(a as i128, m as i128) * (d.rem_euclid(m as i128)) % m as i128) as u32
        }
        _ => (hi / 2) as u32,
    };
    ctx.note(|| format!("{a} * {b} modulo {m}"));
    let r = a as u64 * b as u64 % m as u64;
    ctx.label_if(r < 2 || r + 2 >= m as u64, "remainder next to 0 or m");
    ctx.label_if(m > 1 << 30, "modulus above 2^30");
    ctx.nontrivial_if(a as u64 * b as u64 >= m as u64);
    check_mul(a, b, m, ctx)
}
fn inverse(src: &mut Src, ctx: &mut Ctx) -> R {
    let big = i64::MAX as i128;
    let (a, b) = match src.weighted(&[4, 3, 2]) {
        0 => (src.int(i64::MIN as i128, big) as i64, src.int(1, big) as i64),
        1 => {
            // a common factor
            let g = src.int(1, 1 << 40);
            let p = src.int(-big / g, big / g);
            let q = src.int(1, big / g);
            ((g * p) as i64, (g * q) as i64)
        }
        _ => {
            // long Euclidean chains: built from small quotients
            let (mut x, mut y) = (1i128, 1i128);
            let n = src.upto(90);
            for _ in 0..n {
                let q = 1 + src.upto(2) as i128;
                let z = x + q * y;
                if z > big {
                    break;
                }
                (x, y) = (y, z);
            }
            if src.coin() { (x as i64, y as i64) } else { (-y as i64, x as i64) }
        }
    };
    ctx.note(|| format!("inv_gcd({a}, {b})"));
    let g = num::gcd(a.unsigned_abs() as u128, b as u128);
    ctx.label_if(a < 0, "negative");
    ctx.label_if(g > 1 && (g as i64) < b, "proper common factor");
    ctx.label_if(b > 1 << 62, "modulus beyond 2^62");
    ctx.nontrivial_if(b > 2 && (g as i64) < b);
    check_inv(a, b, ctx)
}

pub fn property() -> Property {
    Property {
        id: "P28",
        facets: vec![
            Facet::exhaustive("small", "for every m up to 160: remainders, powers and inverses of all small and extreme arguments, and every product of two residues; non-trivial: m > 1", small_total, small),
            Facet::random("remainder", "64-bit arguments and moduli, many next to multiples of the modulus; non-trivial: negative argument, modulus above 2", 10_000_000, 100_000_000, rem),
            Facet::random("power", "64-bit bases and exponents, 31-bit moduli; non-trivial: exponent and modulus above 2, base not 0 or 1 modulo m", 5_000_000, 50_000_000, power),
            Facet::random("product", "reciprocal multiplication: moduli up to 2^31 and factors below, many with a remainder next to 0 or m; non-trivial: the product reaches the modulus", 20_000_000, 200_000_000, product),
            Facet::random("inverse", "inv_gcd of 64-bit arguments: arbitrary, with a common factor, with long Euclidean chains; non-trivial: b > 2 and b does not divide a", 15_000_000, 150_000_000, inverse),
        ],
        assumptions: &["m >= 1 (and m <= 2^31 with factors below m for the reciprocal product, m <= 2^31 - 1 for the power, whose parameter is i32)", "exponents are non-negative; b >= 1"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

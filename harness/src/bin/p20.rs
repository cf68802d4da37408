//! P20 gcd, lcm and extended gcd against exact arithmetic, all integer types.
use engine::*;
use harness::num;
use rust_cp::math::number_theory::{ex_gcd, gcd, lcm};
use rust_cp::traits::integral::Integral;
use std::fmt::Debug;

/// Sign and magnitude of a value of any type.
#[derive(Clone, Copy, PartialEq)]
struct Z {
    neg: bool,
    mag: u128,
}
trait Int: Integral + Debug {
    const NAME: &'static str;
    const MAX: u128;
    const SIGNED: bool;
    fn make(z: Z) -> Self;
    fn z(self) -> Z;
}
macro_rules! int {
    ($($t:ty, $s:expr);*) => { $(
        #[allow(unused_comparisons)]
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: u128 = <$t>::MAX as u128;
            const SIGNED: bool = $s;
            fn make(z: Z) -> $t {
                let v = z.mag as $t;
                if z.neg { (0 as $t).wrapping_sub(v) } else { v }
            }
            fn z(self) -> Z {
                Z { neg: self < 0, mag: if self < 0 { (0u128).wrapping_sub(self as u128) } else { self as u128 } }
            }
        }
    )* };
}
int!(i8, true; i16, true; i32, true; i64, true; i128, true; isize, true; u8, false; u16, false; u32, false; u64, false; u128, false; usize, false);

/// a*x + b*y == g exactly: equal modulo 2^128, 2^61 - 1 and 2^89 - 1, and all terms below 2^255.
fn bezout(a: Z, x: Z, b: Z, y: Z, g: Z) -> bool {
    let w = |z: Z| if z.neg { z.mag.wrapping_neg() } else { z.mag };
    if w(a).wrapping_mul(w(x)).wrapping_add(w(b).wrapping_mul(w(y))) != w(g) {
        return false;
    }
    [(1u128 << 61) - 1, (1 << 89) - 1].iter().all(|&m| {
        let r = |z: Z| if z.neg { (m - z.mag % m) % m } else { z.mag % m };
        (num::mul_mod(r(a), r(x), m) + num::mul_mod(r(b), r(y), m)) % m == r(g)
    })
}

fn check<T: Int>(a: Z, b: Z, ctx: &mut Ctx) -> R {
    let (p, q) = (T::make(a), T::make(b));
    let g = num::gcd(a.mag, b.mag);
    let nonneg = !a.neg && !b.neg;
    let got = gcd(p, q).z();
    ensure!(got.mag == g && !(nonneg && got.neg), "gcd({p:?}, {q:?}) of {} is {:?}, expected {g}{}", T::NAME, T::make(got), if nonneg { "" } else { " up to sign" });
    ctx.checks += 1;
    let l = if a.mag == 0 || b.mag == 0 { Some(0) } else { (a.mag / g).checked_mul(b.mag) };
    if let Some(l) = l.filter(|&l| l <= T::MAX) {
        let got = lcm(p, q).z();
        ensure!(got.mag == l && !(nonneg && got.neg), "lcm({p:?}, {q:?}) of {} is {:?}, expected {l}{}", T::NAME, T::make(got), if nonneg { "" } else { " up to sign" });
        ctx.checks += 1;
        ctx.label_if(a.mag.checked_mul(b.mag).map(|x| x > T::MAX).unwrap_or(true), "lcm fits although the product does not");
    }
    if T::SIGNED {
        let (x, y, h) = ex_gcd(p, q);
        ensure!(h.z().mag == g && !(nonneg && h.z().neg), "ex_gcd({p:?}, {q:?}) of {} reports gcd {h:?}, expected {g}", T::NAME);
        ensure!(bezout(a, x.z(), b, y.z(), h.z()), "ex_gcd({p:?}, {q:?}) of {} gives ({x:?}, {y:?}, {h:?}): a*x + b*y is not {h:?}", T::NAME);
        ctx.checks += 2;
    }
    ctx.label_if(!nonneg, "negative argument");
    ctx.label_if(a.mag == 0 || b.mag == 0, "zero argument");
    ctx.nontrivial_if(g > 1 && a.mag != b.mag && a.mag % b.mag.max(1) != 0 && b.mag % a.mag.max(1) != 0);
    Ok(())
}

fn pair<T: Int>(src: &mut Src) -> (Z, Z) {
    let max = T::MAX;
    let (a, b) = match src.weighted(&[3, 4, 3, 1]) {
        0 => (src.u128(max), src.u128(max)),
        1 => {
            // common factor, lcm close to the limit in many cases
            let g = src.u128(max).max(1);
            let p = src.u128(max / g).max(1);
            let q = if src.coin() { src.u128(max / g / p).max(1) } else { src.u128(max / g).max(1) };
            (g * p, g * q)
        }
        2 => {
            // consecutive members of a Fibonacci-like sequence: long remainder chains
            let (mut x, mut y) = (1 + src.upto(3) as u128, 1 + src.upto(3) as u128);
            let g = 1 + src.upto(20) as u128;
            for _ in 0..src.upto(186) {
                match x.checked_add(y).and_then(|z| z.checked_mul(g)) {
                    Some(z) if z <= max => (x, y) = (y, z / g),
                    _ => break,
                }
            }
            if src.coin() { (x * g, y * g) } else { (y * g, x * g) }
        }
        _ => (max - src.upto(3) as u128, src.u128(max)),
    };
    let mut sign = |mag: u128| Z { neg: T::SIGNED && mag > 0 && src.prob(1, 3), mag };
    (sign(a.min(max)), sign(b.min(max)))
}
fn run<T: Int>(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label(T::NAME);
    for _ in 0..1 + src.upto(3) {
        let (a, b) = pair::<T>(src);
        ctx.note(|| format!("{}: {:?}, {:?}", T::NAME, T::make(a), T::make(b)));
        check::<T>(a, b, ctx)?;
    }
    Ok(())
}
fn random(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(11) {
        0 => run::<i64>(src, ctx),
        1 => run::<i32>(src, ctx),
        2 => run::<i16>(src, ctx),
        3 => run::<i8>(src, ctx),
        4 => run::<i128>(src, ctx),
        5 => run::<isize>(src, ctx),
        6 => run::<u64>(src, ctx),
        7 => run::<u32>(src, ctx),
        8 => run::<u16>(src, ctx),
        9 => run::<u8>(src, ctx),
        10 => run::<u128>(src, ctx),
        _ => run::<usize>(src, ctx),
    }
}
/// All pairs of i8 other than -128, and of u8; thorough: every i16 and u16 first argument with a
/// spread of second ones.
fn total(th: bool) -> u64 {
    255 * 255 + 256 * 256 + if th { 65535 * 200 + 65536 * 200 } else { 0 }
}
fn exhaustive(i: u64, ctx: &mut Ctx) -> R {
    let s = |v: i64| Z { neg: v < 0, mag: v.unsigned_abs() as u128 };
    let n8 = 255 * 255;
    if i < n8 {
        let (a, b) = (i as i64 / 255 - 127, i as i64 % 255 - 127);
        ctx.note(|| format!("i8: {a}, {b}"));
        return check::<i8>(s(a), s(b), ctx);
    }
    let i = i - n8;
    if i < 65536 {
        let (a, b) = (i as i64 / 256, i as i64 % 256);
        ctx.note(|| format!("u8: {a}, {b}"));
        return check::<u8>(s(a), s(b), ctx);
    }
    let i = i - 65536;
    let spread = |i: u64, k: u64| (i.wrapping_mul(2_654_435_761).wrapping_add(k * 7919)) % 65535;
    if i < 65535 * 200 {
        let (a, b) = ((i / 200) as i64 - 32767, spread(i / 200, i % 200) as i64 - 32767);
        ctx.note(|| format!("i16: {a}, {b}"));
        return check::<i16>(s(a), s(b), ctx);
    }
    let i = i - 65535 * 200;
    let (a, b) = ((i / 200) as i64, spread(i / 200, i % 200) as i64);
    ctx.note(|| format!("u16: {a}, {b}"));
    check::<u16>(s(a), s(b), ctx)
}

pub fn property() -> Property {
    Property {
        id: "P20",
        facets: vec![
            Facet::random("random", "argument pairs of all 12 integer types: arbitrary, with a common factor and an lcm near the type's limit, Fibonacci-like, near the maximum, zero, negative; oracle: Euclid on magnitudes in u128, lcm by division first, Bezout identity in three moduli; non-trivial: gcd > 1 and neither argument divides the other", 18_000_000, 180_000_000, random),
            Facet::exhaustive("small types", "all pairs of i8 (but the minimum) and of u8; thorough: every i16 and u16 first argument with 200 second ones; non-trivial as above", total, exhaustive),
        ],
        assumptions: &["signed arguments are not the type's minimum", "lcm is asked only when the result fits the type", "the extended gcd is asked of signed types"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

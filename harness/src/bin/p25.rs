//! P25 inverses and division of modular integers.
use engine::*;
use harness::modint::{model, residue, Prim, Ring, M, FORMS, FORM_NAMES};
use harness::num;
use rust_cp::misc::modint::{Barrett, DynamicModInt, Id, ModInt, ModInt1000000007, ModInt998244353, StaticModInt};

#[derive(Clone, Copy, PartialEq, Eq)]
enum D {}
impl Id for D {
    fn companion_barrett() -> &'static Barrett {
        static B: Barrett = Barrett::new(5);
        &B
    }
}
fn unit(b: u32, m: u32) -> bool {
    num::gcd(b as u128, m as u128) == 1
}
/// The inverse of b in one form, checked, or the refusal.
fn inverse<T: Ring>(b: u32, m: u32, form: usize, ctx: &mut Ctx) -> R {
    let x = T::from_raw(b, 0);
    match catch(|| x.inverse(form).value(0)) {
        Ok(v) => {
            ensure!(unit(b, m), "modulo {m}: the inverse of {b} is given as {v}, but there is none");
            ensure!(v < m && (b as u64 * v as u64) % m as u64 == 1 % m as u64, "modulo {m}: the inverse of {b} is given as {v}, but the product is {}", b as u64 * v as u64 % m as u64);
        }
        Err(e) => ensure!(!unit(b, m), "modulo {m}: the inverse of {b} exists, but asking for it panicked: {e}"),
    }
    ctx.checks += 1;
    Ok(())
}
fn quotient(a: u32, b: u32, m: u32) -> u32 {
    model(2, a, num::inv_mod(b as i128, m as i128) as u32, m)
}
/// a / b in one operator form.
fn divide<T: Ring>(a: u32, b: u32, m: u32, form: usize, ctx: &mut Ctx) -> R {
    let (x, y) = (T::from_raw(a, 0), T::from_raw(b, 1));
    match catch(|| T::bin(3, form, x, y).value(0)) {
        Ok(v) => {
            ensure!(unit(b, m), "modulo {m}: {a} / {b} ({}) is given as {v}, but {b} has no inverse", FORM_NAMES[form]);
            ensure_eq!(v, quotient(a, b, m), "modulo {m}: {a} / {b} ({})", FORM_NAMES[form]);
        }
        Err(e) => ensure!(!unit(b, m), "modulo {m}: {a} / {b} ({}) panicked: {e}", FORM_NAMES[form]),
    }
    ctx.checks += 1;
    Ok(())
}
fn mixed<T: Ring>(a: u32, p: Prim, m: u32, assign: bool, ctx: &mut Ctx) -> R {
    let x = T::from_raw(a, 0);
    let b = p.residue(m);
    let op = if assign { "/=" } else { "/" };
    match catch(|| T::mixed(3, assign, x, p).value(0)) {
        Ok(v) => {
            ensure!(unit(b, m), "modulo {m}: {a} {op} {p:?} is given as {v}, but the divisor has no inverse");
            ensure_eq!(v, quotient(a, b, m), "modulo {m}: {a} {op} {p:?}");
        }
        Err(e) => ensure!(!unit(b, m), "modulo {m}: {a} {op} {p:?} panicked: {e}"),
    }
    ctx.checks += 1;
    Ok(())
}
fn scenario<T: Ring>(m: u32, src: &mut Src, ctx: &mut Ctx) -> R {
    ensure_eq!(T::ring_modulus(), m, "reported modulus");
    let a = residue(src, m);
    let mut b = residue(src, m);
    // sharing a factor with a composite modulus, or nudged to a unit
    match src.weighted(&[3, 1, 2]) {
        0 => {}
        1 => {
            let f = *src.pick(&[2u32, 3, 5, 7]);
            b -= b % f;
        }
        _ => {
            while !unit(b, m) {
                b = (b + 1) % m;
            }
        }
    }
    ctx.note(|| format!("modulo {m}: a = {a}, b = {b}"));
    let form = src.below(2);
    inverse::<T>(b, m, form, ctx)?;
    divide::<T>(a, b, m, src.below(FORMS), ctx)?;
    let mut p = Prim::any(src, m);
    if src.coin() {
        let k = src.int(-3, 3) as i64;
        p = Prim::I64(b as i64 + k * m as i64);
    }
    ctx.note(|| format!("a divided by {p:?}"));
    mixed::<T>(a, p, m, src.coin(), ctx)?;
    ctx.label_if(!unit(b, m), "no inverse");
    ctx.label_if(!unit(b, m) && b != 0, "no inverse, not zero");
    ctx.label_if(p.negative(), "negative integer divisor");
    ctx.nontrivial_if(unit(b, m) && b > 1 && a > 1);
    Ok(())
}
fn all<T: Ring>(m: u32, ctx: &mut Ctx) -> R {
    for b in 0..m {
        inverse::<T>(b, m, 0, ctx)?;
        inverse::<T>(b, m, 1, ctx)?;
        for a in 0..m {
            // refusals unwind: one form of them is enough here
            let forms = if unit(b, m) { FORMS } else { 1 };
            for form in 0..forms {
                let f = if forms == 1 { (a + b) as usize % FORMS } else { form };
                divide::<T>(a, b, m, f, ctx)?;
            }
            mixed::<T>(a, Prim::I64(b as i64 - m as i64), m, a % 2 == 0, ctx)?;
            mixed::<T>(a, Prim::U64(b as u64 + (1 << 33) / m as u64 * m as u64), m, a % 2 == 1, ctx)?;
        }
    }
    ctx.nontrivial_if(m > 2);
    Ok(())
}

type Scenario = fn(u32, &mut Src, &mut Ctx) -> R;
macro_rules! list {
    ($($p:literal $h:literal)*) => { [
        $( ($p, $h, scenario::<StaticModInt<M<$p, $h>>> as Scenario), )*
        (998_244_353, true, scenario::<ModInt998244353> as Scenario),
        (1_000_000_007, true, scenario::<ModInt1000000007> as Scenario),
    ] };
}
const RINGS: [(u32, bool, Scenario); 31] = list!(1 false 2 true 2 false 3 true 4 false 6 false 7 true 7 false 12 false 97 true 100 false 101 true 256 false 1000 false
    30030 false 65536 false 65537 true 998244353 false 1000000000 false 1000000007 false 1073741824 false
    1073741825 false 1500000001 false 2146654199 false 2147483629 true 2147483646 false 2147483647 true 2147483647 false 2147483648 false);
type All = fn(u32, &mut Ctx) -> R;
const SMALL_MAX: u64 = 40;
macro_rules! small {
    ($($p:literal $h:literal)*) => { [ $( ($p, all::<StaticModInt<M<$p, $h>>> as All), )* ] };
}
const SMALL: [(u32, All); 32] = small!(1 false 2 false 2 true 3 false 3 true 4 false 5 false 5 true 6 false 7 false 7 true 8 false 9 false 10 false 11 true 12 false 13 true
    14 false 15 false 16 false 17 true 18 false 19 true 20 false 21 false 22 false 23 true 24 false 29 true 30 false 31 true 36 false);
fn small_total(_: bool) -> u64 {
    SMALL.len() as u64 + SMALL_MAX
}
fn small(i: u64, ctx: &mut Ctx) -> R {
    if (i as usize) < SMALL.len() {
        let (m, f) = SMALL[i as usize];
        ctx.note(|| format!("fixed modulus {m}, every pair"));
        return f(m, ctx);
    }
    let m = (i - SMALL.len() as u64) as u32 + 1;
    ctx.note(|| format!("run-time modulus {m}, every pair"));
    DynamicModInt::<D>::set_modulus(m);
    all::<DynamicModInt<D>>(m, ctx)
}
fn fixed(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.below(RINGS.len());
    ctx.label_if(RINGS[i].1, "prime modulus known as such");
    RINGS[i].2(RINGS[i].0, src, ctx)
}
fn dynamic(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = match src.weighted(&[3, 2, 2, 1]) {
        0 => src.int(1, 1 << 31) as u32,
        1 => (1u32 << 31) - src.int(0, (1 << 31) - 1) as u32,
        2 => {
            let a = 2 + src.upto(46338) as u32;
            a * (2 + src.upto(46338) as u32)
        }
        _ => *src.pick(&[998244353, 1000000007, 2147483647, 1, 2, 2147483648]),
    };
    if src.coin() {
        DynamicModInt::<D>::set_modulus(m);
        scenario::<DynamicModInt<D>>(m, src, ctx)
    } else {
        ModInt::set_modulus(m);
        scenario::<ModInt>(m, src, ctx)
    }
}

pub fn property() -> Property {
    Property {
        id: "P25",
        facets: vec![
            Facet::exhaustive("small", "every pair of residues of 32 fixed (with and without primality hint) and every run-time modulus up to 40: inverse in both forms, division in all operator forms and by integers, exact or refused by a panic; non-trivial: modulus above 2", small_total, small),
            Facet::random("fixed", "inverse and divisions by residues and by integers of all types modulo one of 31 fixed moduli from 1 to 2^31; non-trivial: a unit other than 1 divides a value above 1", 4_000_000, 40_000_000, fixed),
            Facet::random("dynamic", "the same with any run-time modulus from 1 to 2^31", 4_000_000, 40_000_000, dynamic),
        ],
        assumptions: &["the primality hint of a fixed modulus is truthful"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

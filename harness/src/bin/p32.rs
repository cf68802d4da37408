//! P32 predefined monoids and numeric constants.
use engine::*;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::traits::integral::Integral;
use rust_cp::traits::monoid::Monoid;
use rust_cp::traits::numeric::{BoundedAbove, BoundedBelow, One, Zero};
use std::fmt::Debug;

trait Int: Integral + Debug {
    const NAME: &'static str;
    const BITS: u32;
    const LOW: Self;
    const HIGH: Self;
    const NIL: Self;
    const UNIT: Self;
    fn plus(self, o: Self) -> Option<Self>;
    fn times(self, o: Self) -> Option<Self>;
    fn draw(src: &mut Src) -> Self;
    fn nth(i: u64) -> Self;
}
macro_rules! int {
    ($($t:ty)*) => { $(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            const LOW: $t = <$t>::MIN;
            const HIGH: $t = <$t>::MAX;
            const NIL: $t = 0;
            const UNIT: $t = 1;
            fn plus(self, o: $t) -> Option<$t> { self.checked_add(o) }
            fn times(self, o: $t) -> Option<$t> { self.checked_mul(o) }
            fn draw(src: &mut Src) -> $t {
                if <$t>::MIN == 0 {
                    src.u128(<$t>::MAX as u128) as $t
                } else {
                    // u128::MAX as signed would not fit: the signed branch only
                    src.int(<$t>::MIN as i128, <$t>::MAX as i128) as $t
                }
            }
            fn nth(i: u64) -> $t { i as $t }
        }
    )* };
}
int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

fn constants<T: Int>() -> R {
    let n = T::NAME;
    ensure_eq!(<T as Zero>::zero(), T::NIL, "zero of {n}");
    ensure_eq!(<T as One>::one(), T::UNIT, "one of {n}");
    ensure_eq!(<T as BoundedBelow>::min_value(), T::LOW, "smallest {n}");
    ensure_eq!(<T as BoundedAbove>::max_value(), T::HIGH, "largest {n}");
    Ok(())
}
fn identities<T: Int>(a: T) -> R {
    let n = T::NAME;
    let laws: [(&str, T, fn(&T, &T) -> T); 4] = [
        ("Max", Max::<T>::identity(), Max::<T>::binary_operation),
        ("Min", Min::<T>::identity(), Min::<T>::binary_operation),
        ("Additive", Additive::<T>::identity(), Additive::<T>::binary_operation),
        ("Multiplicative", Multiplicative::<T>::identity(), Multiplicative::<T>::binary_operation),
    ];
    for (name, e, op) in laws {
        ensure_eq!(op(&e, &a), a, "{name}<{n}>: identity {e:?} before {a:?}");
        ensure_eq!(op(&a, &e), a, "{name}<{n}>: identity {e:?} after {a:?}");
    }
    Ok(())
}
fn ops<T: Int>(a: T, b: T) -> R {
    let n = T::NAME;
    ensure_eq!(Max::<T>::binary_operation(&a, &b), if a < b { b } else { a }, "Max<{n}> of {a:?} and {b:?}");
    ensure_eq!(Min::<T>::binary_operation(&a, &b), if b < a { b } else { a }, "Min<{n}> of {a:?} and {b:?}");
    if let Some(s) = a.plus(b) {
        ensure_eq!(Additive::<T>::binary_operation(&a, &b), s, "Additive<{n}> of {a:?} and {b:?}");
    }
    if let Some(p) = a.times(b) {
        ensure_eq!(Multiplicative::<T>::binary_operation(&a, &b), p, "Multiplicative<{n}> of {a:?} and {b:?}");
    }
    Ok(())
}
fn assoc<T: Int>(a: T, b: T, c: T) -> Result<bool, Fail> {
    let n = T::NAME;
    let fits = |f: fn(T, T) -> Option<T>| f(a, b).and_then(|x| f(x, c)).is_some() && f(b, c).and_then(|x| f(a, x)).is_some();
    let mut all = true;
    for (name, ok, op) in [
        ("Max", true, Max::<T>::binary_operation as fn(&T, &T) -> T),
        ("Min", true, Min::<T>::binary_operation),
        ("Additive", fits(T::plus), Additive::<T>::binary_operation),
        ("Multiplicative", fits(T::times), Multiplicative::<T>::binary_operation),
    ] {
        all &= ok;
        if ok {
            ensure_eq!(op(&op(&a, &b), &c), op(&a, &op(&b, &c)), "{name}<{n}>: associativity on {a:?}, {b:?}, {c:?}");
        }
    }
    Ok(all)
}

fn small_total(_: bool) -> u64 {
    2 * 256 + 2 * 256
}
/// One 8-bit value with every other, then blocks of 16-bit values.
fn small(i: u64, ctx: &mut Ctx) -> R {
    if i == 0 {
        constants::<i8>()?;
        constants::<i16>()?;
        constants::<i32>()?;
        constants::<i64>()?;
        constants::<i128>()?;
        constants::<isize>()?;
        constants::<u8>()?;
        constants::<u16>()?;
        constants::<u32>()?;
        constants::<u64>()?;
        constants::<u128>()?;
        constants::<usize>()?;
    }
    fn eight<T: Int>(i: u64) -> R {
        let a = T::nth(i);
        identities(a)?;
        for j in 0..256 {
            ops(a, T::nth(j))?;
            for k in 0..256 {
                assoc(a, T::nth(j), T::nth(k))?;
            }
        }
        Ok(())
    }
    fn sixteen<T: Int>(i: u64) -> R {
        for j in 0..256 {
            let a = T::nth(i * 256 + j);
            identities(a)?;
            for k in 0..64u64 {
                ops(a, T::nth(k.wrapping_sub(32)))?;
                ops(a, T::nth(32768 + k - 32))?;
                ops(T::nth(k * 1024 + j), a)?;
            }
        }
        Ok(())
    }
    ctx.note(|| format!("{} value(s) {}", ["i8", "u8", "i16 block", "u16 block"][(i / 256) as usize], i % 256));
    ctx.checks += if i < 512 { 200_000 } else { 150_000 };
    ctx.nontrivial_if(i % 256 > 1);
    match i / 256 {
        0 => eight::<i8>(i % 256),
        1 => eight::<u8>(i % 256),
        2 => sixteen::<i16>(i % 256),
        _ => sixteen::<u16>(i % 256),
    }
}
fn one<T: Int>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b, c) = (T::draw(src), T::draw(src), T::draw(src));
    ctx.note(|| format!("{}: {a:?}, {b:?}, {c:?}", T::NAME));
    constants::<T>()?;
    identities(a)?;
    ops(a, b)?;
    ops(b, a)?;
    let all = assoc(a, b, c)?;
    ctx.checks += 16;
    ctx.label_if(all, "nothing overflows");
    ctx.label_if(T::BITS >= 64, "64 bits or more");
    ctx.nontrivial_if(a != b && b != c && a != T::NIL && b != T::NIL && c != T::NIL);
    Ok(())
}
fn random(src: &mut Src, ctx: &mut Ctx) -> R {
    const F: [RunFn; 12] = [one::<i32>, one::<i64>, one::<u32>, one::<u64>, one::<usize>, one::<isize>, one::<i128>, one::<u128>, one::<i16>, one::<u16>, one::<i8>, one::<u8>];
    F[src.below(12)](src, ctx)
}

pub fn property() -> Property {
    Property {
        id: "P32",
        facets: vec![
            Facet { fuel: 20_000_000_000, ..Facet::exhaustive("small", "all pairs and triples of 8-bit values, identities of all 16-bit values and a grid of pairs of them, constants of all types; non-trivial: first value above 1", small_total, small) },
            Facet::random("random", "triples of each of the twelve types over all magnitudes and both ends: operations, identities, associativity where nothing overflows; non-trivial: distinct neighbours, no zero", 30_000_000, 300_000_000, random),
        ],
        assumptions: &["sums and products that overflow the type are not asked for"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P24 run-time modulus integers: arithmetic, families and modulus changes.
use engine::*;
use harness::modint::{all_pairs, exponent, history, model, model_pow, residue, Prim, Ring, FORMS, FORM_NAMES, OPS};
use rust_cp::misc::modint::{Barrett, DefaultId, DynamicModInt, Id, ModInt};

macro_rules! family {
    ($($n:ident $init:expr;)*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq)]
        enum $n {}
        impl Id for $n {
            fn companion_barrett() -> &'static Barrett {
                static B: Barrett = $init;
                &B
            }
        }
    )* };
}
family! { A Barrett::new(7); B Barrett::new(1 << 31); C Barrett::new(1); }

/// A modulus: small, prime, composite, powers of two, both ends.
fn modulus(src: &mut Src) -> u32 {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => src.int(1, 1 << 31) as u32,
        1 => (1u32 << 31) - src.int(0, (1 << 31) - 1) as u32,
        2 => *src.pick(&[998244353, 1000000007, 2147483647, 1 << 30, 65537, 1, 2]),
        _ => {
            // a product of two numbers
            let a = 2 + src.upto(46338) as u32;
            a * (2 + src.upto(46338) as u32)
        }
    }
}
fn before(src: &mut Src, ctx: &mut Ctx) -> R {
    ensure_eq!(DynamicModInt::<DefaultId>::modulus(), 998_244_353, "modulus of the default family before any setting");
    history::<ModInt>(998_244_353, src, ctx)
}
fn small_total(_: bool) -> u64 {
    33
}
fn small(i: u64, ctx: &mut Ctx) -> R {
    let m = i as u32 + 1;
    ctx.note(|| format!("run-time modulus {m}: every pair, operation and form"));
    DynamicModInt::<A>::set_modulus(m);
    all_pairs::<DynamicModInt<A>>(m, ctx)
}
fn one(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = modulus(src);
    ctx.label_if(m == 1, "modulus 1");
    ctx.label_if(m > 1 << 30, "modulus above 2^30");
    ctx.label_if(m == 1 << 31, "modulus 2^31");
    if src.coin() {
        DynamicModInt::<A>::set_modulus(m);
        history::<DynamicModInt<A>>(m, src, ctx)
    } else {
        DynamicModInt::<DefaultId>::set_modulus(m);
        history::<ModInt>(m, src, ctx)
    }
}

/// One family inside a history over several.
struct Fam<T> {
    m: u32,
    vals: Vec<(T, u32)>,
}
trait Family {
    fn set(&mut self, m: u32);
    fn m(&self) -> u32;
    fn reported(&self) -> u32;
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> R;
    fn recheck(&self) -> R;
}
macro_rules! fam {
    ($($i:ty)*) => { $(
        impl Family for Fam<DynamicModInt<$i>> {
            fn set(&mut self, m: u32) {
                DynamicModInt::<$i>::set_modulus(m);
                // values of the old modulus are not used any more
                self.vals.clear();
                self.m = m;
            }
            fn m(&self) -> u32 { self.m }
            fn reported(&self) -> u32 { DynamicModInt::<$i>::ring_modulus() }
            fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> R { step(self, src, ctx) }
            fn recheck(&self) -> R {
                for (v, w) in &self.vals {
                    ensure_eq!(v.value(0), *w, "a kept value modulo {} has changed", self.m);
                    ensure_eq!(Ring::bin(0, 0, *v, DynamicModInt::<$i>::from_raw(0, 0)).value(0), *w, "kept value plus 0 modulo {}", self.m);
                }
                Ok(())
            }
        }
    )* };
}
fam!(A B C DefaultId);
fn step<T: Ring>(f: &mut Fam<T>, src: &mut Src, ctx: &mut Ctx) -> R {
    let m = f.m;
    if f.vals.is_empty() || src.prob(1, 6) {
        let p = if src.coin() { Prim::any(src, m) } else { Prim::U32(residue(src, m)) };
        let v = T::make(p, src.below(3));
        ensure_eq!(v.value(0), p.residue(m), "{p:?} modulo {m}");
        f.vals.push((v, p.residue(m)));
        return Ok(());
    }
    let (a, b) = (f.vals[src.below(f.vals.len())], f.vals[src.below(f.vals.len())]);
    let (got, want, text) = if src.prob(1, 5) {
        let n = exponent(src);
        (a.0.power(n, 0), model_pow(a.1, n, m), format!("{}.pow({n})", a.1))
    } else {
        let (op, form) = (src.below(3), src.below(FORMS));
        (T::bin(op, form, a.0, b.0), model(op, a.1, b.1, m), format!("{} {} {} (form {})", a.1, OPS[op], b.1, FORM_NAMES[form]))
    };
    ctx.note(|| format!("modulo {m}: {text} = {want}"));
    ensure!(got.value(0) < m, "modulo {m}: {text} gives {}, not below the modulus", got.value(0));
    ensure_eq!(got.value(0), want, "modulo {m}: {text}");
    ctx.checks += 1;
    if f.vals.len() >= 4 {
        f.vals.remove(0);
    }
    f.vals.push((got, want));
    Ok(())
}
fn families(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut fams: Vec<Box<dyn Family>> = vec![
        Box::new(Fam::<DynamicModInt<A>> { m: 0, vals: vec![] }),
        Box::new(Fam::<DynamicModInt<B>> { m: 0, vals: vec![] }),
        Box::new(Fam::<DynamicModInt<C>> { m: 0, vals: vec![] }),
        Box::new(Fam::<ModInt> { m: 0, vals: vec![] }),
    ];
    for f in fams.iter_mut() {
        let m = modulus(src);
        f.set(m);
    }
    ctx.note(|| format!("families start with moduli {:?}", fams.iter().map(|f| f.m()).collect::<Vec<_>>()));
    let (mut changes, mut refused, mut ops) = (0, 0, 0);
    loop {
        let i = src.below(4);
        match src.weighted(&[8, 2, 1]) {
            0 => {
                ctx.note(|| format!("family {i}:"));
                fams[i].step(src, ctx)?;
                ops += 1;
            }
            1 => {
                let m = modulus(src);
                ctx.note(|| format!("family {i}: modulus {m}"));
                fams[i].set(m);
                changes += 1;
            }
            _ => {
                ctx.note(|| format!("family {i}: modulus 0"));
                let r = match i {
                    0 => catch(|| DynamicModInt::<A>::set_modulus(0)),
                    1 => catch(|| DynamicModInt::<B>::set_modulus(0)),
                    2 => catch(|| DynamicModInt::<C>::set_modulus(0)),
                    _ => catch(|| ModInt::set_modulus(0)),
                };
                ensure!(r.is_err(), "setting modulus 0 was accepted");
                refused += 1;
            }
        }
        for (k, f) in fams.iter().enumerate() {
            ensure_eq!(f.reported(), f.m(), "reported modulus of family {k}");
        }
        if !src.more(25) {
            break;
        }
    }
    for f in &fams {
        f.recheck()?;
    }
    ctx.label_if(refused > 0, "modulus 0 refused");
    ctx.label_if(changes >= 2, "moduli replaced");
    ctx.nontrivial_if(changes >= 1 && ops >= 4);
    Ok(())
}
/// A family's own starting modulus, given to Barrett::new, holds before any setting.
fn start_total(_: bool) -> u64 {
    1
}
fn start(_: u64, ctx: &mut Ctx) -> R {
    family! { S1 Barrett::new(1); S2 Barrett::new(10); S3 Barrett::new(2147483648); S4 Barrett::new(998244353); S5 Barrett::new(31); }
    ctx.note(|| "families starting with moduli 1, 10, 2^31, 998244353, 31".to_string());
    all_pairs::<DynamicModInt<S1>>(1, ctx)?;
    all_pairs::<DynamicModInt<S2>>(10, ctx)?;
    all_pairs::<DynamicModInt<S5>>(31, ctx)?;
    for seed in 0..200 {
        let mut src = Src::inner(seed, false);
        history::<DynamicModInt<S3>>(1 << 31, &mut src, ctx)?;
        history::<DynamicModInt<S4>>(998_244_353, &mut src, ctx)?;
    }
    Ok(())
}

/// The modulus of one family replaced tens of thousands of times, with some arithmetic under each.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        160_000,
        |_, _| (),
        |_, src, ctx| {
            let m = if src.coin() { modulus(src) } else { 1 + src.upto(6) as u32 };
            DynamicModInt::<B>::set_modulus(m);
            ensure_eq!(DynamicModInt::<B>::ring_modulus(), m, "reported modulus");
            let (a, b) = (src.u128(u64::MAX as u128) as u64, src.u128(u64::MAX as u128) as u64);
            let (x, y) = (DynamicModInt::<B>::new(a), DynamicModInt::<B>::new(b));
            let (ra, rb) = (a as u128 % m as u128, b as u128 % m as u128);
            ensure_eq!((x * y).val() as u128, ra * rb % m as u128, "modulo {m}: {a} * {b}");
            ensure_eq!((x + y).val() as u128, (ra + rb) % m as u128, "modulo {m}: {a} + {b}");
            ensure_eq!((x - y).val() as u128, (ra + m as u128 - rb) % m as u128, "modulo {m}: {a} - {b}");
            ctx.checks += 4;
            Ok(())
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P24",
        facets: vec![
            Facet::random("default", "before any modulus is set: the default family reports 998244353 and a random sequence of operations in all forms computes modulo it; non-trivial: at least 3 steps, one of which had to reduce", 100_000, 1_000_000, before),
            Facet::exhaustive("start", "families whose static Barrett starts at a given modulus (1, 10, 31, 998244353, 2^31), used without setting one", start_total, start),
            Facet::exhaustive("small", "for every run-time modulus from 1 to 33, every pair of residues through every operation and operator form, every power up to 2m + 2 and some 64-bit ones; non-trivial: modulus above 2", small_total, small),
            Facet::random("one", "any modulus from 1 to 2^31 set at run time, then a random sequence of about 13 operations in all forms (also mixed with all twelve integer types), each result against exact arithmetic; non-trivial: at least 3 steps, one of which had to reduce", 3_000_000, 60_000_000, one),
            Facet::random("families", "four families with independent moduli: random interleaving of arithmetic, modulus changes and refused settings of 0, the reported moduli compared after every step; non-trivial: a change and at least 4 operations", 1_000_000, 20_000_000, families),
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "the modulus of one family replaced up to 160000 times, with arithmetic under each; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["the modulus is between 1 and 2^31", "values made under a previous modulus of their family are not used after it changes", "one thread sets and uses a family's modulus"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

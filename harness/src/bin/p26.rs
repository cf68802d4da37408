//! P26 conversion of integers and text into modular integers, and their text, equality and hash.
use engine::*;
use harness::modint::{Prim, Ring, M};
use rust_cp::misc::modint::{Barrett, DynamicModInt, Id, ModInt, ModInt1000000007, ModInt998244353, StaticModInt};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq)]
enum D {}
impl Id for D {
    fn companion_barrett() -> &'static Barrett {
        static B: Barrett = Barrett::new(5);
        &B
    }
}
fn hash<T: Hash>(x: T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn text<T: Ring>(x: T, r: u32) -> R {
    ensure_eq!(format!("{x}"), r.to_string(), "display of {r}");
    ensure_eq!(format!("{x:?}"), r.to_string(), "debug text of {r}");
    ensure_eq!(x.to_string(), r.to_string(), "to_string of {r}");
    Ok(())
}
fn convert<T: Ring>(p: Prim, m: u32, form: usize) -> Result<T, Fail> {
    let x = T::make(p, form);
    ensure_eq!(x.value(0), p.residue(m), "{p:?} modulo {m} ({})", ["new", "from", "ModIntBase::new"][form]);
    Ok(x)
}
fn parse<T: Ring>(s: &str, v: i64, m: u32) -> Result<T, Fail> {
    let r = Prim::I64(v).residue(m);
    match s.parse::<T>() {
        Ok(x) => {
            ensure_eq!(x.value(0), r, "{s:?} parsed modulo {m}");
            Ok(x)
        }
        Err(_) => Err(Fail::from(format!("{s:?} is refused modulo {m}"))),
    }
}
fn scenario<T: Ring>(m: u32, src: &mut Src, ctx: &mut Ctx) -> R {
    ensure_eq!(T::ring_modulus(), m, "reported modulus");
    ensure_eq!(T::default().value(0), 0, "the default modulo {m}");
    let (p, form) = (Prim::any(src, m), src.below(3));
    ctx.note(|| format!("modulo {m}: {p:?}"));
    let x = convert::<T>(p, m, form)?;
    text(x, p.residue(m))?;
    let v = src.int(i64::MIN as i128, i64::MAX as i128) as i64;
    let s = match src.weighted(&[6, 1, 1]) {
        1 if v >= 0 => format!("+{v}"),
        2 if v >= 0 => format!("00{v}"),
        2 => format!("-00{}", v.unsigned_abs()),
        _ => v.to_string(),
    };
    ctx.note(|| format!("text {s:?}"));
    let y = parse::<T>(&s, v, m)?;
    // a second value, half of the time congruent to the first
    let q = if src.coin() {
        let k = src.int(-4, 4);
        let d = if src.prob(1, 4) { 1 } else { 0 };
        Prim::I128(p.residue(m) as i128 + k * m as i128 + d)
    } else {
        Prim::any(src, m)
    };
    ctx.note(|| format!("compared with {q:?}"));
    let z = convert::<T>(q, m, src.below(3))?;
    for (a, ra, b, rb) in [(x, p.residue(m), z, q.residue(m)), (y, Prim::I64(v).residue(m), z, q.residue(m)), (x, p.residue(m), T::default(), 0)] {
        ensure_eq!(a == b, ra == rb, "modulo {m}: equality of {ra} and {rb}");
        ensure_eq!(a != b, ra != rb, "modulo {m}: inequality of {ra} and {rb}");
        if ra == rb {
            ensure_eq!(hash(a), hash(b), "modulo {m}: hashes of equal values {ra}");
        }
        ctx.checks += 2;
    }
    ctx.checks += 6;
    ctx.label_if(p.residue(m) == q.residue(m), "congruent values");
    ctx.label_if(p.negative() || v < 0, "negative");
    ctx.label_if(p.wide(), "beyond 32 bits");
    ctx.nontrivial_if(p.negative() || p.wide() || p.residue(m) == q.residue(m));
    Ok(())
}
/// All values of the 8- and 16-bit types, and the ends of all types.
fn ends<T: Ring>(m: u32, ctx: &mut Ctx) -> R {
    for form in 0..3 {
        for v in i8::MIN..=i8::MAX {
            convert::<T>(Prim::I8(v), m, form)?;
            convert::<T>(Prim::U8(v as u8), m, form)?;
        }
        for v in i16::MIN..=i16::MAX {
            convert::<T>(Prim::I16(v), m, form)?;
            convert::<T>(Prim::U16(v as u16), m, form)?;
        }
        macro_rules! ends { ($($v:ident $t:ty)*) => { $( for d in 0..4 {
            convert::<T>(Prim::$v(<$t>::MIN + d), m, form)?;
            convert::<T>(Prim::$v(<$t>::MAX - d), m, form)?;
            for b in 0..<$t>::BITS - 1 {
                convert::<T>(Prim::$v((1 as $t) << b), m, form)?;
                convert::<T>(Prim::$v(((1 as $t) << b) - 1), m, form)?;
                convert::<T>(Prim::$v((<$t>::MIN).wrapping_add(1 << b)), m, form)?;
            }
        } )* } }
        ends!(I32 i32 I64 i64 I128 i128 Isize isize U32 u32 U64 u64 U128 u128 Usize usize);
    }
    for v in [i64::MIN, i64::MIN + 1, i64::MAX, -1, 0, 1, m as i64, -(m as i64), m as i64 - 1] {
        parse::<T>(&v.to_string(), v, m)?;
    }
    ctx.checks += 200_000;
    ctx.nontrivial_if(m > 1);
    Ok(())
}
type Scenario = fn(u32, &mut Src, &mut Ctx) -> R;
type Ends = fn(u32, &mut Ctx) -> R;
macro_rules! list {
    ($($p:literal $h:literal)*) => { [
        $( ($p, scenario::<StaticModInt<M<$p, $h>>> as Scenario, ends::<StaticModInt<M<$p, $h>>> as Ends), )*
        (998_244_353, scenario::<ModInt998244353> as Scenario, ends::<ModInt998244353> as Ends),
        (1_000_000_007, scenario::<ModInt1000000007> as Scenario, ends::<ModInt1000000007> as Ends),
    ] };
}
const RINGS: [(u32, Scenario, Ends); 20] = list!(1 false 2 true 3 true 7 true 10 false 97 true 128 false 255 false 256 false 1000 false
    32768 false 65535 false 65536 false 65537 true 1000000000 false 1073741824 false 2147483647 true 2147483648 false);
const DYN: [u32; 12] = [1, 2, 3, 127, 128, 129, 255, 256, 65536, 998244353, 2147483647, 2147483648];
fn ends_total(_: bool) -> u64 {
    (RINGS.len() + DYN.len()) as u64
}
fn ends_case(i: u64, ctx: &mut Ctx) -> R {
    let i = i as usize;
    let (m, run) = if i < RINGS.len() {
        (RINGS[i].0, RINGS[i].2)
    } else {
        DynamicModInt::<D>::set_modulus(DYN[i - RINGS.len()]);
        (DYN[i - RINGS.len()], ends::<DynamicModInt<D>> as Ends)
    };
    ctx.note(|| format!("modulus {m} ({})", if i < RINGS.len() { "fixed" } else { "run-time" }));
    run(m, ctx)
}
fn fixed(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.below(RINGS.len());
    RINGS[i].1(RINGS[i].0, src, ctx)
}
fn dynamic(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = if src.coin() { src.int(1, 1 << 31) as u32 } else { (1u32 << 31) - src.int(0, (1 << 31) - 1) as u32 };
    if src.coin() {
        DynamicModInt::<D>::set_modulus(m);
        scenario::<DynamicModInt<D>>(m, src, ctx)
    } else {
        ModInt::set_modulus(m);
        scenario::<ModInt>(m, src, ctx)
    }
}

pub fn property() -> Property {
    Property {
        id: "P26",
        facets: vec![
            Facet::exhaustive("ends", "20 fixed and 12 run-time moduli: every value of the 8- and 16-bit types and the ends and powers of two of all types, through all three constructors; non-trivial: modulus above 1", ends_total, ends_case),
            Facet::random("fixed", "a value of one of the twelve integer types, a text of a 64-bit integer and a (often congruent) second value, modulo one of 20 fixed moduli: residue, text, default, equality and hash; non-trivial: negative, beyond 32 bits or congruent", 10_000_000, 100_000_000, fixed),
            Facet::random("dynamic", "the same with any run-time modulus from 1 to 2^31", 10_000_000, 100_000_000, dynamic),
        ],
        assumptions: &["text is the decimal form of a 64-bit signed integer, optionally with a plus sign or leading zeros"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

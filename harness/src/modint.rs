//! Uniform access to the two modular integer types, and the generators shared by P23-P26.
use engine::Src;
use rust_cp::misc::modint::{ButterflyCache, DynamicModInt, Id, ModIntBase, Modulus, StaticModInt};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;
use std::thread::LocalKey;

/// Fixed modulus V; P is the primality hint.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct M<const V: u32, const P: bool>;
impl<const V: u32, const P: bool> Modulus for M<V, P> {
    const VALUE: u32 = V;
    const HINT_VALUE_IS_PRIME: bool = P;
    fn butterfly_cache() -> &'static LocalKey<RefCell<Option<ButterflyCache<Self>>>> {
        unreachable!("no butterfly operation exists")
    }
}
/// A value of one of the twelve primitive integer types.
#[derive(Clone, Copy, Debug)]
pub enum Prim {
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), Isize(isize),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), Usize(usize),
}
#[macro_export]
macro_rules! with_prim {
    ($p:expr, $v:ident => $e:expr) => {
        match $p {
            $crate::modint::Prim::I8($v) => $e,
            $crate::modint::Prim::I16($v) => $e,
            $crate::modint::Prim::I32($v) => $e,
            $crate::modint::Prim::I64($v) => $e,
            $crate::modint::Prim::I128($v) => $e,
            $crate::modint::Prim::Isize($v) => $e,
            $crate::modint::Prim::U8($v) => $e,
            $crate::modint::Prim::U16($v) => $e,
            $crate::modint::Prim::U32($v) => $e,
            $crate::modint::Prim::U64($v) => $e,
            $crate::modint::Prim::U128($v) => $e,
            $crate::modint::Prim::Usize($v) => $e,
        }
    };
}
impl Prim {
    pub const N: usize = 12;
    /// The value of type `t` (0..12) nearest to what the draws say.
    pub fn draw(src: &mut Src, t: usize, m: u32) -> Prim {
        // around multiples of the modulus, or anywhere in the type's range
        macro_rules! signed {
            ($v:ident, $t:ty) => {{
                let (lo, hi) = (<$t>::MIN as i128, <$t>::MAX as i128);
                let x = if src.prob(1, 3) {
                    let k = src.int(lo / m as i128, hi / m as i128);
                    let d = src.int(-2, 2);
                    (k * m as i128).saturating_add(d).clamp(lo, hi)
                } else {
                    src.int(lo, hi)
                };
                Prim::$v(x as $t)
            }};
        }
        macro_rules! unsigned {
            ($v:ident, $t:ty) => {{
                let hi = <$t>::MAX as u128;
                let x = if src.prob(1, 3) {
                    let k = src.u128(hi / m as u128);
                    let d = src.upto(4) as u128;
                    (k * m as u128).saturating_add(d).saturating_sub(2).min(hi)
                } else {
                    src.u128(hi)
                };
                Prim::$v(x as $t)
            }};
        }
        match t {
            0 => signed!(I32, i32),
            1 => signed!(I64, i64),
            2 => unsigned!(U32, u32),
            3 => unsigned!(U64, u64),
            4 => unsigned!(Usize, usize),
            5 => signed!(I8, i8),
            6 => signed!(I16, i16),
            7 => signed!(I128, i128),
            8 => signed!(Isize, isize),
            9 => unsigned!(U8, u8),
            10 => unsigned!(U16, u16),
            _ => unsigned!(U128, u128),
        }
    }
    pub fn any(src: &mut Src, m: u32) -> Prim {
        let t = src.below(Prim::N);
        Prim::draw(src, t, m)
    }
    /// Mathematical residue.
    pub fn residue(self, m: u32) -> u32 {
        match self {
            Prim::U128(v) => (v % m as u128) as u32,
            p => {
                let v: i128 = match p {
                    Prim::I8(v) => v as i128, Prim::I16(v) => v as i128, Prim::I32(v) => v as i128,
                    Prim::I64(v) => v as i128, Prim::I128(v) => v, Prim::Isize(v) => v as i128,
                    Prim::U8(v) => v as i128, Prim::U16(v) => v as i128, Prim::U32(v) => v as i128,
                    Prim::U64(v) => v as i128, Prim::Usize(v) => v as i128, Prim::U128(_) => unreachable!(),
                };
                let r = v % m as i128;
                (if r < 0 { r + m as i128 } else { r }) as u32
            }
        }
    }
    pub fn negative(self) -> bool {
        matches!(self, Prim::I8(v) if v < 0) || matches!(self, Prim::I16(v) if v < 0) || matches!(self, Prim::I32(v) if v < 0)
            || matches!(self, Prim::I64(v) if v < 0) || matches!(self, Prim::I128(v) if v < 0) || matches!(self, Prim::Isize(v) if v < 0)
    }
    pub fn wide(self) -> bool {
        match self {
            Prim::I64(v) => v.unsigned_abs() > u32::MAX as u64,
            Prim::Isize(v) => v.unsigned_abs() > u32::MAX as usize,
            Prim::I128(v) => v.unsigned_abs() > u32::MAX as u128,
            Prim::U64(v) => v > u32::MAX as u64,
            Prim::Usize(v) => v > u32::MAX as usize,
            Prim::U128(v) => v > u32::MAX as u128,
            _ => false,
        }
    }
}

pub const OPS: [&str; 4] = ["+", "-", "*", "/"];
/// Two modular operands: number of forms.
pub const FORMS: usize = 6;
pub const FORM_NAMES: [&str; FORMS] = ["a op b", "a op &b", "&a op b", "&a op &b", "a op= b", "a op= &b"];

/// What the checks use of a modular integer type.
pub trait Ring: ModIntBase + Copy + Eq + Hash + Debug + Display + Default + FromStr {
    fn ring_modulus() -> u32;
    fn make(p: Prim, form: usize) -> Self;
    fn bin(op: usize, form: usize, a: Self, b: Self) -> Self;
    fn mixed(op: usize, assign: bool, a: Self, p: Prim) -> Self;
    fn negate(self, form: usize) -> Self;
    fn power(self, n: u64, form: usize) -> Self;
    fn inverse(self, form: usize) -> Self;
    fn sum(v: &[Self], by_ref: bool) -> Self;
    fn product(v: &[Self], by_ref: bool) -> Self;
    fn value(self, form: usize) -> u32;
    fn from_raw(v: u32, form: usize) -> Self;
}
macro_rules! ring {
    ($g:ident: $b:ident, $t:ty) => {
        impl<$g: $b> Ring for $t {
            fn ring_modulus() -> u32 {
                let m = <$t>::modulus();
                assert_eq!(m, <$t as ModIntBase>::modulus(), "the two modulus functions differ");
                m
            }
            fn make(p: Prim, form: usize) -> Self {
                with_prim!(p, v => match form {
                    0 => <$t>::new(v),
                    1 => <$t>::from(v),
                    _ => <$t as ModIntBase>::new(v),
                })
            }
            fn bin(op: usize, form: usize, a: Self, b: Self) -> Self {
                let mut x = a;
                macro_rules! forms {
                    ($o:tt, $oa:tt) => {
                        match form {
                            0 => a $o b,
                            1 => a $o &b,
                            2 => &a $o b,
                            3 => &a $o &b,
                            4 => { x $oa b; x }
                            _ => { x $oa &b; x }
                        }
                    };
                }
                match op {
                    0 => forms!(+, +=),
                    1 => forms!(-, -=),
                    2 => forms!(*, *=),
                    _ => forms!(/, /=),
                }
            }
            fn mixed(op: usize, assign: bool, a: Self, p: Prim) -> Self {
                let mut x = a;
                with_prim!(p, v => match (op, assign) {
                    (0, false) => a + v,
                    (1, false) => a - v,
                    (2, false) => a * v,
                    (3, false) => a / v,
                    (0, true) => { x += v; x }
                    (1, true) => { x -= v; x }
                    (2, true) => { x *= v; x }
                    _ => { x /= v; x }
                })
            }
            fn negate(self, form: usize) -> Self {
                if form == 0 { -self } else { -&self }
            }
            fn power(self, n: u64, form: usize) -> Self {
                if form == 0 { <$t>::pow(self, n) } else { <$t as ModIntBase>::pow(self, n) }
            }
            fn inverse(self, form: usize) -> Self {
                if form == 0 { <$t>::inv(self) } else { <$t as ModIntBase>::inv(self) }
            }
            fn sum(v: &[Self], by_ref: bool) -> Self {
                if by_ref { v.iter().sum() } else { v.iter().copied().sum() }
            }
            fn product(v: &[Self], by_ref: bool) -> Self {
                if by_ref { v.iter().product() } else { v.iter().copied().product() }
            }
            fn value(self, form: usize) -> u32 {
                if form == 0 { <$t>::val(self) } else { <$t as ModIntBase>::val(self) }
            }
            fn from_raw(v: u32, form: usize) -> Self {
                if form == 0 { <$t>::raw(v) } else { <$t as ModIntBase>::raw(v) }
            }
        }
    };
}
ring!(T: Modulus, StaticModInt<T>);
ring!(I: Id, DynamicModInt<I>);

/// Exact result of an operation on residues (division excluded).
pub fn model(op: usize, a: u32, b: u32, m: u32) -> u32 {
    let (a, b, m) = (a as u64, b as u64, m as u64);
    (match op {
        0 => (a + b) % m,
        1 => (a + m - b) % m,
        _ => (a as u128 * b as u128 % m as u128) as u64,
    }) as u32
}
pub fn model_pow(a: u32, n: u64, m: u32) -> u32 {
    crate::num::pow_mod(a as u128, n as u128, m as u128) as u32
}
/// A residue: near 0, near m, near half of m, anywhere.
pub fn residue(src: &mut Src, m: u32) -> u32 {
    let hi = (m - 1) as i128;
    match src.weighted(&[4, 2, 1]) {
        0 => src.int(0, hi) as u32,
        1 => (hi - src.int(0, hi)) as u32,
        _ => {
            let d = src.int(-2, 2);
            (hi / 2 + d).clamp(0, hi) as u32
        }
    }
}
pub fn exponent(src: &mut Src) -> u64 {
    src.u128(u64::MAX as u128) as u64
}

/// A random sequence of operations of every form on a handful of values modulo `m`, each compared
/// with exact arithmetic on residues. `pow`: any 64-bit exponents.
pub fn history<T: Ring>(m: u32, src: &mut Src, ctx: &mut engine::Ctx) -> engine::R {
    use engine::{ensure, ensure_eq};
    let mut regs: Vec<(T, u32)> = vec![];
    let form = src.below(2);
    for _ in 0..2 {
        let a = residue(src, m);
        regs.push((T::from_raw(a, form), a));
    }
    ctx.note(|| format!("modulus {m}; values {:?}", regs.iter().map(|r| r.1).collect::<Vec<_>>()));
    ensure_eq!(T::ring_modulus(), m, "reported modulus");
    let mut reduced = 0;
    let mut steps = 0;
    loop {
        let i = src.below(regs.len());
        let j = src.below(regs.len());
        let (a, b) = (regs[i], regs[j]);
        let (got, want, text): (T, u32, String) = match src.weighted(&[8, 5, 2, 2, 2, 3]) {
            0 => {
                let (op, form) = (src.below(3), src.below(FORMS));
                let w = model(op, a.1, b.1, m);
                reduced += match op {
                    0 => a.1 as u64 + b.1 as u64 >= m as u64,
                    1 => a.1 < b.1,
                    _ => a.1 as u64 * b.1 as u64 >= m as u64,
                } as u32;
                (T::bin(op, form, a.0, b.0), w, format!("{} {} {} (form {})", a.1, OPS[op], b.1, FORM_NAMES[form]))
            }
            1 => {
                let (op, assign) = (src.below(3), src.coin());
                let p = Prim::any(src, m);
                ctx.label_if(p.negative(), "mixed with a negative integer");
                ctx.label_if(p.wide(), "mixed with an integer beyond 32 bits");
                let r = p.residue(m);
                (T::mixed(op, assign, a.0, p), model(op, a.1, r, m), format!("{} {}{} {p:?}", a.1, OPS[op], if assign { "=" } else { "" }))
            }
            2 => (a.0.negate(src.below(2)), model(1, 0, a.1, m), format!("-{}", a.1)),
            3 => {
                let n = exponent(src);
                ctx.label_if(n > u32::MAX as u64, "exponent above 2^32");
                ctx.label_if(n == 0, "exponent zero");
                (a.0.power(n, src.below(2)), model_pow(a.1, n, m), format!("{}.pow({n})", a.1))
            }
            4 => {
                let k = src.size(0, 12);
                let v: Vec<(T, u32)> = (0..k).map(|_| regs[src.below(regs.len())]).collect();
                let ring: Vec<T> = v.iter().map(|x| x.0).collect();
                let op = if src.coin() { 2 } else { 0 };
                let want = v.iter().fold(if op == 0 { 0 } else { 1 % m }, |r, x| model(op, r, x.1, m));
                let by_ref = src.coin();
                ctx.label_if(k == 0, "empty sum or product");
                let got = if op == 0 { T::sum(&ring, by_ref) } else { T::product(&ring, by_ref) };
                (got, want, format!("{} of {:?} (by reference: {by_ref})", if op == 0 { "sum" } else { "product" }, v.iter().map(|x| x.1).collect::<Vec<_>>()))
            }
            _ => {
                let p = Prim::any(src, m);
                (T::make(p, src.below(3)), p.residue(m), format!("from {p:?}"))
            }
        };
        ctx.note(|| format!("{text} = {want}"));
        let v = got.value(steps % 2);
        ensure!(v < m, "modulo {m}: {text} gives {v}, which is not below the modulus");
        ensure_eq!(v, want, "modulo {m}: {text}");
        ctx.checks += 1;
        steps += 1;
        if regs.len() < 6 {
            regs.push((got, want));
        } else {
            let k = src.below(6);
            regs[k] = (got, want);
        }
        if !src.more(12) {
            break;
        }
    }
    // operands are copied, never changed
    for (r, want) in &regs {
        ensure_eq!(r.value(0), *want, "modulo {m}: a kept value has changed");
    }
    ctx.nontrivial_if(steps >= 3 && reduced > 0);
    Ok(())
}

/// Every pair of residues, every operation and form, all exponents up to 2m + 2 and some large.
pub fn all_pairs<T: Ring>(m: u32, ctx: &mut engine::Ctx) -> engine::R {
    use engine::ensure_eq;
    ensure_eq!(T::ring_modulus(), m, "reported modulus");
    for a in 0..m {
        let x = T::from_raw(a, 0);
        for b in 0..m {
            let y = T::from_raw(b, 1);
            for op in 0..3 {
                let want = model(op, a, b, m);
                for form in 0..FORMS {
                    ensure_eq!(T::bin(op, form, x, y).value(form % 2), want, "modulo {m}: {a} {} {b} (form {})", OPS[op], FORM_NAMES[form]);
                }
                for assign in [false, true] {
                    for p in [Prim::I64(b as i64 - m as i64), Prim::U32(b), Prim::U128(b as u128 + m as u128 * ((1 << 90) + 7)), Prim::I8(b.min(127) as i8), Prim::I128(-(m as i128) * (1i128 << 80) + b as i128)] {
                        ensure_eq!(T::mixed(op, assign, x, p).value(0), model(op, a, p.residue(m), m), "modulo {m}: {a} {}{} {p:?}", OPS[op], if assign { "=" } else { "" });
                    }
                }
            }
            ctx.checks += 48;
            for by_ref in [false, true] {
                ensure_eq!(T::sum(&[x, y, y], by_ref).value(0), model(0, model(0, a, b, m), b, m), "modulo {m}: sum of {a}, {b}, {b}");
                ensure_eq!(T::product(&[x, y, y], by_ref).value(0), model(2, model(2, a, b, m), b, m), "modulo {m}: product of {a}, {b}, {b}");
            }
        }
        for form in 0..2 {
            ensure_eq!(x.negate(form).value(0), model(1, 0, a, m), "modulo {m}: -{a}");
            for e in (0..=2 * m as u64 + 2).chain([u64::MAX, 1 << 63, (1 << 32) - 1, 1 << 32]) {
                ensure_eq!(x.power(e, form).value(0), model_pow(a, e, m), "modulo {m}: {a}.pow({e})");
                ctx.checks += 1;
            }
        }
    }
    for by_ref in [false, true] {
        ensure_eq!(T::sum(&[], by_ref).value(0), 0, "modulo {m}: empty sum");
        ensure_eq!(T::product(&[], by_ref).value(0), 1 % m, "modulo {m}: empty product");
    }
    ctx.nontrivial_if(m > 2);
    Ok(())
}

//! Monoids, map families and predicates for the segment tree checks (P06-P09, P15, P16).
//! Values of every instance stay far from overflow.
use engine::Src;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use rust_cp::traits::numeric::{One, Zero};
use std::fmt::Debug;
use std::ops::{Add, Mul};

pub type Pred<S> = Box<dyn Fn(&S) -> bool>;

/// A monoid with a generator of elements.
pub trait Gen: Monoid<S: Debug + PartialEq + Clone + 'static> + 'static {
    const NAME: &'static str;
    const COMMUTATIVE: bool;
    fn gen(src: &mut Src) -> Self::S;
    /// A predicate that is monotone for every product of arrays made by `gen` (and their images
    /// under the maps); `near` is a product the boundary should lie near. `left`: for leftward
    /// searches.
    fn natural(_src: &mut Src, _near: &Self::S, _left: bool) -> Option<(String, Pred<Self::S>)> {
        None
    }
}
pub fn fold<M: Monoid>(v: &[M::S]) -> M::S {
    v.iter().fold(M::identity(), |a, b| M::binary_operation(&a, b))
}

/// Predicate for a search from one end of `v`: true exactly on the products that reach to a
/// boundary near the chosen one (and on the identity). Boundaries whose two sides share a product
/// are moved outwards. `left`: products of suffixes of `v`, else of prefixes.
pub fn table<M: Gen>(src: &mut Src, v: &[M::S], left: bool) -> (String, Pred<M::S>) {
    let n = v.len();
    let mut p = vec![M::identity()];
    for i in 0..n {
        let last = &p[i];
        p.push(if left { M::binary_operation(&v[n - 1 - i], last) } else { M::binary_operation(last, &v[i]) });
    }
    let mut b = src.index_upto(n);
    while b < n && p[b + 1..].iter().any(|x| p[..=b].contains(x)) {
        b += 1;
    }
    p.truncate(b + 1);
    (format!("true on the products of the nearest 0..={b} elements only"), Box::new(move |x| p.contains(x)))
}

// ---- words: the free monoid over 4 letters ---------------------------------------------------
pub struct Words;
impl Monoid for Words {
    type S = Vec<u8>;
    fn identity() -> Vec<u8> {
        vec![]
    }
    fn binary_operation(a: &Vec<u8>, b: &Vec<u8>) -> Vec<u8> {
        let mut v = Vec::with_capacity(a.len() + b.len());
        v.extend_from_slice(a);
        v.extend_from_slice(b);
        v
    }
}
impl Gen for Words {
    const NAME: &'static str = "words";
    const COMMUTATIVE: bool = false;
    fn gen(src: &mut Src) -> Vec<u8> {
        let n = src.weighted(&[1, 6, 2, 1]);
        (0..n).map(|_| src.upto(3) as u8).collect()
    }
    fn natural(src: &mut Src, near: &Vec<u8>, left: bool) -> Option<(String, Pred<Vec<u8>>)> {
        Some(match src.weighted(&[3, 2, 2, 2, 1, 1]) {
            0 => {
                let k = (near.len() as i128 + src.int(-1, 1)).max(0) as usize;
                (format!("length <= {k}"), Box::new(move |x| x.len() <= k))
            }
            1 => {
                let c = src.upto(3) as u8;
                let k = near.iter().filter(|&&x| x == c).count();
                let k = (k as i128 + src.int(-1, 1)).max(0) as usize;
                (format!("at most {k} letters {c}"), Box::new(move |x| x.iter().filter(|&&y| y == c).count() <= k))
            }
            2 => {
                let mut w = near.clone();
                if !w.is_empty() && src.coin() {
                    let i = src.below(w.len());
                    w[i] = src.upto(3) as u8;
                }
                (format!("factor of {w:?}"), Box::new(move |x| x.is_empty() || w.windows(x.len()).any(|y| y == x)))
            }
            3 => {
                let w = near.clone();
                if left {
                    (format!("suffix of {w:?}"), Box::new(move |x| w.ends_with(x)))
                } else {
                    (format!("prefix of {w:?}"), Box::new(move |x| w.starts_with(x)))
                }
            }
            4 => ("always true".into(), Box::new(|_| true)),
            _ => ("is empty".into(), Box::new(|x| x.is_empty())),
        })
    }
}
/// Letter maps act on words letter by letter.
pub struct LetterMaps;
impl MapMonoid for LetterMaps {
    type M = Words;
    type F = [u8; 4];
    fn identity_map() -> [u8; 4] {
        [0, 1, 2, 3]
    }
    fn mapping(f: &[u8; 4], x: &Vec<u8>) -> Vec<u8> {
        x.iter().map(|&c| f[c as usize]).collect()
    }
    fn composition(f: &[u8; 4], g: &[u8; 4]) -> [u8; 4] {
        [f[g[0] as usize], f[g[1] as usize], f[g[2] as usize], f[g[3] as usize]]
    }
}

// ---- affine maps modulo a prime under composition ---------------------------------------------
pub const P: u64 = 998_244_353;
pub struct Affine;
impl Monoid for Affine {
    type S = (u64, u64);
    fn identity() -> (u64, u64) {
        (1, 0)
    }
    fn binary_operation(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        (f.0 * g.0 % P, (f.0 * g.1 + f.1) % P)
    }
}
impl Gen for Affine {
    const NAME: &'static str = "affine maps";
    const COMMUTATIVE: bool = false;
    fn gen(src: &mut Src) -> (u64, u64) {
        match src.weighted(&[4, 1, 1]) {
            0 => (src.uni(1, P as i128 - 1) as u64, src.uni(0, P as i128 - 1) as u64),
            1 => (1, 0),
            _ => (0, src.uni(0, P as i128 - 1) as u64),
        }
    }
}

// ---- 2x2 matrices modulo a small number (many are singular) ------------------------------------
pub struct Mat;
impl Monoid for Mat {
    type S = [u32; 4];
    fn identity() -> [u32; 4] {
        [1, 0, 0, 1]
    }
    fn binary_operation(a: &[u32; 4], b: &[u32; 4]) -> [u32; 4] {
        let m = |x: u32| x % 10007;
        [m(a[0] * b[0] + a[1] * b[2]), m(a[0] * b[1] + a[1] * b[3]), m(a[2] * b[0] + a[3] * b[2]), m(a[2] * b[1] + a[3] * b[3])]
    }
}
impl Gen for Mat {
    const NAME: &'static str = "2x2 matrices";
    const COMMUTATIVE: bool = false;
    fn gen(src: &mut Src) -> [u32; 4] {
        let mut m = [0; 4];
        m.iter_mut().for_each(|x| *x = src.uni(0, 10006) as u32);
        m
    }
}

// ---- predefined monoids -------------------------------------------------------------------------
impl Gen for Max<i64> {
    const NAME: &'static str = "Max<i64>";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> i64 {
        src.int(i64::MIN as i128, i64::MAX as i128) as i64
    }
    fn natural(_src: &mut Src, near: &i64, _left: bool) -> Option<(String, Pred<i64>)> {
        let k = (*near).max(i64::MIN + 1);
        Some(if _src.coin() { (format!("x <= {k}"), Box::new(move |x| *x <= k)) } else { (format!("x < {k}"), Box::new(move |x| *x < k)) })
    }
}
impl Gen for Min<u8> {
    const NAME: &'static str = "Min<u8>";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> u8 {
        src.int(0, 255) as u8
    }
    fn natural(src: &mut Src, near: &u8, _left: bool) -> Option<(String, Pred<u8>)> {
        let k = (*near).min(254);
        Some(if src.coin() { (format!("x >= {k}"), Box::new(move |x| *x >= k)) } else { (format!("x > {k}"), Box::new(move |x| *x > k)) })
    }
}
impl Gen for Additive<u64> {
    const NAME: &'static str = "Additive<u64>";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> u64 {
        if src.prob(1, 4) { 0 } else { src.int(0, 1 << 40) as u64 }
    }
    fn natural(src: &mut Src, near: &u64, _left: bool) -> Option<(String, Pred<u64>)> {
        let k = (*near as i128 + src.int(-1, 1)).max(0) as u64;
        Some((format!("sum <= {k}"), Box::new(move |x| *x <= k)))
    }
}
/// Residues modulo a composite number, a type of its own for `Multiplicative`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Z(pub u64);
impl Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(self.0 * o.0 % 1_000_000_006)
    }
}
impl Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z((self.0 + o.0) % 1_000_000_006)
    }
}
impl One for Z {
    fn one() -> Z {
        Z(1)
    }
}
impl Zero for Z {
    fn zero() -> Z {
        Z(0)
    }
}
impl Gen for Multiplicative<Z> {
    const NAME: &'static str = "Multiplicative<residues>";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> Z {
        Z(if src.prob(1, 6) { 1 } else { src.uni(1, 1_000_000_005) as u64 })
    }
}

// ---- sums with affine range updates --------------------------------------------------------------
pub struct SumLen;
impl Monoid for SumLen {
    type S = (u64, u64);
    fn identity() -> (u64, u64) {
        (0, 0)
    }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) {
        ((a.0 + b.0) % P, a.1 + b.1)
    }
}
impl Gen for SumLen {
    const NAME: &'static str = "sums, affine maps";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> (u64, u64) {
        (src.uni(0, P as i128 - 1) as u64, src.weighted(&[1, 6, 1]) as u64)
    }
    fn natural(src: &mut Src, near: &(u64, u64), _left: bool) -> Option<(String, Pred<(u64, u64)>)> {
        let k = (near.1 as i128 + src.int(-1, 1)).max(0) as u64;
        Some((format!("length <= {k}"), Box::new(move |x| x.1 <= k)))
    }
}
pub struct AffineSum;
impl MapMonoid for AffineSum {
    type M = SumLen;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) {
        (1, 0)
    }
    fn mapping(f: &(u64, u64), x: &(u64, u64)) -> (u64, u64) {
        ((f.0 * x.0 + f.1 * x.1) % P, x.1)
    }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        Affine::binary_operation(f, g)
    }
}

// ---- maximum with assignment ----------------------------------------------------------------------
pub struct Assign;
impl MapMonoid for Assign {
    type M = Max<i64>;
    type F = Option<i64>;
    fn identity_map() -> Option<i64> {
        None
    }
    fn mapping(f: &Option<i64>, x: &i64) -> i64 {
        f.unwrap_or(*x)
    }
    fn composition(f: &Option<i64>, g: &Option<i64>) -> Option<i64> {
        f.or(*g)
    }
}

// ---- (minimum, how often) with addition -----------------------------------------------------------
pub struct MinCount;
impl Monoid for MinCount {
    type S = Option<(i64, u64)>;
    fn identity() -> Self::S {
        None
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        match (*a, *b) {
            (None, x) | (x, None) => x,
            (Some(a), Some(b)) => Some(if a.0 < b.0 { a } else if b.0 < a.0 { b } else { (a.0, a.1 + b.1) }),
        }
    }
}
impl Gen for MinCount {
    const NAME: &'static str = "(min, count), addition";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> Self::S {
        if src.prob(1, 12) { None } else { Some((src.int(-3, 3) as i64, 1)) }
    }
    fn natural(src: &mut Src, near: &Self::S, _left: bool) -> Option<(String, Pred<Self::S>)> {
        let k = near.map(|x| x.0).unwrap_or(0) + src.int(0, 1) as i64;
        Some((format!("empty or min >= {k}"), Box::new(move |x| x.map(|x| x.0 >= k).unwrap_or(true))))
    }
}
pub struct AddMin;
impl MapMonoid for AddMin {
    type M = MinCount;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(f: &i64, x: &Option<(i64, u64)>) -> Option<(i64, u64)> {
        x.map(|x| (x.0 + f, x.1))
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        f + g
    }
}

// ---- bit strings with inversion counts, flipped ------------------------------------------------------
pub struct Bits;
impl Monoid for Bits {
    /// zeros, ones, pairs (1 before 0), pairs (0 before 1)
    type S = (u64, u64, u64, u64);
    fn identity() -> Self::S {
        (0, 0, 0, 0)
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        (a.0 + b.0, a.1 + b.1, a.2 + b.2 + a.1 * b.0, a.3 + b.3 + a.0 * b.1)
    }
}
impl Gen for Bits {
    const NAME: &'static str = "bit inversions, flips";
    const COMMUTATIVE: bool = false;
    fn gen(src: &mut Src) -> Self::S {
        *src.pick(&[(1, 0, 0, 0), (0, 1, 0, 0)])
    }
    fn natural(src: &mut Src, near: &Self::S, _left: bool) -> Option<(String, Pred<Self::S>)> {
        Some(if src.coin() {
            let k = (near.2 as i128 + src.int(-1, 1)).max(0) as u64;
            (format!("inversions <= {k}"), Box::new(move |x| x.2 <= k))
        } else {
            let k = (near.1 as i128 + src.int(-1, 1)).max(0) as u64;
            (format!("ones <= {k}"), Box::new(move |x| x.1 <= k))
        })
    }
}
pub struct Flip;
impl MapMonoid for Flip {
    type M = Bits;
    type F = bool;
    fn identity_map() -> bool {
        false
    }
    fn mapping(f: &bool, x: &(u64, u64, u64, u64)) -> (u64, u64, u64, u64) {
        if *f { (x.1, x.0, x.3, x.2) } else { *x }
    }
    fn composition(f: &bool, g: &bool) -> bool {
        f ^ g
    }
}

// ---- maximum and minimum with clamping (non-commutative maps) -----------------------------------------
pub struct MinMax;
impl Monoid for MinMax {
    type S = Option<(i32, i32)>;
    fn identity() -> Self::S {
        None
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        match (*a, *b) {
            (None, x) | (x, None) => x,
            (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
        }
    }
}
impl Gen for MinMax {
    const NAME: &'static str = "(min, max), clamp and shift";
    const COMMUTATIVE: bool = true;
    fn gen(src: &mut Src) -> Self::S {
        let x = src.int(-100, 100) as i32;
        Some((x, x))
    }
    fn natural(src: &mut Src, near: &Self::S, _left: bool) -> Option<(String, Pred<Self::S>)> {
        let near = near.unwrap_or((0, 0));
        Some(match src.upto(2) {
            0 => {
                let k = near.1 - near.0;
                (format!("spread <= {k}"), Box::new(move |x| x.map(|x| x.1 - x.0 <= k).unwrap_or(true)))
            }
            1 => (format!("max <= {}", near.1), Box::new(move |x| x.map(|x| x.1 <= near.1).unwrap_or(true))),
            _ => (format!("min >= {}", near.0), Box::new(move |x| x.map(|x| x.0 >= near.0).unwrap_or(true))),
        })
    }
}
/// x -> clamp(x + a, lo, hi), bounds and shifts small enough that nothing overflows.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Clamp {
    a: i64,
    lo: i64,
    hi: i64,
}
pub struct ClampMap;
impl MapMonoid for ClampMap {
    type M = MinMax;
    type F = Clamp;
    fn identity_map() -> Clamp {
        Clamp { a: 0, lo: -(1 << 40), hi: 1 << 40 }
    }
    fn mapping(f: &Clamp, x: &Option<(i32, i32)>) -> Option<(i32, i32)> {
        x.map(|x| ((x.0 as i64 + f.a).clamp(f.lo, f.hi) as i32, (x.1 as i64 + f.a).clamp(f.lo, f.hi) as i32))
    }
    fn composition(f: &Clamp, g: &Clamp) -> Clamp {
        // x -> f(g(x))
        let c = |x: i64| (x + f.a).clamp(f.lo, f.hi);
        Clamp { a: f.a + g.a, lo: c(g.lo), hi: c(g.hi) }
    }
}

/// A map family with a generator of maps.
pub trait GenMap: MapMonoid<F: Debug + Clone, M: Gen> + 'static {
    fn gen_map(src: &mut Src) -> Self::F;
}
impl GenMap for LetterMaps {
    fn gen_map(src: &mut Src) -> [u8; 4] {
        let mut f = [0; 4];
        f.iter_mut().for_each(|x| *x = src.upto(3) as u8);
        match src.weighted(&[4, 2, 1]) {
            0 => f,
            // a transposition: collisions do not accumulate
            1 => {
                let mut g = [0, 1, 2, 3];
                g.swap(f[0] as usize, f[1] as usize);
                g
            }
            _ => [(f[0] + 1) % 4, (f[0] + 2) % 4, (f[0] + 3) % 4, f[0]],
        }
    }
}
impl GenMap for AffineSum {
    fn gen_map(src: &mut Src) -> (u64, u64) {
        match src.weighted(&[4, 1, 1]) {
            0 => (src.uni(1, P as i128 - 1) as u64, src.uni(0, P as i128 - 1) as u64),
            1 => (0, src.uni(0, P as i128 - 1) as u64),
            _ => (1, 1),
        }
    }
}
impl GenMap for Assign {
    fn gen_map(src: &mut Src) -> Option<i64> {
        if src.prob(1, 10) { None } else { Some(src.int(-50, 50) as i64) }
    }
}
impl GenMap for AddMin {
    fn gen_map(src: &mut Src) -> i64 {
        src.int(-3, 3) as i64
    }
}
impl GenMap for Flip {
    fn gen_map(src: &mut Src) -> bool {
        !src.prob(1, 10)
    }
}
impl GenMap for ClampMap {
    fn gen_map(src: &mut Src) -> Clamp {
        let a = src.int(-100, 100) as i64;
        let b = src.int(-100, 100) as i64;
        let id = ClampMap::identity_map();
        match src.upto(3) {
            0 => Clamp { a, ..id },
            1 => Clamp { lo: a, ..id },
            2 => Clamp { hi: a, ..id },
            _ => Clamp { a: 0, lo: a.min(b), hi: a.max(b) },
        }
    }
}

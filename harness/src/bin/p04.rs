//! P04 Fenwick tree sums against a plain array.
use engine::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Sub};

/// Pair of counters with its own addend type.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct V2(i64, i64);
impl Add for V2 {
    type Output = V2;
    fn add(self, o: V2) -> V2 {
        V2(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for V2 {
    type Output = V2;
    fn sub(self, o: V2) -> V2 {
        V2(self.0 - o.0, self.1 - o.1)
    }
}
impl AddAssign for V2 {
    fn add_assign(&mut self, o: V2) {
        self.0 += o.0;
        self.1 += o.1;
    }
}
/// Adds to the first counter and counts the additions in the second.
#[derive(Clone, Debug)]
struct Tick(i64);
impl AddAssign<Tick> for V2 {
    fn add_assign(&mut self, o: Tick) {
        self.0 += o.0;
        self.1 += 1;
    }
}
/// Integers modulo a prime with a canonical representative.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct M(u32);
const P: u64 = 1_000_000_007;
impl Add for M {
    type Output = M;
    fn add(self, o: M) -> M {
        M(((self.0 as u64 + o.0 as u64) % P) as u32)
    }
}
impl Sub for M {
    type Output = M;
    fn sub(self, o: M) -> M {
        M(((self.0 as u64 + P - o.0 as u64) % P) as u32)
    }
}
impl AddAssign for M {
    fn add_assign(&mut self, o: M) {
        *self = *self + o;
    }
}
impl AddAssign<u64> for M {
    fn add_assign(&mut self, o: u64) {
        *self = *self + M((o % P) as u32);
    }
}

trait El: Copy + Debug + Default + PartialEq + PartialOrd + Add<Output = Self> + AddAssign + Sub<Output = Self> {
    const NAME: &'static str;
    fn gen(src: &mut Src) -> Self;
    /// One addition to the tree and to the model.
    fn step(t: &mut FenwickTree<Self>, m: &mut [Self], i: usize, src: &mut Src, ctx: &mut Ctx) {
        let v = Self::gen(src);
        ctx.note(|| format!("add({i}, {v:?})"));
        t.add(i, v);
        m[i] = m[i] + v;
    }
}
impl El for i64 {
    const NAME: &'static str = "i64, by value and by reference";
    fn gen(src: &mut Src) -> i64 {
        src.int(-(1 << 50), 1 << 50) as i64
    }
    fn step(t: &mut FenwickTree<i64>, m: &mut [i64], i: usize, src: &mut Src, ctx: &mut Ctx) {
        let v = i64::gen(src);
        let by_ref = src.coin();
        ctx.note(|| format!("add({i}, {}{v})", if by_ref { "&" } else { "" }));
        if by_ref {
            t.add(i, &v);
        } else {
            t.add(i, v);
        }
        m[i] += v;
    }
}
impl El for u64 {
    const NAME: &'static str = "u64";
    fn gen(src: &mut Src) -> u64 {
        src.int(0, 1 << 52) as u64
    }
}
impl El for i8 {
    const NAME: &'static str = "i8 (small values)";
    fn gen(src: &mut Src) -> i8 {
        *src.pick(&[0, 1, -1, 0, 0, 0])
    }
    fn step(t: &mut FenwickTree<i8>, m: &mut [i8], i: usize, src: &mut Src, ctx: &mut Ctx) {
        // keep every partial sum of the array within half the type
        let neg: i32 = m.iter().map(|x| (*x as i32).min(0)).sum();
        let pos: i32 = m.iter().map(|x| (*x as i32).max(0)).sum();
        let v = src.int((-60 - neg).min(0) as i128, (60 - pos).max(0) as i128) as i8;
        ctx.note(|| format!("add({i}, {v})"));
        t.add(i, v);
        m[i] += v;
    }
}
impl El for f64 {
    const NAME: &'static str = "f64 with exact integers";
    fn gen(src: &mut Src) -> f64 {
        src.int(-(1 << 30), 1 << 30) as f64
    }
}
impl El for V2 {
    const NAME: &'static str = "pair with its own addend type";
    fn gen(src: &mut Src) -> V2 {
        V2(src.int(-1000, 1 << 40) as i64, src.int(-5, 5) as i64)
    }
    fn step(t: &mut FenwickTree<V2>, m: &mut [V2], i: usize, src: &mut Src, ctx: &mut Ctx) {
        if src.coin() {
            let v = V2::gen(src);
            ctx.note(|| format!("add({i}, {v:?})"));
            t.add(i, v);
            m[i] += v;
        } else {
            let v = Tick(src.int(-(1 << 40), 1 << 40) as i64);
            ctx.note(|| format!("add({i}, {v:?})"));
            t.add(i, v.clone());
            m[i] += v;
        }
    }
}
impl El for M {
    const NAME: &'static str = "integers mod 1000000007";
    fn gen(src: &mut Src) -> M {
        M(src.int(0, P as i128 - 1) as u32)
    }
    fn step(t: &mut FenwickTree<M>, m: &mut [M], i: usize, src: &mut Src, ctx: &mut Ctx) {
        let v = src.int(0, u64::MAX as i128) as u64;
        ctx.note(|| format!("add({i}, {v})"));
        t.add(i, v);
        m[i] += v;
    }
}

fn total<T: El>(m: &[T]) -> T {
    m.iter().fold(T::default(), |a, &b| a + b)
}

fn run<T: El>(src: &mut Src, ctx: &mut Ctx, max_n: usize) -> R {
    ctx.label(T::NAME);
    let n = src.size(0, max_n);
    let mut m: Vec<T> = vec![T::default(); n];
    let built = src.weighted(&[1, 1]);
    let mut t = if built == 1 {
        m.iter_mut().for_each(|x| *x = T::gen(src));
        ctx.note(|| format!("{}: from({m:?})", T::NAME));
        FenwickTree::from(&m)
    } else {
        ctx.note(|| format!("{}: new({n})", T::NAME));
        FenwickTree::new(n)
    };
    let mean = *src.pick(&[3usize, 10, 40]);
    let (mut adds, mut queries) = (0, 0);
    while src.more(mean) {
        match src.weighted(&[if n > 0 { 3 } else { 0 }, 1, 2]) {
            0 if n > 0 => {
                let i = src.below(n);
                T::step(&mut t, &mut m, i, src, ctx);
                adds += 1;
            }
            1 | 0 => {
                let k = src.index_upto(n);
                ctx.note(|| format!("pref({k})"));
                ensure_eq!(t.pref(k), total(&m[..k]), "pref({k})");
                queries += (k > 1) as usize;
            }
            _ => {
                let (l, r) = src.sub_range(n);
                ctx.note(|| format!("sum({l}, {r})"));
                ensure_eq!(t.sum(l, r), total(&m[l..r]), "sum({l}, {r})");
                queries += (r > l + 1 && l > 0) as usize;
            }
        }
        ctx.checks += 1;
    }
    ctx.note(|| "final comparison of all prefix sums, and with a tree filled one by one".into());
    let mut u = FenwickTree::<T>::new(n);
    for (i, &x) in m.iter().enumerate() {
        u.add(i, x);
    }
    let w = FenwickTree::from(&m);
    let mut s = T::default();
    for k in 0..=n {
        ensure_eq!(t.pref(k), s, "pref({k}) at the end");
        ensure_eq!(u.pref(k), s, "pref({k}) of a tree filled one by one");
        ensure_eq!(w.pref(k), s, "pref({k}) of a tree built from the final array");
        if k < n {
            s += m[k];
        }
    }
    ctx.checks += 3 * n as u64;
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.label_if(adds > 0 && built == 1, "additions after from()");
    ctx.nontrivial_if(n >= 3 && adds >= 2 && queries >= 1);
    Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let max_n = *src.pick(&[12usize, 40, 140]);
    match src.weighted(&[3, 1, 1, 1, 2, 1]) {
        0 => run::<i64>(src, ctx, max_n),
        1 => run::<u64>(src, ctx, max_n),
        2 => run::<i8>(src, ctx, max_n.min(40)),
        3 => run::<f64>(src, ctx, max_n),
        4 => run::<V2>(src, ctx, max_n),
        _ => run::<M>(src, ctx, max_n),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(1000, if src.thorough { 3_000_000 } else { 400_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let built = src.coin();
    ctx.note(|| format!("n={n} seed={seed} from={built}"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let mut m: Vec<i64> = vec![0; n];
    let mut t = if built {
        m.iter_mut().for_each(|x| *x = r.upto(1 << 41) as i64 - (1 << 40));
        FenwickTree::from(&m)
    } else {
        FenwickTree::new(n)
    };
    for k in 0..40 {
        for _ in 0..n / 80 {
            let i = r.upto(n as u128 - 1) as usize;
            let v = r.upto(1 << 41) as i64 - (1 << 40);
            t.add(i, v);
            m[i] += v;
        }
        let p = match k % 4 {
            0 => n,
            1 => 1usize << r.upto(n.ilog2() as u128),
            _ => r.upto(n as u128) as usize,
        };
        ensure_eq!(t.pref(p), m[..p].iter().sum::<i64>(), "pref({p})");
        let (a, b) = (r.upto(n as u128) as usize, r.upto(n as u128) as usize);
        let (l, h) = (a.min(b), a.max(b));
        ensure_eq!(t.sum(l, h), m[l..h].iter().sum::<i64>(), "sum({l}, {h})");
        ctx.checks += 2;
    }
    let mut s = 0;
    for k in 0..n {
        ensure_eq!(t.pref(k), s, "pref({k}) at the end");
        s += m[k];
    }
    ctx.checks += n as u64;
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        160_000,
        |src, ctx| {
            let n = src.size(1, 20);
            let m: Vec<i64> = (0..n).map(|_| src.int(-1000, 1000) as i64).collect();
            ctx.note(|| format!("from({m:?})"));
            (FenwickTree::from(&m), m)
        },
        |(t, m), src, ctx| {
            let n = m.len();
            match src.upto(2) {
                0 => {
                    let i = src.below(n);
                    let v = src.int(-(1 << 40), 1 << 40) as i64;
                    t.add(i, v);
                    m[i] += v;
                }
                1 => {
                    let k = src.index_upto(n);
                    ensure_eq!(t.pref(k), m[..k].iter().sum::<i64>(), "pref({k})");
                }
                _ => {
                    let (l, r) = src.sub_range(n);
                    ensure_eq!(t.sum(l, r), m[l..r].iter().sum::<i64>(), "sum({l}, {r})");
                }
            }
            ctx.checks += 1;
            Ok(())
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P04",
        facets: vec![
            Facet::random("history", "add/pref/sum histories on trees of 0..140 elements of six element types (values that cannot overflow), built empty or from an array, compared with a plain array at every step and over all prefixes at the end; non-trivial: n >= 3, two additions and a query of an inner range", 8_000_000, 80_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..400000 elements, random additions, all prefixes compared at the end; all non-trivial", 96, 1000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of 1..20 elements asked and changed up to 160000 times; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["indices are in range", "the sums do not overflow the element type"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

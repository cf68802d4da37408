//! P33 work bounds, counted in operations on the elements.
//!
//! The counters see every addition, monoid operation, mapping, composition, comparison, predicate
//! call and clone of an element. The bounds are two to three times what the textbook algorithms
//! need, and far below the next complexity class on the larger inputs.
use engine::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::string::{kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Sub};

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    COUNT.with(|c| c.set(c.get() + 1));
}
fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    COUNT.with(|c| c.set(0));
    let r = f();
    (r, COUNT.with(|c| c.get()))
}
/// Binary digits of n, at least 1.
fn digits(n: usize) -> u64 {
    (usize::BITS - n.max(1).leading_zeros()) as u64
}
fn within(what: &str, n: usize, used: u64, bound: u64) -> R {
    ensure!(used <= bound, "{what} with n = {n}: {used} element operations, more than {bound}");
    Ok(())
}

/// Counted number for the Fenwick tree.
#[derive(Debug, Default)]
struct C(i64);
impl Clone for C {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> C {
        C(self.0)
    }
}
impl Copy for C {}
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        tick();
        C(self.0.wrapping_add(o.0))
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        tick();
        C(self.0.wrapping_sub(o.0))
    }
}
impl AddAssign for C {
    fn add_assign(&mut self, o: C) {
        tick();
        self.0 = self.0.wrapping_add(o.0);
    }
}
impl PartialEq for C {
    fn eq(&self, o: &C) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for C {
    fn partial_cmp(&self, o: &C) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}

/// Sum, counted, with counted clones.
#[derive(Debug)]
struct S(i64, i64);
impl Clone for S {
    fn clone(&self) -> S {
        tick();
        S(self.0, self.1)
    }
}
enum Sum {}
impl Monoid for Sum {
    type S = S;
    fn identity() -> S {
        S(0, 0)
    }
    fn binary_operation(a: &S, b: &S) -> S {
        tick();
        S(a.0.wrapping_add(b.0), a.1 + b.1)
    }
}
#[derive(Debug)]
struct F(i64);
impl Clone for F {
    fn clone(&self) -> F {
        tick();
        F(self.0)
    }
}
enum SumAdd {}
impl MapMonoid for SumAdd {
    type M = Sum;
    type F = F;
    fn identity_map() -> F {
        F(0)
    }
    fn mapping(f: &F, x: &S) -> S {
        tick();
        S(x.0.wrapping_add(f.0.wrapping_mul(x.1)), x.1)
    }
    fn composition(f: &F, g: &F) -> F {
        tick();
        F(f.0.wrapping_add(g.0))
    }
}

fn length(src: &mut Src) -> usize {
    let hi = *src.pick(&[20usize, 300, 5_000, 5_000, 70_000]);
    src.size(0, hi)
}
fn values(src: &mut Src, n: usize) -> Vec<i64> {
    // cheap to draw and to shrink: a pattern
    let (a, b, m) = (src.upto(9) as i64, src.upto(9) as i64, 1 + src.upto(12) as i64);
    (0..n as i64).map(|i| (a * i + b) % m).collect()
}

fn fenwick(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = length(src);
    let v = values(src, n);
    let sum: i64 = v.iter().sum();
    ctx.note(|| format!("Fenwick tree of {n} elements summing to {sum}"));
    let c: Vec<C> = v.iter().map(|&x| C(x)).collect();
    let mut t = if src.coin() {
        let (t, used) = measure(|| FenwickTree::from(&c));
        within("Fenwick construction from an array", n, used, 6 * n as u64 + 8)?;
        t
    } else {
        let (t, used) = measure(|| FenwickTree::<C>::new(n));
        within("construction of an empty Fenwick tree", n, used, 6 * n as u64 + 8)?;
        t
    };
    let l = digits(n);
    while src.more(8) {
        match src.weighted(&[3, 3, 3, 3]) {
            0 if n > 0 => {
                let i = src.below(n);
                let ((), used) = measure(|| t.add(i, C(1)));
                within(&format!("add({i})"), n, used, 3 * l + 6)?;
            }
            1 => {
                let r = n - src.index_upto(n);
                let (_, used) = measure(|| t.pref(r));
                within(&format!("pref({r})"), n, used, 3 * l + 6)?;
            }
            2 => {
                let (a, b) = src.sub_range(n);
                let (_, used) = measure(|| t.sum(a, b));
                within(&format!("sum({a}, {b})"), n, used, 6 * l + 8)?;
            }
            _ => {
                let target = src.int(0, sum as i128 + 3) as i64;
                let (_, used) = measure(|| t.partition_point(|x| { tick(); x.0 < target }));
                within(&format!("partition_point(x < {target})"), n, used, 6 * l + 10)?;
                let (_, used) = measure(|| t.search(&C(target)));
                within(&format!("search({target})"), n, used, 6 * l + 10)?;
            }
        }
        ctx.checks += 1;
    }
    ctx.label_if(n > 4000, "over 4000 elements");
    ctx.nontrivial_if(n >= 100 && ctx.checks >= 2);
    Ok(())
}
fn segtree(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = length(src);
    let v: Vec<S> = values(src, n).into_iter().map(|x| S(x, 1)).collect();
    ctx.note(|| format!("segment tree of {n} elements"));
    let build = src.coin();
    let (mut t, used) = measure(|| if build { Segtree::<Sum>::from(v) } else { Segtree::<Sum>::new(n) });
    within("segment-tree construction", n, used, 20 * n as u64 + 20)?;
    let l = digits(n);
    let total = t.all_prod().0;
    while src.more(8) {
        match src.weighted(&[3, 3, 3, 3]) {
            0 if n > 0 => {
                let i = src.below(n);
                let ((), used) = measure(|| t.set(i, S(1, 1)));
                within(&format!("set({i})"), n, used, 4 * l + 8)?;
                let (_, used) = measure(|| t.get(i));
                within(&format!("get({i})"), n, used, 2 * l + 8)?;
            }
            1 => {
                let (a, b) = src.sub_range(n);
                let (_, used) = measure(|| t.prod(a, b));
                within(&format!("prod({a}, {b})"), n, used, 6 * l + 10)?;
                let (_, used) = measure(|| t.all_prod());
                within("all_prod()", n, used, 2 * l + 8)?;
            }
            2 => {
                let a = src.index_upto(n);
                let lim = src.int(0, total as i128 + 2) as i64;
                let (_, used) = measure(|| t.max_right(a, |x| { tick(); x.0 <= lim }));
                within(&format!("max_right({a}, x <= {lim})"), n, used, 16 * l + 20)?;
            }
            _ => {
                let b = src.index_upto(n);
                let lim = src.int(0, total as i128 + 2) as i64;
                let (_, used) = measure(|| t.min_left(b, |x| { tick(); x.0 <= lim }));
                within(&format!("min_left({b}, x <= {lim})"), n, used, 16 * l + 20)?;
            }
        }
        ctx.checks += 1;
    }
    ctx.label_if(n > 4000, "over 4000 elements");
    ctx.nontrivial_if(n >= 100 && ctx.checks >= 2);
    Ok(())
}
fn lazy(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = length(src);
    let v: Vec<S> = values(src, n).into_iter().map(|x| S(x, 1)).collect();
    ctx.note(|| format!("lazy segment tree of {n} elements"));
    let build = src.coin();
    let (mut t, used) = measure(|| if build { LazySegtree::<SumAdd>::from(v) } else { LazySegtree::<SumAdd>::new(n) });
    within("lazy-segment-tree construction", n, used, 28 * n as u64 + 20)?;
    let l = digits(n);
    while src.more(10) {
        match src.weighted(&[2, 2, 3, 2, 3, 2, 2]) {
            0 if n > 0 => {
                let i = src.below(n);
                let ((), used) = measure(|| t.set(i, S(1, 1)));
                within(&format!("set({i})"), n, used, 24 * l + 30)?;
                let (_, used) = measure(|| t.get(i));
                within(&format!("get({i})"), n, used, 20 * l + 30)?;
            }
            1 if n > 0 => {
                let i = src.below(n);
                let ((), used) = measure(|| t.apply(i, F(1)));
                within(&format!("apply({i})"), n, used, 24 * l + 30)?;
            }
            2 | 4 => {
                let (a, b) = src.sub_range(n);
                let ((), used) = measure(|| t.apply_range(a, b, F(1)));
                within(&format!("apply_range({a}, {b})"), n, used, 60 * l + 60)?;
            }
            3 => {
                let (a, b) = src.sub_range(n);
                let (_, used) = measure(|| t.prod(a, b));
                within(&format!("prod({a}, {b})"), n, used, 40 * l + 40)?;
            }
            5 => {
                let a = src.index_upto(n);
                let total = t.all_prod().0;
                let lim = src.int(0, total.max(0) as i128 + 2) as i64;
                let (_, used) = measure(|| t.max_right(a, |x| { tick(); x.0 <= lim }));
                within(&format!("max_right({a}, x <= {lim})"), n, used, 60 * l + 60)?;
            }
            _ => {
                let b = src.index_upto(n);
                let total = t.all_prod().0;
                let lim = src.int(0, total.max(0) as i128 + 2) as i64;
                let (_, used) = measure(|| t.min_left(b, |x| { tick(); x.0 <= lim }));
                within(&format!("min_left({b}, x <= {lim})"), n, used, 60 * l + 60)?;
            }
        }
        ctx.checks += 1;
    }
    ctx.label_if(n > 4000, "over 4000 elements");
    ctx.nontrivial_if(n >= 100 && ctx.checks >= 2);
    Ok(())
}
fn sparse(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[20usize, 300, 6_000]);
    let n = src.size(0, hi);
    let v = values(src, n);
    ctx.note(|| format!("sparse table of {n} elements"));
    let t = SparseTable::from(&v, 0, |a: i64, b: i64| {
        tick();
        a.min(b)
    });
    while src.more(12) && n > 0 {
        let (a, b) = src.sub_range(n);
        let (a, b) = if a == b { if b < n { (a, b + 1) } else { (a - 1, b) } } else { (a, b) };
        let (_, used) = measure(|| t.get(a, b));
        within(&format!("sparse-table get({a}, {b})"), n, used, 4)?;
        ctx.checks += 1;
    }
    ctx.nontrivial_if(n >= 100 && ctx.checks >= 2);
    Ok(())
}
/// Strings that are hard for the naive algorithms: few letters, periods, near-periods.
fn string(src: &mut Src) -> Vec<u8> {
    let hi = *src.pick(&[20usize, 300, 3_000, 20_000]);
    let n = src.size(0, hi);
    let mut s = vec![];
    match src.weighted(&[2, 2, 2]) {
        0 => {
            // a short block repeated, a few letters changed
            let k = 1 + src.upto(6);
            let b: Vec<u8> = (0..k).map(|_| src.upto(1) as u8).collect();
            s = (0..n).map(|i| b[i % k]).collect();
            while src.more(2) && n > 0 {
                let i = src.index_upto(n - 1);
                s[i] = 2 + src.upto(1) as u8;
            }
        }
        1 => {
            // runs of one letter separated by another
            let k = 1 + src.size(0, n / 2 + 1);
            s = (0..n).map(|i| ((i + 1) % (k + 1) == 0) as u8).collect();
        }
        _ => {
            // Fibonacci-like words
            let (mut a, mut b) = (vec![src.upto(1) as u8], vec![1u8, 0]);
            while s.len() < n {
                s = a.iter().chain(b.iter()).copied().collect();
                (a, b) = if src.coin() { (s.clone(), a) } else { (b, s.clone()) };
            }
            s.truncate(n);
        }
    }
    s
}
fn strings(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = string(src);
    let n = s.len();
    ctx.note(|| format!("string of {n} letters {:?}{}", &s[..n.min(60)], if n > 60 { " ..." } else { "" }));
    let c: Vec<C> = s.iter().map(|&x| C(x as i64)).collect();
    let (pi, used) = measure(|| kmp(&c));
    within("prefix function", n, used, 6 * n as u64 + 10)?;
    let (z, used) = measure(|| z_function(&c));
    within("Z-function", n, used, 6 * n as u64 + 10)?;
    ctx.checks += 2;
    ctx.label_if(n > 1000, "over 1000 letters");
    ctx.nontrivial_if(n >= 100 && pi.iter().chain(&z).any(|&x| x > 1));
    Ok(())
}

pub fn property() -> Property {
    let big = |f| Facet { fuel: 20_000_000_000, ..f };
    Property {
        id: "P33",
        facets: vec![
            big(Facet::random("fenwick", "trees of up to 70,000 elements: construction at most 6n + 8 operations, add and pref 3L + 6, sum 6L + 8, partition point and search 6L + 10 (L = binary digits of n), over a random history; non-trivial: n >= 100 and two or more operations", 120_000, 1_200_000, fenwick)),
            big(Facet::random("segtree", "trees of up to 70,000 elements: construction at most 20n + 20 operations and clones, set 4L + 8, prod 6L + 10, boundary searches 16L + 20, over a random history", 120_000, 1_200_000, segtree)),
            big(Facet::random("lazy", "lazy trees of up to 70,000 elements: construction at most 28n + 20 operations, mappings, compositions and clones, point operations 24L + 30, range updates, products and searches 60L + 60, over a random history", 120_000, 1_200_000, lazy)),
            big(Facet::random("sparse", "sparse-table queries: at most 4 operations each, tables of up to 6,000 elements", 120_000, 1_200_000, sparse)),
            big(Facet::random("strings", "prefix function and Z-function of periodic, near-periodic and Fibonacci-like strings of up to 20,000 letters: at most 6n + 10 comparisons; non-trivial: at least 100 letters, a border or match of length 2 or more", 200_000, 2_000_000, strings)),
        ],
        assumptions: &["work is counted in calls of the element type's operations; index arithmetic is not counted"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

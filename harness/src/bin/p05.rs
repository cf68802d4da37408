//! P05 Fenwick partition point against the array of prefix sums.
use engine::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use std::ops::{Add, AddAssign};

fn prefix(m: &[i64]) -> Vec<i64> {
    let mut s = 0;
    m.iter().map(|x| { s += x; s }).collect()
}
/// Boundary in 0..=n: ends, middle, next to powers of two.
fn boundary(src: &mut Src, n: usize) -> usize {
    src.index_upto(n)
}

/// i64 arrays of a chosen shape, built and then changed by additions. `signed`: all elements may be
/// negative; otherwise only the first.
fn tree(src: &mut Src, ctx: &mut Ctx, max_n: usize, signed: bool) -> (FenwickTree<i64>, Vec<i64>) {
    let n = src.size(0, max_n);
    let mut m = vec![0i64; n];
    let hi: i128 = *src.pick(&[3, 1, 100, 1 << 40]);
    let lo: i128 = if signed { -hi } else { 0 };
    let built = src.coin();
    if built {
        m.iter_mut().for_each(|x| *x = src.int(lo, hi) as i64);
    }
    ctx.note(|| if built { format!("from({m:?})") } else { format!("new({n})") });
    let mut t = if built { FenwickTree::from(&m) } else { FenwickTree::new(n) };
    let k = if n > 0 { src.upto(if built { 6 } else { 2 * n.min(20) }) } else { 0 };
    for _ in 0..k {
        let i = src.below(n);
        let lo = if signed { lo } else { -(m[i] as i128) };
        let v = src.int(lo, hi) as i64;
        ctx.note(|| format!("add({i}, {v})"));
        t.add(i, v);
        m[i] += v;
    }
    if n > 0 && !signed && src.prob(1, 3) {
        let v = -(src.int(0, 3 * hi) as i64);
        ctx.note(|| format!("add(0, {v})"));
        t.add(0, v);
        m[0] += v;
        ctx.label_if(m[0] < 0, "negative first element");
    }
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.label_if(n > 2 && (n + 1).is_power_of_two(), "n one below a power of two");
    (t, m)
}

/// Nondecreasing prefix sums: search and threshold predicates.
fn monotone(src: &mut Src, ctx: &mut Ctx) -> R {
    let max_n = *src.pick(&[9usize, 35, 140]);
    let (t, m) = tree(src, ctx, max_n, false);
    let s = prefix(&m);
    let last = s.last().copied().unwrap_or(0);
    let mut inner = 0;
    for _ in 0..1 + src.upto(4) {
        let target = if m.is_empty() || src.prob(1, 4) {
            src.int(m.first().map_or(0, |&x| x.min(0)) as i128 - 2, last as i128 + 2) as i64
        } else {
            *src.pick(&s) + src.int(-1, 1) as i64
        };
        let want = s.iter().position(|&x| x >= target).unwrap_or(m.len());
        ctx.note(|| format!("search({target}), partition_point(< and <= {target})"));
        ensure_eq!(t.search(&target), want, "search({target})");
        ensure_eq!(t.partition_point(|x| *x < target), want, "partition_point(x < {target})");
        let want2 = s.iter().position(|&x| x > target).unwrap_or(m.len());
        let mut calls = 0usize;
        let got = t.partition_point(|x| {
            calls += 1;
            *x <= target
        });
        ensure_eq!(got, want2, "partition_point(x <= {target})");
        ctx.checks += 3;
        inner += (want > 0 && want < m.len()) as usize;
        ctx.label_if(want != want2, "target equals a prefix sum");
        ctx.label_if(want2 - want > 1, "repeated prefix sums");
    }
    ctx.nontrivial_if(inner > 0 && m.len() >= 3);
    Ok(())
}

/// Any predicate that splits the prefix sums at a boundary, monotone in the values or not.
fn arbitrary(src: &mut Src, ctx: &mut Ctx) -> R {
    let max_n = *src.pick(&[9usize, 35, 140]);
    let (t, m) = tree(src, ctx, max_n, true);
    let s = prefix(&m);
    let n = m.len();
    let mut b = boundary(src, n);
    // the two sides may not share a value: extend the true side until they do not
    while b > 0 && b < n && s[b..].iter().any(|x| s[..b].contains(x)) {
        b += 1;
    }
    // values that are not prefix sums get this answer (the empty sum: true)
    let other = src.coin();
    ctx.note(|| format!("predicate true exactly on the first {b} of {n} prefix sums {s:?}"));
    let yes: std::collections::BTreeSet<i64> = s[..b].iter().copied().collect();
    let no: std::collections::BTreeSet<i64> = s[b..].iter().copied().collect();
    let got = t.partition_point(|x| if yes.contains(x) { true } else if no.contains(x) { false } else { *x == 0 || other });
    ensure_eq!(got, b, "partition_point");
    ctx.checks += 1;
    let nonmono = s.windows(2).any(|w| w[1] < w[0]);
    ctx.label_if(nonmono && b > 0 && b < n, "decreasing prefix sums, inner boundary");
    ctx.label_if(b == n && n > 0, "true everywhere");
    ctx.nontrivial_if(b > 0 && b < n && n >= 3);
    Ok(())
}

/// Sums in Z x Z/p: the first counter counts elements, so every boundary is reachable.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct E(usize, u64);
const P: u64 = 2_147_483_647;
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E(self.0 + o.0, (self.1 + o.1) % P)
    }
}
impl AddAssign for E {
    fn add_assign(&mut self, o: E) {
        *self = *self + o
    }
}
impl AddAssign<u64> for E {
    fn add_assign(&mut self, o: u64) {
        *self = *self + E(0, o % P)
    }
}
fn all_boundaries(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 80);
    let mut m: Vec<E> = (0..n).map(|_| E(1, src.upto(P as usize - 1) as u64)).collect();
    let mut t = FenwickTree::from(&m);
    ctx.note(|| format!("n={n}, elements (1, random), all boundaries"));
    for _ in 0..src.upto(4) {
        if n > 0 {
            let (i, v) = (src.below(n), src.upto(P as usize - 1) as u64);
            ctx.note(|| format!("add({i}, (0, {v}))"));
            t.add(i, v);
            m[i] += v;
        }
    }
    let mut s = vec![];
    let mut a = E::default();
    for &x in &m {
        a += x;
        s.push(a);
    }
    for b in 0..=n {
        // what is no prefix sum (nor the empty sum) gets the opposite answer
        let got = t.partition_point(|x| (x.0 <= b) == (x.0 == 0 || x.0 <= n && s[x.0 - 1] == *x));
        ensure_eq!(got, b, "partition_point at boundary {b}");
        ctx.checks += 1;
    }
    ctx.nontrivial_if(n >= 3);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(1000, if src.thorough { 3_000_000 } else { 400_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let zeros = *src.pick(&[0u128, 3, 50]);
    ctx.note(|| format!("n={n} seed={seed} zeros={zeros}"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let mut m: Vec<i64> = (0..n).map(|_| if r.upto(zeros) > 0 { 0 } else { r.upto(1 << 30) as i64 }).collect();
    if r.upto(1) == 0 {
        // about half of the prefix sums are negative
        m[0] -= m.iter().sum::<i64>() / 2;
    }
    let t = FenwickTree::from(&m);
    let s = prefix(&m);
    for k in 0..2000 {
        let i = if k == 0 { n - 1 } else { r.upto(n as u128 - 1) as usize };
        let target = s[i] + r.upto(2) as i64 - 1;
        ensure_eq!(t.search(&target), s.partition_point(|&x| x < target), "search({target})");
        ensure_eq!(t.partition_point(|&x| x <= target), s.partition_point(|&x| x <= target), "partition_point(<= {target})");
        ctx.checks += 2;
    }
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        160_000,
        |src, ctx| {
            let n = src.size(1, 20);
            let m: Vec<i64> = (0..n).map(|_| src.int(0, 9) as i64).collect();
            ctx.note(|| format!("from({m:?})"));
            (FenwickTree::from(&m), m)
        },
        |(t, m), src, ctx| {
            let n = m.len();
            let s = prefix(m);
            if src.upto(2) == 0 {
                // the values stay between 0 and 20
                let i = src.below(n);
                let v = src.uni(-(m[i] as i128), 20 - m[i] as i128) as i64;
                t.add(i, v);
                m[i] += v;
            } else {
                let target = s[src.below(n)] + src.uni(-1, 1) as i64;
                ensure_eq!(t.search(&target), s.partition_point(|&x| x < target), "search({target})");
                ensure_eq!(t.partition_point(|&x| x <= target), s.partition_point(|&x| x <= target), "partition_point(<= {target})");
                ctx.checks += 2;
            }
            Ok(())
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P05",
        facets: vec![
            Facet::random("monotone", "arrays of 0..140 elements, non-negative but for the first, built and updated, targets at, next to and between prefix sums; search and threshold predicates against a scan; non-trivial: n >= 3 and an answer strictly inside", 4_800_000, 48_000_000, monotone),
            Facet::random("arbitrary", "signed arrays (prefix sums in no order) with a predicate true exactly on the first b prefix sums; non-trivial: n >= 3 and 0 < b < n", 4_800_000, 48_000_000, arbitrary),
            Facet::random("all boundaries", "arrays of a product group with a modular part, every boundary 0..=n, the predicate misleading on anything that is no prefix sum; non-trivial: n >= 3", 480_000, 4_800_000, all_boundaries),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..400000 elements with runs of zeros, 2000 targets; all non-trivial", 96, 1000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of 1..20 elements asked and changed up to 160000 times; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["the predicate partitions the prefix sums"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P07 segment tree boundary searches against a scan of all boundaries.
use engine::*;
use harness::monoid::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};

fn run<M: Gen>(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label(M::NAME);
    let hi = *src.pick(&[9usize, 18, 34, 70]);
    let n = src.size(0, hi);
    let how = src.weighted(&[4, 1]);
    let mut v: Vec<M::S> = vec![M::identity(); n];
    let mut t: Segtree<M> = if how == 0 {
        v.iter_mut().for_each(|x| *x = M::gen(src));
        ctx.note(|| format!("{}: from({v:?})", M::NAME));
        v.clone().into()
    } else if n == 0 && src.coin() {
        ctx.note(|| format!("{}: default()", M::NAME));
        Segtree::default()
    } else {
        ctx.note(|| format!("{}: new({n})", M::NAME));
        Segtree::new(n)
    };
    let mut inner = 0;
    for _ in 0..1 + src.upto(4) {
        if n > 0 {
            for _ in 0..src.upto(2) {
                let i = src.below(n);
                let x = M::gen(src);
                ctx.note(|| format!("set({i}, {x:?})"));
                t.set(i, x.clone());
                v[i] = x;
            }
        }
        let left = src.coin();
        let start = src.index_upto(n);
        let part = if left { &v[..start] } else { &v[start..] };
        let nat = if src.coin() {
            let k = src.index_upto(part.len());
            let near = fold::<M>(if left { &part[part.len() - k..] } else { &part[..k] });
            M::natural(src, &near, left)
        } else {
            None
        };
        ctx.label_if(nat.is_some(), "natural predicate");
        let (name, f) = match nat {
            Some(x) => x,
            None => table::<M>(src, part, left),
        };
        let mut p = M::identity();
        if !f(&p) {
            continue;
        }
        let mut want = start;
        if left {
            while want > 0 {
                p = M::binary_operation(&v[want - 1], &p);
                if !f(&p) {
                    break;
                }
                want -= 1;
            }
            ctx.note(|| format!("min_left({start}, {name}) -> {want}"));
            ensure_eq!(t.min_left(start, &f), want, "min_left({start}, {name})");
        } else {
            while want < n {
                p = M::binary_operation(&p, &v[want]);
                if !f(&p) {
                    break;
                }
                want += 1;
            }
            ctx.note(|| format!("max_right({start}, {name}) -> {want}"));
            ensure_eq!(t.max_right(start, &f), want, "max_right({start}, {name})");
        }
        ctx.checks += 1;
        ctx.label_if(start == if left { 0 } else { n }, "search from the very end");
        ctx.label_if(want == if left { 0 } else { n }, "boundary at the end of the array");
        inner += (want != start && want != 0 && want != n) as usize;
    }
    for (i, x) in v.iter().enumerate() {
        ensure_eq!(t.get(i), *x, "get({i}) after the searches");
    }
    ensure_eq!(t.all_prod(), fold::<M>(&v), "all_prod() after the searches");
    ctx.checks += n as u64 + 1;
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.nontrivial_if(inner > 0);
    Ok(())
}
fn searches(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[6, 3, 2, 2, 1, 2, 1, 2, 2]) {
        0 => run::<Words>(src, ctx),
        1 => run::<Affine>(src, ctx),
        2 => run::<Mat>(src, ctx),
        3 => run::<Max<i64>>(src, ctx),
        4 => run::<Min<u8>>(src, ctx),
        5 => run::<Additive<u64>>(src, ctx),
        6 => run::<Multiplicative<Z>>(src, ctx),
        7 => run::<Bits>(src, ctx),
        _ => run::<MinMax>(src, ctx),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(100, if src.thorough { 1_000_000 } else { 150_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let zeros = *src.pick(&[0u128, 2, 40]);
    ctx.note(|| format!("n={n} seed={seed} zeros={zeros}, sums"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let v: Vec<u64> = (0..n).map(|_| if r.upto(zeros) > 0 { 0 } else { r.upto(1 << 40) as u64 }).collect();
    let t: Segtree<Additive<u64>> = v.clone().into();
    let mut s = vec![0u64; n + 1];
    for i in 0..n {
        s[i + 1] = s[i] + v[i];
    }
    for k in 0..3000 {
        let a = if k % 8 == 0 { 0 } else if k % 8 == 1 { n } else { r.upto(n as u128) as usize };
        let b = r.upto(n as u128) as usize;
        let d = (s[a].abs_diff(s[b]) as i128 + r.upto(2) as i128 - 1).max(0) as u64;
        let right = s.partition_point(|&x| x <= s[a] + d) - 1;
        ensure_eq!(t.max_right(a, |&x| x <= d), right, "max_right({a}, sum <= {d})");
        let left = s.partition_point(|&x| x + d < s[a]);
        ensure_eq!(t.min_left(a, |&x| x <= d), left, "min_left({a}, sum <= {d})");
        ctx.checks += 2;
    }
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        160_000,
        |src, ctx| {
            let n = src.size(1, 12);
            let v: Vec<u64> = (0..n).map(|_| src.upto(5) as u64).collect();
            ctx.note(|| format!("sums: from({v:?})"));
            (Segtree::<Additive<u64>>::from(v.clone()), v)
        },
        |(t, v), src, ctx| {
            let n = v.len();
            if src.upto(2) == 0 {
                let i = src.below(n);
                v[i] = src.upto(5) as u64;
                t.set(i, v[i]);
                return Ok(());
            }
            let (s, d) = (src.index_upto(n), src.upto(15) as u64);
            let want = (s..=n).rev().find(|&r| v[s..r].iter().sum::<u64>() <= d).unwrap();
            ensure_eq!(t.max_right(s, |&x| x <= d), want, "max_right({s}, sum <= {d})");
            let want = (0..=s).find(|&l| v[l..s].iter().sum::<u64>() <= d).unwrap();
            ensure_eq!(t.min_left(s, |&x| x <= d), want, "min_left({s}, sum <= {d})");
            ctx.checks += 2;
            Ok(())
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P07",
        facets: vec![
            Facet::random("searches", "max_right/min_left between updates on trees of 0..70 elements over 9 monoids, from random and extreme starts; predicates: natural ones (length, letter counts, factor/prefix/suffix of a word, sums, extremes, inversions) placed near a boundary, or a table of exactly the products up to a boundary; oracle: scan; non-trivial: an answer strictly between the start and the end of the array", 6_000_000, 60_000_000, searches),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "100..150000 sums with runs of zeros, 3000 starts; all non-trivial", 96, 1000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of 1..12 small numbers searched and changed up to 160000 times; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["the predicate is true on the identity and monotone along the searched products"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

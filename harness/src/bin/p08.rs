//! P08 lazy segment tree against a plain array.
use engine::*;
use harness::lazy::*;
use harness::monoid::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;

fn run<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = Run::<F>::new(src, ctx);
    let mean = *src.pick(&[3usize, 10, 30]);
    let w = *src.pick(&[[1u32, 1, 4, 1, 2, 1, 1], [1, 1, 8, 0, 1, 0, 0], [2, 2, 2, 2, 2, 1, 2]]);
    while src.more(mean) {
        match src.weighted(&w) {
            0 => t.set(src, ctx),
            1 => t.apply(src, ctx),
            2 => t.apply_range(src, ctx),
            3 => t.get(src, ctx)?,
            4 => t.prod(src, ctx)?,
            5 => t.all_prod(ctx)?,
            _ => t.search(src, ctx, false)?,
        }
    }
    t.finish(src, ctx)?;
    ctx.label_if(t.overlapping > 0, "overlapping range updates");
    ctx.nontrivial_if(t.v.len() >= 3 && t.overlapping > 0 && t.inner > 0);
    Ok(())
}
fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[5, 3, 2, 2, 2, 2]) {
        0 => run::<LetterMaps>(src, ctx),
        1 => run::<AffineSum>(src, ctx),
        2 => run::<Assign>(src, ctx),
        3 => run::<AddMin>(src, ctx),
        4 => run::<Flip>(src, ctx),
        _ => run::<ClampMap>(src, ctx),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 40_000 };
    sized(src, ctx, 100, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} seed={seed}, affine updates of sums"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let mut v: Vec<(u64, u64)> = (0..n).map(|_| (r.upto(P as u128 - 1) as u64, 1)).collect();
    let mut t: LazySegtree<AffineSum> = v.clone().into();
    let map = |f: &(u64, u64), x: &mut (u64, u64)| x.0 = (f.0 * x.0 + f.1 * x.1) % P;
    for k in 0..200 {
        let (a, b) = (r.upto(n as u128) as usize, r.upto(n as u128) as usize);
        let (l, h) = match k % 4 { 0 => (0, a), 1 => (a, n), _ => (a.min(b), a.max(b)) };
        let f = (1 + r.upto(P as u128 - 2) as u64, r.upto(P as u128 - 1) as u64);
        t.apply_range(l, h, f);
        v[l..h].iter_mut().for_each(|x| map(&f, x));
        for _ in 0..5 {
            let i = r.upto(n as u128 - 1) as usize;
            if r.upto(1) == 0 {
                let x = (r.upto(P as u128 - 1) as u64, 1);
                t.set(i, x);
                v[i] = x;
            } else {
                t.apply(i, f);
                map(&f, &mut v[i]);
            }
        }
        let (a, b) = (r.upto(n as u128) as usize, r.upto(n as u128) as usize);
        let (l, h) = (a.min(b), a.max(b));
        let want = v[l..h].iter().fold((0, 0), |a, b| ((a.0 + b.0) % P, a.1 + b.1));
        ensure_eq!(t.prod(l, h), want, "prod({l}, {h}) after step {k}");
        ctx.checks += 1;
    }
    for i in 0..n {
        ensure_eq!(t.get(i), v[i], "get({i})");
    }
    ctx.checks += n as u64;
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = long(src, ctx, 100_000, Run::<F>::small, |t, src, ctx| {
        match src.weighted(&[1, 1, 3, 1, 2, 1, 1]) {
            0 => t.set(src, ctx),
            1 => t.apply(src, ctx),
            2 => t.apply_range(src, ctx),
            3 => t.get(src, ctx)?,
            4 => t.prod(src, ctx)?,
            5 => t.all_prod(ctx)?,
            _ => t.search(src, ctx, false)?,
        }
        Ok(())
    })?;
    t.finish(src, ctx)
}
fn long_history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(3) {
        0 => many::<AffineSum>(src, ctx),
        1 => many::<Assign>(src, ctx),
        2 => many::<Flip>(src, ctx),
        _ => many::<ClampMap>(src, ctx),
    }
}

pub fn property() -> Property {
    Property {
        id: "P08",
        facets: vec![
            Facet::random("history", "set/apply/apply_range/get/prod/all_prod/search histories on trees of 0..70 elements over 6 monoids with maps (words with letter maps: neither commutes), compared at each query and over all points and ranges at the end (in three orders) with a plain array; non-trivial: n >= 3, overlapping range updates and a product of several elements", 600_000, 10_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "100..40000 sums under affine maps, 200 range updates, 1000 point updates; all non-trivial", 160, 2000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) sums under affine maps, 200 range updates, 1000 point updates; all non-trivial", 24, 200, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of up to 12 elements asked and changed up to 100000 times, four monoids with maps; non-trivial: more than 65536 steps", 64, 640, long_history) },
        ],
        assumptions: &["the operation is associative with the given identity, maps distribute over it and compose as given", "indices are in range"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

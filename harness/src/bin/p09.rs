//! P09 lazy segment tree boundary searches against a scan of all boundaries.
use engine::*;
use harness::lazy::*;
use harness::monoid::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;

fn run<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = Run::<F>::new(src, ctx);
    let mean = *src.pick(&[3usize, 10, 30]);
    let w = *src.pick(&[[1u32, 1, 4, 4, 1], [0, 0, 5, 1, 0], [2, 2, 2, 4, 2]]);
    while src.more(mean) {
        match src.weighted(&w) {
            0 => t.set(src, ctx),
            1 => t.apply(src, ctx),
            2 => t.apply_range(src, ctx),
            3 => t.search(src, ctx, true)?,
            _ => t.prod(src, ctx)?,
        }
    }
    for _ in 0..2 {
        t.search(src, ctx, true)?;
    }
    ctx.label_if(t.overlapping > 0, "overlapping range updates");
    ctx.nontrivial_if(t.updates > 0 && t.inner > 0);
    Ok(())
}
fn searches(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[5, 3, 2, 2, 2, 2]) {
        0 => run::<LetterMaps>(src, ctx),
        1 => run::<AffineSum>(src, ctx),
        2 => run::<Assign>(src, ctx),
        3 => run::<AddMin>(src, ctx),
        4 => run::<Flip>(src, ctx),
        _ => run::<ClampMap>(src, ctx),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 40_000 };
    sized(src, ctx, 100, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} seed={seed}, maxima under assignment"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let mut v: Vec<i64> = (0..n).map(|_| r.upto(1000) as i64).collect();
    let mut t: LazySegtree<Assign> = v.clone().into();
    for k in 0..300 {
        let (a, b) = (r.upto(n as u128) as usize, r.upto(n as u128) as usize);
        let (l, h) = match k % 4 { 0 => (0, a), 1 => (a, n), _ => (a.min(b), a.max(b)) };
        let x = r.upto(1000) as i64;
        t.apply_range(l, h, Some(x));
        v[l..h].fill(x);
        for _ in 0..3 {
            let i = r.upto(n as u128 - 1) as usize;
            let x = r.upto(1300) as i64;
            t.set(i, x);
            v[i] = x;
        }
        let c = r.upto(1300) as i64;
        let s = match k % 5 { 0 => 0, 1 => n, _ => r.upto(n as u128) as usize };
        let want = v[s..].iter().position(|&x| x > c).map(|p| p + s).unwrap_or(n);
        ensure_eq!(t.max_right(s, |x| x <= c), want, "max_right({s}, <= {c}) after step {k}");
        let want = v[..s].iter().rposition(|&x| x > c).map(|p| p + 1).unwrap_or(0);
        ensure_eq!(t.min_left(s, |x| x <= c), want, "min_left({s}, <= {c}) after step {k}");
        ctx.checks += 2;
    }
    Ok(())
}

/// One small tree searched and changed tens of thousands of times.
fn many<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    long(src, ctx, 100_000, Run::<F>::small, |t, src, ctx| {
        match src.weighted(&[1, 1, 3, 4, 1]) {
            0 => t.set(src, ctx),
            1 => t.apply(src, ctx),
            2 => t.apply_range(src, ctx),
            3 => t.search(src, ctx, true)?,
            _ => t.prod(src, ctx)?,
        }
        Ok(())
    })?;
    Ok(())
}
fn long_history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(3) {
        0 => many::<AffineSum>(src, ctx),
        1 => many::<Assign>(src, ctx),
        2 => many::<Flip>(src, ctx),
        _ => many::<ClampMap>(src, ctx),
    }
}

pub fn property() -> Property {
    Property {
        id: "P09",
        facets: vec![
            Facet::random("searches", "histories of updates and max_right/min_left on trees of 0..70 elements over 6 monoids with maps, from random and extreme starts; predicates natural for the monoid and placed near a boundary, or a table of exactly the products up to a boundary; oracle: scan of a plain array; non-trivial: an update happened and an answer lies strictly between the start and the end of the array", 2_000_000, 20_000_000, searches),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "100..40000 maxima under 300 range assignments; all non-trivial", 160, 2000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) maxima under 300 range assignments; all non-trivial", 24, 200, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of up to 12 elements searched and changed up to 100000 times, four monoids with maps; non-trivial: more than 65536 steps", 64, 640, long_history) },
        ],
        assumptions: &["the predicate is true on the identity and monotone along the searched products"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

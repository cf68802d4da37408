//! P06 segment tree against left folds of a plain array.
use engine::*;
use harness::monoid::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::traits::monoid::Monoid;

fn run<M: Gen>(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label(M::NAME);
    let hi = *src.pick(&[9usize, 18, 34, 70]);
    let n = src.size(0, hi);
    let how = src.weighted(&[2, 1]);
    let mut v: Vec<M::S> = vec![M::identity(); n];
    let mut t: Segtree<M> = if how == 0 {
        v.iter_mut().for_each(|x| *x = M::gen(src));
        ctx.note(|| format!("{}: from({v:?})", M::NAME));
        v.clone().into()
    } else if n == 0 && src.coin() {
        ctx.note(|| format!("{}: default()", M::NAME));
        Segtree::default()
    } else {
        ctx.note(|| format!("{}: new({n})", M::NAME));
        Segtree::new(n)
    };
    let mean = *src.pick(&[3usize, 10, 30]);
    let (mut sets, mut inner) = (0, 0);
    while src.more(mean) {
        match src.weighted(&[3, 3, 1, 1]) {
            0 if n > 0 => {
                let i = src.below(n);
                let x = M::gen(src);
                ctx.note(|| format!("set({i}, {x:?})"));
                t.set(i, x.clone());
                v[i] = x;
                sets += 1;
            }
            2 if n > 0 => {
                let i = src.below(n);
                ctx.note(|| format!("get({i})"));
                ensure_eq!(t.get(i), v[i], "get({i})");
            }
            3 => {
                ctx.note(|| "all_prod()".into());
                ensure_eq!(t.all_prod(), fold::<M>(&v), "all_prod()");
            }
            _ => {
                let (l, r) = src.sub_range(n);
                ctx.note(|| format!("prod({l}, {r})"));
                ensure_eq!(t.prod(l, r), fold::<M>(&v[l..r]), "prod({l}, {r})");
                inner += (r >= l + 2) as usize;
            }
        }
        ctx.checks += 1;
    }
    ctx.note(|| "all points and ranges at the end".into());
    for l in 0..=n {
        let mut want = M::identity();
        ensure_eq!(t.prod(l, l), want, "prod({l}, {l})");
        for r in l + 1..=n {
            want = M::binary_operation(&want, &v[r - 1]);
            ensure_eq!(t.prod(l, r), want, "prod({l}, {r})");
            ctx.checks += 1;
        }
        if l == 0 {
            ensure_eq!(t.all_prod(), want, "all_prod()");
        }
        if l < n {
            ensure_eq!(t.get(l), v[l], "get({l})");
        }
    }
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.label_if(n > 2 && (n - 1).is_power_of_two(), "n one above a power of two");
    ctx.nontrivial_if(n >= 3 && sets >= 1 && inner >= 1);
    Ok(())
}
fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[6, 3, 2, 1, 1, 1, 1]) {
        0 => run::<Words>(src, ctx),
        1 => run::<Affine>(src, ctx),
        2 => run::<Mat>(src, ctx),
        3 => run::<Max<i64>>(src, ctx),
        4 => run::<Min<u8>>(src, ctx),
        5 => run::<Additive<u64>>(src, ctx),
        _ => run::<Multiplicative<Z>>(src, ctx),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 300_000 } else { 60_000 };
    sized(src, ctx, 100, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let seed = src.upto(usize::MAX >> 1) as u64;
    let built = src.coin();
    ctx.note(|| format!("n={n} seed={seed} from={built}, affine maps"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let el = |r: &mut Rng| (1 + r.upto(P as u128 - 2) as u64, r.upto(P as u128 - 1) as u64);
    let mut v = vec![Affine::identity(); n];
    if built {
        v.iter_mut().for_each(|x| *x = el(&mut r));
    }
    let mut t: Segtree<Affine> = if built { v.clone().into() } else { Segtree::new(n) };
    for k in 0..60 {
        for _ in 0..1 + n / 100 {
            let i = r.upto(n as u128 - 1) as usize;
            let x = el(&mut r);
            t.set(i, x);
            v[i] = x;
        }
        let (a, b) = (r.upto(n as u128) as usize, r.upto(n as u128) as usize);
        let (l, h) = match k % 3 { 0 => (0, a), 1 => (a, n), _ => (a.min(b), a.max(b)) };
        ensure_eq!(t.prod(l, h), fold::<Affine>(&v[l..h]), "prod({l}, {h})");
        ctx.checks += 1;
    }
    ensure_eq!(t.all_prod(), fold::<Affine>(&v), "all_prod()");
    for i in 0..n {
        ensure_eq!(t.get(i), v[i], "get({i})");
    }
    ctx.checks += n as u64;
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        160_000,
        |src, ctx| {
            let n = src.size(1, 12);
            let v: Vec<_> = (0..n).map(|_| Affine::gen(src)).collect();
            ctx.note(|| format!("{}: from({v:?})", Affine::NAME));
            (Segtree::<Affine>::from(v.clone()), v)
        },
        |(t, v), src, ctx| {
            let n = v.len();
            match src.upto(4) {
                0 => {
                    let i = src.below(n);
                    v[i] = Affine::gen(src);
                    t.set(i, v[i]);
                }
                1 => {
                    let i = src.below(n);
                    ensure_eq!(t.get(i), v[i], "get({i})");
                }
                2 => ensure_eq!(t.all_prod(), fold::<Affine>(v), "all_prod()"),
                _ => {
                    let (l, r) = src.sub_range(n);
                    ensure_eq!(t.prod(l, r), fold::<Affine>(&v[l..r]), "prod({l}, {r})");
                }
            }
            ctx.checks += 1;
            Ok(())
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P06",
        facets: vec![
            Facet::random("history", "set/get/prod/all_prod histories on trees of 0..70 elements over 7 monoids (words, affine maps and matrices do not commute), built from a vector, empty or by default; compared at each step and over all ranges at the end with left folds; non-trivial: n >= 3, a set and a product of two or more elements", 2_000_000, 20_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "100..60000 affine maps; all non-trivial", 160, 2000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) affine maps; all non-trivial", 24, 200, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of 1..12 affine maps asked and changed up to 160000 times; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["the operation is associative with the given identity", "indices are in range"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

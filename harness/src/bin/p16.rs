//! P16 subtree and node operations on a decomposed tree against parent walking.
use engine::*;
use harness::hld::*;
use harness::monoid::*;
use harness::trees::*;
use rust_cp::graph::heavy_light_decomp::HLD;

fn run<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = Run::<F>::new(src, ctx);
    if src.coin() {
        ctx.note(|| "all nodes".into());
        t.all_nodes(ctx)?;
    }
    let mean = *src.pick(&[3usize, 10, 25]);
    while src.more(mean) {
        match src.weighted(&[4, 3, 2, 2, 2]) {
            0 => t.subtree_prod(src, ctx)?,
            1 => t.apply_subtree(src, ctx),
            2 => t.apply_path(src, ctx),
            3 => t.set(src, ctx),
            _ => t.get(src, ctx)?,
        }
    }
    ctx.note(|| "all subtrees, nodes and positions".into());
    t.all_subtrees(ctx)?;
    t.all_nodes(ctx)?;
    t.positions(ctx)?;
    ctx.nontrivial_if(t.subtree_updates > 0 && t.deep_subtrees > 0);
    Ok(())
}
fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[4, 2, 2, 2]) {
        0 => run::<AffineSum>(src, ctx),
        1 => run::<AddMin>(src, ctx),
        2 => run::<Assign>(src, ctx),
        _ => run::<ClampMap>(src, ctx),
    }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 100_000 } else { 30_000 };
    sized(src, ctx, 500, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = 2 + src.size(lo, hi);
    let fam = src.upto(5);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} family {fam} seed={seed}, sums under affine maps"));
    ctx.label(["random", "path", "binary", "deep", "caterpillar", "wide windows"][fam]);
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let g = big_tree(&mut r, n, fam);
    let root = r.upto(n as u128 - 1) as usize;
    let t = Rooted::new(&g, root);
    let mut v: Vec<(u64, u64)> = (0..n).map(|_| (r.upto(P as u128 - 1) as u64, 1)).collect();
    let mut h: HLD<AffineSum> = HLD::with_init_value(&g, root, &v);
    check_positions(&h.pos, &t)?;
    let mut children = vec![vec![]; n];
    for &u in &t.order[1..] {
        children[t.parent[u]].push(u);
    }
    let members = |u: usize| {
        let mut m = vec![u];
        let mut i = 0;
        while i < m.len() {
            m.extend_from_slice(&children[m[i]]);
            i += 1;
        }
        m
    };
    for k in 0..100 {
        // often an ancestor of a random vertex: larger subtrees
        let u = r.upto(n as u128 - 1) as usize;
        let up = r.upto(12) as usize;
        let u = t.kth(u, up);
        let f = (1 + r.upto(P as u128 - 2) as u64, r.upto(P as u128 - 1) as u64);
        h.apply_subtree(u, f);
        for x in members(u) {
            v[x].0 = (f.0 * v[x].0 + f.1) % P;
        }
        let u = r.upto(n as u128 - 1) as usize;
        let up = r.upto(12) as usize;
        let u = t.kth(u, up);
        let want = members(u).into_iter().fold((0, 0), |s, x| ((s.0 + v[x].0) % P, s.1 + 1));
        ensure_eq!(h.subtree_prod(u), want, "subtree_prod({u}) after update {k}");
        ctx.checks += 1;
    }
    for u in 0..n {
        ensure_eq!(h.get(u), v[u], "get({u})");
    }
    ctx.checks += 2 * n as u64;
    Ok(())
}

/// One small tree asked and changed tens of thousands of times.
fn many<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = long(src, ctx, 100_000, Run::<F>::small, |t, src, ctx| {
        match src.weighted(&[4, 3, 1, 1, 1]) {
            0 => t.subtree_prod(src, ctx)?,
            1 => t.apply_subtree(src, ctx),
            2 => t.apply_path(src, ctx),
            3 => t.set(src, ctx),
            _ => t.get(src, ctx)?,
        }
        Ok(())
    })?;
    t.all_nodes(ctx)?;
    t.all_subtrees(ctx)
}
fn long_history(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(1) {
        0 => many::<AffineSum>(src, ctx),
        _ => many::<AddMin>(src, ctx),
    }
}

pub fn property() -> Property {
    Property {
        id: "P16",
        facets: vec![
            Facet::random("history", "histories of subtree queries and updates, path updates, node reads and assignments on trees of 1..40 vertices from nine families, built with and without values; all nodes, subtrees and positions compared at the end; non-trivial: a subtree update and a query of a proper subtree with several vertices", 800_000, 8_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "500..30000 vertices from six families, 100 subtree updates and queries; all non-trivial", 96, 1500, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) vertices from six families, 100 subtree updates and queries; all non-trivial", 24, 200, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one tree of up to 12 vertices asked and changed up to 100000 times, two monoids with maps; non-trivial: more than 65536 steps", 64, 640, long_history) },
        ],
        assumptions: &["maps distribute over the monoid and compose as given", "the input is a tree with n >= 1 vertices given as undirected adjacency lists"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P11 ancestor, LCA and distance queries against the parent relation.
use engine::*;
use harness::trees::*;
use rust_cp::graph::binary_lifting::BinaryLifting;

fn tables(b: &BinaryLifting, t: &Rooted, all_levels: bool) -> R {
    let n = t.parent.len();
    ensure_eq!(b.dep, t.dep, "dep");
    ensure!(b.tin.len() == n && b.tout.len() == n && b.pa.len() == n, "lengths of the tables");
    let mut at = vec![usize::MAX; n];
    for u in 0..n {
        ensure!(b.tin[u] < n && at[b.tin[u]] == usize::MAX, "tin is not a permutation: {:?}", b.tin);
        at[b.tin[u]] = u;
    }
    for u in 0..n {
        ensure_eq!(b.tout[u] - b.tin[u], t.size[u], "width of the interval [tin, tout) of vertex {u}");
        if u != t.order[0] {
            let p = t.parent[u];
            ensure!(b.tin[p] < b.tin[u] && b.tout[u] <= b.tout[p], "interval of {u} is not inside that of its parent {p}");
        }
        ensure!(!b.pa[u].is_empty(), "no ancestors stored for {u}");
        ensure_eq!(b.pa[u][0], t.parent[u], "parent of {u}");
        for k in 1..b.pa[u].len() {
            if all_levels {
                ensure_eq!(b.pa[u][k], t.kth(u, 1usize.checked_shl(k as u32).unwrap_or(usize::MAX)), "2^{k}-th ancestor of {u}");
            } else {
                ensure_eq!(b.pa[u][k], b.pa[b.pa[u][k - 1]][k - 1], "2^{k}-th ancestor of {u}");
            }
        }
        // enough levels for the deepest vertex
        ensure!(1usize.checked_shl(b.level as u32).unwrap_or(usize::MAX) > t.dep[u], "too few levels");
    }
    Ok(())
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[5usize, 9, 17, 40]);
    let n = 1 + src.size(0, hi - 1);
    let g = tree(src, ctx, n);
    let root = src.below(n);
    ctx.note(|| format!("root {root}, adjacency {g:?}"));
    let t = Rooted::new(&g, root);
    let b = BinaryLifting::from(&g, root);
    tables(&b, &t, true)?;
    let mut siblings = false;
    for u in 0..n {
        for v in 0..n {
            let l = t.lca(u, v);
            ensure_eq!(b.is_ancestor(u, v), l == u, "is_ancestor({u}, {v})");
            ensure_eq!(b.lca(u, v), l, "lca({u}, {v})");
            ensure_eq!(b.dis(u, v), t.dep[u] + t.dep[v] - 2 * t.dep[l], "dis({u}, {v})");
            ctx.checks += 3;
            siblings |= l != u && l != v && l != root && t.dep[u] != t.dep[v];
        }
    }
    ctx.checks += 4 * n as u64;
    ctx.label_if(n == 1, "n=1");
    ctx.label_if(t.dep.iter().any(|&d| d >= 8), "depth 8 or more");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.nontrivial_if(siblings);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 40_000 };
    sized(src, ctx, 1000, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = 2 + src.size(lo, hi);
    let fam = src.upto(5);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} family {fam} seed={seed}"));
    ctx.label(["random", "path", "binary", "deep", "caterpillar", "wide windows"][fam]);
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let g = big_tree(&mut r, n, fam);
    let root = r.upto(n as u128 - 1) as usize;
    let t = Rooted::new(&g, root);
    let b = BinaryLifting::from(&g, root);
    tables(&b, &t, false)?;
    for _ in 0..300 {
        let u = r.upto(n as u128 - 1) as usize;
        let v = if r.upto(2) == 0 { let d = r.upto(t.dep[u] as u128) as usize; t.kth(u, d) } else { r.upto(n as u128 - 1) as usize };
        let l = t.lca(u, v);
        ensure_eq!(b.is_ancestor(v, u), l == v, "is_ancestor({v}, {u})");
        ensure_eq!(b.lca(u, v), l, "lca({u}, {v})");
        ensure_eq!(b.lca(v, u), l, "lca({v}, {u})");
        ensure_eq!(b.dis(u, v), t.dep[u] + t.dep[v] - 2 * t.dep[l], "dis({u}, {v})");
        ctx.checks += 4;
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P11",
        facets: vec![
            Facet::random("small", "trees of 1..40 vertices from nine families, relabelled, adjacency lists permuted, any root; tables, ancestor test, LCA and distance for all pairs against parent walking; non-trivial: two vertices of different depth whose LCA is neither of them nor the root", 900_000, 9_000_000, small),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..40000 vertices from six families, 300 pairs; all non-trivial", 96, 1500, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) vertices from six families, 300 pairs; all non-trivial", 24, 200, huge) },
        ],
        assumptions: &["the input is a tree with n >= 1 vertices given as undirected adjacency lists"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

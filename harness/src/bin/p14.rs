//! P14 strongly connected components against mutual reachability.
use engine::*;
use harness::graphs::*;
use rust_cp::graph::tarjan::scc;

/// reach[u] bit v.
fn closure(n: usize, e: &[(usize, usize)]) -> Vec<u64> {
    let mut r: Vec<u64> = (0..n).map(|i| 1 << i).collect();
    for &(u, v) in e {
        r[u] |= 1 << v;
    }
    for k in 0..n {
        for i in 0..n {
            if r[i] >> k & 1 == 1 {
                r[i] |= r[k];
            }
        }
    }
    r
}
fn check(n: usize, e: &[(usize, usize)], ctx: &mut Ctx) -> R {
    let r = closure(n, e);
    let (cnt, id) = scc(&adj(n, e));
    ensure_eq!(id.len(), n, "length of the numbering");
    let mut seen = vec![false; cnt];
    for u in 0..n {
        ensure!(id[u] < cnt, "vertex {u} has number {}, count is {cnt}", id[u]);
        seen[id[u]] = true;
        for v in 0..n {
            let mutual = r[u] >> v & 1 == 1 && r[v] >> u & 1 == 1;
            ensure_eq!(id[u] == id[v], mutual, "vertices {u} and {v} in one component (numbering {id:?});");
        }
    }
    ensure!(seen.iter().all(|&x| x), "numbers used are not 0..{cnt}: {id:?}");
    for &(u, v) in e {
        ensure!(id[u] >= id[v], "edge {u} -> {v} goes from number {} up to {}", id[u], id[v]);
    }
    ctx.checks += (n * n + e.len()) as u64;
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(cnt > 1 && cnt < n, "several components, one with several vertices");
    ctx.nontrivial_if(cnt > 1 && cnt < n && e.iter().any(|x| id[x.0] != id[x.1]));
    Ok(())
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[5usize, 8, 14, 40]);
    let n = src.size(0, hi);
    let e = if n > 0 { edges(src, ctx, n, 200) } else { vec![] };
    ctx.note(|| format!("n = {n}, edges {e:?}"));
    check(n, &e, ctx)
}

/// Every directed graph with n <= 4 vertices without self-loops, two adjacency orders.
fn total(th: bool) -> u64 {
    let mut t = 0;
    for n in 1..=if th { 5 } else { 4u32 } {
        t += 2u64 << (n * (n - 1));
    }
    t
}
fn exhaustive(mut i: u64, ctx: &mut Ctx) -> R {
    let mut n = 1usize;
    while i >= 2u64 << (n * (n - 1)) {
        i -= 2u64 << (n * (n - 1));
        n += 1;
    }
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|u| (0..n).filter(move |&v| v != u).map(move |v| (u, v))).collect();
    let mut e: Vec<(usize, usize)> = pairs.iter().enumerate().filter(|x| i >> 1 >> x.0 & 1 == 1).map(|x| *x.1).collect();
    if i & 1 == 1 {
        e.reverse();
    }
    ctx.note(|| format!("n = {n}, edges {e:?}"));
    check(n, &e, ctx)
}

/// Kosaraju, iterative.
fn kosaraju(n: usize, g: &[Vec<usize>]) -> Vec<usize> {
    let mut rev = vec![vec![]; n];
    for u in 0..n {
        for &v in &g[u] {
            rev[v].push(u);
        }
    }
    let mut order = vec![];
    let mut vis = vec![false; n];
    for s in 0..n {
        if vis[s] {
            continue;
        }
        vis[s] = true;
        let mut st = vec![(s, 0)];
        while let Some((u, i)) = st.pop() {
            if i < g[u].len() {
                st.push((u, i + 1));
                let v = g[u][i];
                if !vis[v] {
                    vis[v] = true;
                    st.push((v, 0));
                }
            } else {
                order.push(u);
            }
        }
    }
    let mut id = vec![usize::MAX; n];
    let mut c = 0;
    for &s in order.iter().rev() {
        if id[s] != usize::MAX {
            continue;
        }
        id[s] = c;
        let mut st = vec![s];
        while let Some(u) = st.pop() {
            for &v in &rev[u] {
                if id[v] == usize::MAX {
                    id[v] = c;
                    st.push(v);
                }
            }
        }
        c += 1;
    }
    id
}
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 300_000 } else { 60_000 };
    sized(src, ctx, 1000, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = 2 + src.size(lo, hi);
    let fam = src.upto(3);
    let m = n / 2 + n * src.upto(3);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} m={m} family {fam} seed={seed}"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let e = big_edges(&mut r, n, m, fam);
    let g = adj(n, &e);
    let want = kosaraju(n, &g);
    let k = want.iter().max().unwrap() + 1;
    let (cnt, id) = scc(&g);
    ensure_eq!(cnt, k, "number of components");
    ensure_eq!(id.len(), n, "length of the numbering");
    let mut map = vec![usize::MAX; k];
    let mut used = vec![false; k];
    for u in 0..n {
        ensure!(id[u] < cnt, "vertex {u} has number {}, count is {cnt}", id[u]);
        if map[want[u]] == usize::MAX {
            map[want[u]] = id[u];
            ensure!(!used[id[u]], "number {} is used for two components", id[u]);
            used[id[u]] = true;
        }
        ensure_eq!(id[u], map[want[u]], "number of vertex {u}, another vertex of its component says;");
    }
    for &(u, v) in &e {
        ensure!(id[u] >= id[v], "edge {u} -> {v} goes from number {} up to {}", id[u], id[v]);
    }
    ctx.checks += (n + m) as u64;
    ctx.label_if(k > 1 && k < n, "several components, one with several vertices");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P14",
        facets: vec![
            Facet::random("small", "directed graphs of 0..40 vertices from seven families with self-loops and parallel edges; against the transitive closure; non-trivial: several components, one with several vertices, and an edge between components", 4_000_000, 40_000_000, small),
            Facet::exhaustive("all small graphs", "every directed graph of up to 4 (thorough: 5) vertices without self-loops, adjacency in two orders; non-trivial as above", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..60000 vertices, against Kosaraju; all non-trivial", 96, 1500, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) vertices, against Kosaraju; all non-trivial", 24, 200, huge) },
        ],
        assumptions: &[],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

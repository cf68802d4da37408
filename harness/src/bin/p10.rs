//! P10 Dijkstra against Bellman-Ford in 128-bit arithmetic.
use engine::*;
use harness::graphs::*;
use rust_cp::graph::shortest_path::dijkstra;

fn bellman_ford(n: usize, e: &[(usize, usize, usize)], s: usize) -> Vec<Option<u128>> {
    let mut d = vec![None; n];
    d[s] = Some(0u128);
    for round in 0.. {
        assert!(round <= n, "oracle does not settle");
        let mut change = false;
        for &(u, v, c) in e {
            if let Some(x) = d[u] {
                let y = x + c as u128;
                if d[v].is_none() || d[v].unwrap() > y {
                    d[v] = Some(y);
                    change = true;
                }
            }
        }
        if !change {
            break;
        }
    }
    d
}

fn compare(got: &[Option<usize>], want: &[Option<u128>]) -> R {
    ensure_eq!(got.len(), want.len(), "length of the result");
    for v in 0..want.len() {
        ensure_eq!(got[v].map(|x| x as u128), want[v], "distance of vertex {v}");
    }
    Ok(())
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[5usize, 9, 14, 40]);
    let n = 1 + src.size(0, hi - 1);
    let e = edges(src, ctx, n, 150);
    let m = e.len().max(1);
    let kind = src.weighted(&[4, 2, 2, 2, 2, 1]);
    ctx.label(["weights 0..12", "weights 0 and 1", "weights up to MAX/m", "one weight near MAX", "decreasing along the numbering", "all zero"][kind]);
    let giant = src.below(m);
    let w: Vec<(usize, usize, usize)> = e
        .iter()
        .enumerate()
        .map(|(i, &(u, v))| {
            let c = match kind {
                0 => src.upto(12),
                1 => src.upto(1),
                2 => usize::MAX / m - src.upto(3.min(usize::MAX / m)),
                3 => if i == giant { usize::MAX - 100 * m } else { src.upto(100) },
                4 => u.abs_diff(v) * u.abs_diff(v) + src.upto(2),
                _ => 0,
            };
            (u, v, c)
        })
        .collect();
    let mut g = vec![vec![]; n];
    for &(u, v, c) in &w {
        g[u].push((v, c));
    }
    let s = src.below(n);
    ctx.note(|| format!("n = {n}, source {s}, edges (from, to, weight): {w:?}"));
    let want = bellman_ford(n, &w, s);
    let got = dijkstra(&g, s);
    compare(&got, &want)?;
    ensure_eq!(got[s], Some(0), "distance of the source");
    ctx.checks += n as u64;
    let reach = want.iter().flatten().count();
    ctx.label_if(reach < n, "unreachable vertices");
    ctx.label_if(w.iter().any(|x| x.0 == x.1), "self-loop");
    // the shortest path in edges is not the lightest one
    let hops = bellman_ford(n, &w.iter().map(|x| (x.0, x.1, 1)).collect::<Vec<_>>(), s);
    let improved = w.iter().any(|&(u, v, c)| hops[u].is_some() && hops[v] == hops[u].map(|h| h + 1) && want[u].unwrap() + c as u128 > want[v].unwrap());
    ctx.label_if(improved, "an edge of the breadth-first layering is not tight");
    ctx.nontrivial_if(improved && reach >= 3);
    Ok(())
}

/// Large graphs: independent O(m log m) computation with a binary tree queue over u128.
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 40_000 };
    sized(src, ctx, 1000, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = 2 + src.size(lo, hi);
    let fam = src.upto(3);
    let m = n * (1 + src.upto(4));
    let seed = src.upto(usize::MAX >> 1) as u64;
    let wmax = *src.pick(&[0u128, 1, 20, 1_000_000_000, 1 << 44]);
    ctx.note(|| format!("n={n} m={m} family {fam} seed={seed} weights 0..={wmax}"));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let e = big_edges(&mut r, n, m, fam);
    let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    for &(u, v) in &e {
        g[u].push((v, r.upto(wmax) as usize));
    }
    let s = r.upto(n as u128 - 1) as usize;
    let mut want: Vec<Option<u128>> = vec![None; n];
    let mut set = std::collections::BTreeSet::new();
    want[s] = Some(0);
    set.insert((0u128, s));
    while let Some((d, u)) = set.pop_first() {
        for &(v, c) in &g[u] {
            let x = d + c as u128;
            if want[v].map(|y| y > x).unwrap_or(true) {
                if let Some(y) = want[v] {
                    set.remove(&(y, v));
                }
                want[v] = Some(x);
                set.insert((x, v));
            }
        }
    }
    ctx.label_if(want.iter().any(|x| x.is_none()), "unreachable vertices");
    compare(&dijkstra(&g, s), &want)?;
    ctx.checks += n as u64;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P10",
        facets: vec![
            Facet::random("small", "directed graphs of 1..40 vertices from seven families with self-loops and parallel edges, six weight distributions including totals close to usize::MAX; against Bellman-Ford; non-trivial: at least three reachable vertices and an edge of the breadth-first layering that is not on a lightest path", 4_000_000, 40_000_000, small),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..40000 vertices, up to five times as many edges, against an independent implementation in u128; all non-trivial", 96, 1500, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) vertices, up to five times as many edges, against an independent implementation in u128; all non-trivial", 24, 200, huge) },
        ],
        assumptions: &["the sum of all weights fits usize"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

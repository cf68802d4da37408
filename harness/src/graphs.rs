//! Directed graph generator: edge lists of several families, relabelled and shuffled.
use engine::{Ctx, Rng, Src};

pub const FAMILIES: [&str; 7] =
    ["sparse random", "dense random", "path with shortcuts", "layered", "cycles", "tree-like", "grid"];

/// Edge list over 0..n (n >= 1). Self-loops and parallel edges occur.
pub fn edges(src: &mut Src, ctx: &mut Ctx, n: usize, max_m: usize) -> Vec<(usize, usize)> {
    let fam = src.weighted(&[4, 3, 2, 3, 3, 2, 1]);
    ctx.label(FAMILIES[fam]);
    let mut e = vec![];
    match fam {
        0 | 1 => {
            let m = if fam == 0 { n + n / 2 } else { n * n / 2 };
            while e.len() < max_m && src.more(m.max(1)) {
                let u = src.below(n);
                let v = src.below(n);
                e.push((u, v));
            }
        }
        2 => {
            for i in 0..n - 1 {
                if !src.prob(1, 12) {
                    e.push((i, i + 1));
                }
            }
            while e.len() < max_m && src.more(n) {
                let u = src.below(n);
                let v = src.below(n);
                e.push((u, v));
            }
        }
        3 => {
            let w = 1 + src.upto(3.min(n - 1));
            while e.len() < max_m && src.more(2 * n) {
                let u = src.below(n);
                let layer = u / w + 1;
                let lo = layer * w;
                if lo < n {
                    let v = lo + src.upto((w - 1).min(n - 1 - lo));
                    e.push((u, v));
                } else {
                    e.push((u, src.below(n)));
                }
            }
        }
        4 => {
            // a few cycles over consecutive blocks, joined by forward and a few backward edges
            let mut i = 0;
            while i < n {
                let k = 1 + src.upto(4.min(n - 1 - i));
                if k > 1 || src.coin() {
                    for j in 0..k {
                        e.push((i + j, i + (j + 1) % k));
                    }
                }
                i += k;
            }
            while e.len() < max_m && src.more(n) {
                let a = src.below(n);
                let b = src.below(n);
                let (u, v) = if a <= b || src.prob(1, 10) { (a, b) } else { (b, a) };
                e.push((u, v));
            }
        }
        5 => {
            for i in 1..n {
                let p = src.below(i);
                if src.prob(1, 6) {
                    e.push((i, p));
                } else {
                    e.push((p, i));
                }
            }
            while e.len() < max_m && src.more(n / 2 + 1) {
                let u = src.below(n);
                let v = src.below(n);
                e.push((u, v));
            }
        }
        _ => {
            let w = (1..).find(|w| w * w >= n).unwrap();
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    e.push(if src.prob(1, 4) { (i + 1, i) } else { (i, i + 1) });
                }
                if i + w < n {
                    e.push(if src.prob(1, 4) { (i + w, i) } else { (i, i + w) });
                }
            }
        }
    }
    e.truncate(max_m);
    // relabel and shuffle (identity is the simplest choice)
    if src.prob(2, 3) {
        let p = src.perm(n);
        e.iter_mut().for_each(|x| *x = (p[x.0], p[x.1]));
        let q = src.perm(e.len());
        e = q.into_iter().map(|i| e[i]).collect();
    }
    e
}

pub fn adj(n: usize, e: &[(usize, usize)]) -> Vec<Vec<usize>> {
    let mut g = vec![vec![]; n];
    for &(u, v) in e {
        g[u].push(v);
    }
    g
}

/// Large random graph from a single drawn seed (the choices stay few).
pub fn big_edges(rng: &mut Rng, n: usize, m: usize, fam: usize) -> Vec<(usize, usize)> {
    let mut e = Vec::with_capacity(m);
    let r = |rng: &mut Rng, k: usize| rng.upto(k as u128 - 1) as usize;
    match fam {
        0 => {
            for _ in 0..m {
                e.push((r(rng, n), r(rng, n)));
            }
        }
        1 => {
            for i in 0..n - 1 {
                e.push((i, i + 1));
            }
            for _ in 0..m.saturating_sub(n) {
                let a = r(rng, n);
                let b = (a + 1 + r(rng, 20)).min(n - 1);
                e.push((a, b));
            }
        }
        2 => {
            // mostly forward edges with a few short back edges: many medium components
            for _ in 0..m {
                let a = r(rng, n);
                let b = if r(rng, 8) == 0 { a.saturating_sub(r(rng, 30)) } else { (a + r(rng, 10)).min(n - 1) };
                e.push((a, b));
            }
        }
        _ => {
            for i in 1..n {
                e.push((r(rng, i), i));
            }
            for _ in 0..m.saturating_sub(n) {
                e.push((r(rng, n), r(rng, n)));
            }
        }
    }
    // relabel
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, r(rng, i + 1));
    }
    for x in e.iter_mut() {
        *x = (p[x.0], p[x.1]);
    }
    for i in (1..e.len()).rev() {
        let j = r(rng, i + 1);
        e.swap(i, j);
    }
    e
}

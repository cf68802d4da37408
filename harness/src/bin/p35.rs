//! P35 work bounds of the graph, string and number routines, counted in executed integer
//! comparisons of the compiled code (the instrumentation's step counter; no clock).
//!
//! Every bound is a constant times the textbook expression; the constants are about eight times
//! what the routines need on the worst generated inputs, and the large inputs separate the
//! expressions from the next complexity class by far more than that.
use engine::*;
use harness::graphs::big_edges;
use harness::trees::big_tree;
use rust_cp::data_structure::min_heap::MinHeap;
use rust_cp::data_structure::union_find::UnionFind;
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;
use rust_cp::math::factorial::Factorial;
use rust_cp::math::internal_math::verif_hooks as im;
use rust_cp::math::number_theory::{ex_crt, ex_gcd, gcd, lcm};
use rust_cp::misc::input::In;
use rust_cp::misc::modint::{ModInt1000000007, ModInt998244353, Mod1000000007, Mod998244353};
use rust_cp::misc::monoids::Additive;
use rust_cp::string::aho_corasick::AhoCorasick;
use rust_cp::traits::integral::Integral;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::Cell;
use std::cmp::Ordering;

fn steps<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = cov::fuel_left();
    let r = std::hint::black_box(f());
    (r, (a - cov::fuel_left()) as u64)
}
/// Binary digits of n, at least 1.
fn digits(n: usize) -> u64 {
    (usize::BITS - n.max(1).leading_zeros()) as u64
}
fn within(what: impl FnOnce() -> String, _key: &'static str, used: u64, k: u64, base: u64, ctx: &mut Ctx) -> R {
    let base = base + 10;
    ctx.checks += 1;
    ensure!(used <= k * base, "{}: {used} steps, more than {k} * {base}", what());
    Ok(())
}
// ---------------------------------------------------------------- sets and heaps
fn union_find(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[50usize, 1000, 20_000]);
    let n = 1 + src.size(0, hi - 1);
    let shape = src.upto(5);
    let (swap, ask) = (src.coin(), src.upto(2));
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    ctx.note(|| format!("{n} elements, shape {shape}, swap {swap}, queries {ask}"));
    ctx.label(["chain", "reverse chain", "star", "binary merges", "random", "chain of tails"][shape]);
    let mut joins: Vec<(usize, usize)> = vec![];
    match shape {
        0 => (1..n).for_each(|i| joins.push((i - 1, i))),
        1 => (1..n).rev().for_each(|i| joins.push((i - 1, i))),
        2 => (1..n).for_each(|i| joins.push((0, i))),
        3 => {
            let mut w = 1;
            while w < n {
                (0..n).step_by(2 * w).for_each(|i| if i + w < n { joins.push((i, i + w)) });
                w *= 2;
            }
        }
        4 => (0..n).for_each(|_| joins.push((rng.upto(n as u128 - 1) as usize, rng.upto(n as u128 - 1) as usize))),
        _ => (1..n).for_each(|i| joins.push((i, rng.upto(i as u128 - 1) as usize))),
    }
    if swap {
        joins.iter_mut().for_each(|e| *e = (e.1, e.0));
    }
    let mut uf = UnionFind::new(n);
    let l = digits(n);
    for &(x, y) in &joins {
        let (_, used) = steps(|| uf.join(x, y));
        within(|| format!("join({x}, {y}) among {n} elements"), "uf op", used, 20, l, ctx)?;
        if ask > 0 && rng.upto(ask as u128) == 0 {
            let z = if rng.upto(1) == 0 { x } else { rng.upto(n as u128 - 1) as usize };
            let (_, used) = steps(|| (uf.size(z), uf.find(z)));
            within(|| format!("size and find of {z} among {n} elements"), "uf op", used, 20, l, ctx)?;
        }
    }
    let (_, used) = steps(|| (0..n).map(|i| uf.find(i)).max());
    within(|| format!("find of each of {n} elements"), "uf all", used, 30, n as u64 * 2, ctx)?;
    let (_, used) = steps(|| uf.groups());
    within(|| format!("groups of {n} elements"), "uf groups", used, 100, n as u64, ctx)?;
    ctx.nontrivial_if(n >= 100);
    Ok(())
}

thread_local!(static CMP: Cell<u64> = const { Cell::new(0) });
#[derive(PartialEq, Eq, Debug)]
struct K(i64);
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        CMP.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
fn compared<T>(f: impl FnOnce() -> T) -> (T, u64) {
    CMP.with(|c| c.set(0));
    let r = f();
    (r, CMP.with(|c| c.get()))
}
fn min_heap(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[30usize, 500, 10_000]);
    let n = src.size(0, hi);
    let order = src.upto(3);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    ctx.note(|| format!("{n} items, order {order}"));
    ctx.label(["ascending", "descending", "all equal", "random"][order]);
    let mut item = |i: usize| K(match order { 0 => i as i64, 1 => -(i as i64), 2 => 7, _ => rng.upto(n as u128) as i64 });
    let mut h = MinHeap::new();
    for i in 0..n {
        let x = item(i);
        let ((), used) = compared(|| h.push(x));
        within(|| format!("push number {i}"), "heap push", used, 5, digits(i + 1), ctx)?;
        if i % 16 == 0 {
            let (_, used) = compared(|| (h.peek().is_some(), h.len(), h.is_empty()));
            within(|| format!("peek, len and is_empty with {} items", i + 1), "heap peek", used, 3, 1, ctx)?;
        }
    }
    let pops = src.index_upto(n);
    for i in 0..pops {
        let (x, used) = compared(|| h.pop());
        ensure!(x.is_some(), "pop of a heap with {} items returns nothing", n - i);
        within(|| format!("pop with {} items", n - i), "heap pop", used, 6, digits(n - i), ctx)?;
        if src.prob(1, 40) {
            let x = item(i);
            h.push(x);
            h.pop();
        }
    }
    let k = src.size(0, hi);
    let mut o = MinHeap::new();
    (0..k).for_each(|i| o.push(item(i)));
    let all = n - pops + k;
    let ((), used) = compared(|| h.append(&mut o));
    within(|| format!("append of {k} items to {}", n - pops), "heap append", used, 6, (all as u64 + 1) * 2, ctx)?;
    let (v, used) = compared(|| h.into_sorted_vec());
    ensure_eq!(v.len(), all, "length of the sorted vector");
    within(|| format!("sorted vector of {all} items"), "heap sort", used, 8, (all as u64 + 1) * digits(all), ctx)?;
    ctx.nontrivial_if(n >= 100 && pops >= 20);
    Ok(())
}

// ---------------------------------------------------------------- graphs
fn shortest(src: &mut Src, ctx: &mut Ctx) -> R {
    let fam = src.weighted(&[3, 3, 3, 2, 2]);
    ctx.label(["random", "hub with many improvements", "nested halving shortcuts", "grid", "complete with falling distances"][fam]);
    let hi = *src.pick(&[20usize, 100, 400]);
    let k = 2 + if fam == 1 && src.prob(1, 10) { src.uni(2000, 10_000) as usize } else { src.size(0, hi) };
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    let r = |rng: &mut Rng, m: usize| rng.upto(m as u128) as usize;
    let mut e: Vec<(usize, usize, usize)> = vec![];
    let n;
    match fam {
        0 => {
            n = 4 * k;
            let w = *src.pick(&[0usize, 1, 9, 1_000_000]);
            let m = n * src.uni(1, 6) as usize;
            let f = src.upto(3);
            e.extend(big_edges(&mut rng, n, m, f).into_iter().map(|(u, v)| (u, v, 0)));
            e.iter_mut().for_each(|x| x.2 = r(&mut rng, w));
        }
        1 => {
            // source, k feeders reached in order, each improving the hub; the hub has k leaves
            n = 2 * k + 2;
            for i in 0..k {
                e.push((0, 2 + i, i + 1));
                e.push((2 + i, 1, 3 * (k - i)));
                e.push((1, 2 + k + i, 1 + r(&mut rng, 5)));
            }
        }
        2 => {
            // v[i] to v[i+1] directly for 2^j or through a middle vertex for 0: doubles the
            // corrections of any label-correcting order
            let g = k.min(50);
            n = 2 * g + 1;
            for i in 0..g {
                let w = 1usize << (g - 1 - i);
                let (a, b, c) = (2 * i, 2 * i + 1, 2 * i + 2);
                let mut x = [(a, c, w), (a, b, 0), (b, c, 0)];
                if r(&mut rng, 1) == 0 {
                    x.reverse();
                }
                e.extend(x);
            }
        }
        3 => {
            let w = (1..).find(|w| w * w >= 4 * k).unwrap();
            n = w * w;
            for i in 0..n {
                if (i + 1) % w != 0 {
                    let c = if i / w % 2 == 0 { 1 } else { 1 + r(&mut rng, 1000) };
                    e.push((i, i + 1, c));
                    e.push((i + 1, i, c));
                }
                if i + w < n {
                    let c = 1 + r(&mut rng, 1000);
                    e.push((i, i + w, c));
                    e.push((i + w, i, c));
                }
            }
        }
        _ => {
            // every vertex improves all later ones
            n = k.min(200);
            for i in 0..n {
                for j in i + 1..n {
                    e.push((i, j, (n - i) * (j - i) + r(&mut rng, 1)));
                }
            }
        }
    }
    let m = e.len();
    let mut g = vec![vec![]; n];
    e.iter().for_each(|&(u, v, c)| g[u].push((v, c)));
    ctx.note(|| format!("{n} vertices, {m} edges"));
    let (_, used) = steps(|| dijkstra(&g, 0));
    within(|| format!("dijkstra with {n} vertices and {m} edges"), "dijkstra", used, 60, (n + m) as u64 * digits(n + m), ctx)?;
    ctx.nontrivial_if(m >= 300 || fam == 2 && n >= 60);
    Ok(())
}
fn components(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[100usize, 2000, 20_000]);
    let n = 1 + src.size(0, hi);
    let (fam, d) = (src.upto(3), src.uni(0, 4) as usize);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    ctx.note(|| format!("family {fam}, {n} vertices, {} edges", n * d));
    let mut g = vec![vec![]; n];
    let e = big_edges(&mut rng, n, n * d, fam);
    e.iter().for_each(|&(u, v)| g[u].push(v));
    if src.prob(1, 4) {
        // a dense part
        let k = n.min(120);
        (0..k).for_each(|u| (0..k).for_each(|v| g[u].push(v)));
    }
    let m: usize = g.iter().map(|x| x.len()).sum();
    let (_, used) = steps(|| scc(&g));
    within(|| format!("scc with {n} vertices and {m} edges"), "scc", used, 250, (n + m) as u64, ctx)?;
    ctx.nontrivial_if(n >= 300);
    Ok(())
}
fn draw_tree(src: &mut Src, ctx: &mut Ctx) -> (Vec<Vec<usize>>, usize, Rng) {
    let hi = *src.pick(&[50usize, 1000, 10_000]);
    let n = 1 + src.size(0, hi);
    let fam = src.upto(8);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    ctx.label(["random", "path", "binary", "deep", "caterpillar", "long-range", "broom", "star", "caterpillar of long legs"][fam]);
    let mut g = match fam {
        0..=5 => big_tree(&mut rng, n, fam),
        _ => {
            let mut g = vec![vec![]; n];
            let k = (1..).find(|k| k * k >= n).unwrap();
            for i in 1..n {
                let p = match fam { 6 => if i <= n / 2 { i - 1 } else { n / 2 }, 7 => 0, _ => if i <= k { i - 1 } else { i - k } };
                g[i].push(p);
                g[p].push(i);
            }
            g
        }
    };
    if fam == 2 && src.coin() {
        // smaller subtree last or first
        g.iter_mut().for_each(|l| l.reverse());
    }
    let root = if fam >= 6 && src.coin() { 0 } else { rng.upto(n as u128 - 1) as usize };
    ctx.note(|| format!("tree family {fam}, {n} vertices, root {root}"));
    ctx.nontrivial_if(n >= 100);
    (g, root, rng)
}
fn lifting(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, root, mut rng) = draw_tree(src, ctx);
    let n = g.len();
    let l = digits(n);
    let (t, used) = steps(|| BinaryLifting::from(&g, root));
    within(|| format!("lifting table of {n} vertices"), "lift new", used, 50, n as u64 * l, ctx)?;
    for _ in 0..30 {
        let (u, v) = (rng.upto(n as u128 - 1) as usize, rng.upto(n as u128 - 1) as usize);
        let (_, used) = steps(|| t.is_ancestor(u, v));
        within(|| format!("is_ancestor({u}, {v}) among {n}"), "lift anc", used, 10, 1, ctx)?;
        let (_, used) = steps(|| t.lca(u, v));
        within(|| format!("lca({u}, {v}) among {n}"), "lift lca", used, 30, l, ctx)?;
        let (_, used) = steps(|| t.dis(u, v));
        within(|| format!("dis({u}, {v}) among {n}"), "lift dis", used, 30, l, ctx)?;
    }
    Ok(())
}
enum AddMap {}
impl MapMonoid for AddMap {
    type M = Additive<i64>;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(f: &i64, x: &i64) -> i64 {
        CMP.with(|c| c.set(c.get() + 1));
        f.wrapping_add(*x)
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        CMP.with(|c| c.set(c.get() + 1));
        f.wrapping_add(*g)
    }
    fn binary_operation(a: &i64, b: &i64) -> i64 {
        CMP.with(|c| c.set(c.get() + 1));
        Additive::<i64>::binary_operation(a, b)
    }
}
fn decomposed(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, root, mut rng) = draw_tree(src, ctx);
    let n = g.len();
    let l = digits(n);
    let (mut h, used) = steps(|| if root % 2 == 0 { HLD::<AddMap>::new(&g, root) } else { HLD::with_init_value(&g, root, &vec![0; n]) });
    within(|| format!("decomposition of {n} vertices"), "hld new", used, 300, n as u64, ctx)?;
    let deep = (0..n).max_by_key(|&u| h.pos[u]).unwrap();
    for i in 0..30 {
        let mut v = || if rng.upto(5) == 0 { deep } else { rng.upto(n as u128 - 1) as usize };
        let (u, w) = (v(), v());
        let ((_, c), used) = match i % 6 {
            0 => steps(|| compared(|| h.apply_path(u, w, 1))),
            1 | 2 => steps(|| compared(|| { h.path_prod(u, w); })),
            3 => steps(|| compared(|| h.apply_subtree(u, 1))),
            4 => steps(|| compared(|| { h.subtree_prod(u); })),
            _ => steps(|| compared(|| { h.set(u, 5); h.get(w); })),
        };
        let name = ["apply_path", "path_prod", "path_prod", "apply_subtree", "subtree_prod", "set and get"][i % 6];
        let base = if i % 6 < 3 { l * l } else { l };
        within(|| format!("{name}({u}, {w}) among {n}, element operations"), if i % 6 < 3 { "hld path el" } else { "hld el" }, c, 60, base, ctx)?;
        within(|| format!("{name}({u}, {w}) among {n}"), if i % 6 < 3 { "hld path st" } else { "hld st" }, used, 300, base, ctx)?;
    }
    Ok(())
}
fn matching(src: &mut Src, ctx: &mut Ctx) -> R {
    let fam = src.upto(4);
    ctx.label(["random", "one too many on the left", "ladder", "two hubs", "complete"][fam]);
    let hi = *src.pick(&[10usize, 40, 150]);
    let k = 2 + src.size(0, hi);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    let mut e: Vec<(usize, usize)> = vec![];
    let (n, m);
    match fam {
        0 => {
            (n, m) = (k, 1 + rng.upto(2 * k as u128) as usize);
            for _ in 0..k * src.uni(1, 6) as usize {
                e.push((rng.upto(n as u128 - 1) as usize, rng.upto(m as u128 - 1) as usize));
            }
        }
        1 | 4 => {
            // complete; with a left vertex too many every last search fails
            n = k.min(70);
            m = if fam == 1 { n - 1 } else { n };
            (0..n).for_each(|u| (0..m).for_each(|v| e.push((u, v))));
        }
        2 => {
            // both vertices of a rung see both vertices of the next: 2^k alternating paths, no way out
            n = 2 * k + 1;
            m = 2 * k;
            for i in 0..k {
                for a in 0..2 {
                    e.push((2 * i + a, 2 * i + a));
                    if i + 1 < k {
                        e.push((2 * i + a, 2 * i + 2));
                        e.push((2 * i + a, 2 * i + 3));
                    }
                }
            }
            e.push((2 * k, 0));
            e.push((2 * k, 1));
        }
        _ => {
            n = 2 * k;
            m = k + 2;
            for u in 0..n {
                e.push((u, 0));
                e.push((u, 1));
                if u % 3 == 0 {
                    e.push((u, 2 + u / 2));
                }
            }
        }
    }
    if src.coin() {
        for i in (1..e.len()).rev() {
            e.swap(i, rng.upto(i as u128) as usize);
        }
    }
    let len = e.len();
    ctx.note(|| format!("{n} x {m} vertices, {len} edges"));
    let mut s = AugmentedPath::new(n, m);
    e.iter().for_each(|&(u, v)| s.add_edge(u, v));
    let (k, used) = steps(|| s.solve());
    within(|| format!("matching of size {k} in {n} x {m} vertices with {len} edges"), "matching", used, 30, (k as u64 + 1) * (n + m + len) as u64, ctx)?;
    ctx.nontrivial_if(n >= 30 && len >= 40);
    Ok(())
}
fn flow(src: &mut Src, ctx: &mut Ctx) -> R {
    let fam = src.upto(4);
    ctx.label(["random unit capacities", "unit bipartite", "layers without exit", "random capacities", "layers with one exit"][fam]);
    let hi = *src.pick(&[10usize, 40, 150]);
    let k = 2 + src.size(0, hi);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    let mut e: Vec<(usize, usize, u64)> = vec![];
    let n;
    let r = |rng: &mut Rng, m: usize| rng.upto(m as u128) as usize;
    match fam {
        0 | 3 => {
            n = k.max(2);
            for _ in 0..n * src.uni(1, 6) as usize {
                e.push((r(&mut rng, n - 1), r(&mut rng, n - 1), if fam == 0 { 1 } else { 1 << r(&mut rng, 40) }));
            }
        }
        1 => {
            n = 2 * k + 2;
            for i in 0..k {
                e.push((0, 2 + i, 1));
                e.push((2 + k + i, 1, 1));
                for _ in 0..r(&mut rng, 4) {
                    e.push((2 + i, 2 + k + r(&mut rng, k - 1), 1));
                }
            }
        }
        _ => {
            // complete layers of width w, as deep as the way to the sink beside them: every
            // vertex is on the right level and none of the layers leads on
            let w = 2 + r(&mut rng, 3);
            let d = (k / w).clamp(2, 14);
            n = 2 + w * d + d + 1;
            for i in 0..w {
                e.push((0, 2 + i, 1000));
                for l in 1..d {
                    for j in 0..w {
                        e.push((2 + (l - 1) * w + i, 2 + l * w + j, 1000));
                    }
                }
            }
            let b = 2 + w * d;
            e.push((0, b, 5));
            (0..d).for_each(|i| e.push((b + i, b + i + 1, 5)));
            e.push((b + d, 1, 5));
            if fam == 4 {
                e.push((2 + (d - 1) * w, 1, 3));
            }
        }
    }
    let m = e.len();
    ctx.note(|| format!("{n} vertices, {m} edges"));
    if fam >= 2 && src.coin() || fam < 2 {
        for i in (1..m).rev() {
            e.swap(i, r(&mut rng, i));
        }
    }
    let mut g = Dinic::<u64>::new(n);
    e.iter().for_each(|&(u, v, c)| g.add_edge(u, v, c));
    let (f, used) = steps(|| g.get_max_flow(0, 1));
    // unit capacities: E sqrt(E); otherwise V E (the general V^2 E is not reached by these families)
    let (key, base) = match fam {
        0 | 1 => ("flow unit", (n + m) as u64 * ((m as f64).sqrt() as u64 + 2)),
        2 | 4 => ("flow layers", (n + m) as u64 * n as u64),
        _ => ("flow any", (n + m) as u64 * (n as u64).pow(2)),
    };
    within(|| format!("maximum flow {f} with {n} vertices and {m} edges"), key, used, 50, base, ctx)?;
    ctx.nontrivial_if(m >= 60);
    Ok(())
}

// ---------------------------------------------------------------- strings and input
fn automaton(src: &mut Src, ctx: &mut Ctx) -> R {
    let fam = src.upto(3);
    ctx.label(["random", "long chain of fallbacks without patterns", "all powers of a letter", "suffixes of a word"][fam]);
    let hi = *src.pick(&[20usize, 200, 1500]);
    let k = 1 + src.size(0, hi);
    let mut rng = Rng::new(&[src.upto(usize::MAX >> 1) as u64]);
    let r = |rng: &mut Rng, m: usize| rng.upto(m as u128) as usize;
    let mut p: Vec<Vec<u8>> = vec![];
    let text: Vec<u8>;
    match fam {
        0 => {
            for _ in 0..1 + k / 5 {
                p.push((0..1 + r(&mut rng, 9)).map(|_| b'a' + r(&mut rng, 2) as u8).collect());
            }
            text = (0..4 * k).map(|_| b'a' + r(&mut rng, 2) as u8).collect();
        }
        1 => {
            // a^k b: in a run of a's every position has k fallbacks and no occurrence
            let mut w = vec![b'a'; k];
            w.push(b'b');
            p.push(w);
            if r(&mut rng, 1) == 0 {
                p.push(b"c".to_vec());
            }
            text = vec![b'a'; 4 * k];
        }
        2 => {
            let q = k.min(60);
            (1..=q).for_each(|i| p.push(vec![b'a'; i]));
            text = (0..4 * k).map(|i| if i % (q + 3) == 0 { b'b' } else { b'a' }).collect();
        }
        _ => {
            let q = k.min(150);
            let w: Vec<u8> = (0..q).map(|_| b'a' + r(&mut rng, 1) as u8).collect();
            (0..q).for_each(|i| p.push(w[i..].to_vec()));
            text = w.iter().cycle().take(4 * k).copied().collect();
        }
    }
    let total: usize = p.iter().map(|x| x.len()).sum();
    ctx.note(|| format!("{} patterns of {total} letters, text of {}", p.len(), text.len()));
    let refs: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
    let (a, used) = steps(|| AhoCorasick::<b'a', 26>::from(&refs));
    within(|| format!("automaton of {total} letters"), "ac build", used, 20, 26 * (total as u64 + 1), ctx)?;
    let (_, used) = steps(|| a.find(&text));
    within(|| format!("find in {} letters", text.len()), "ac find", used, 70, text.len() as u64, ctx)?;
    let (all, used) = steps(|| a.find_all(&text));
    let occ: usize = all.iter().map(|x| x.len()).sum();
    within(|| format!("find_all of {occ} occurrences in {} letters", text.len()), "ac find_all", used, 90, (text.len() + occ) as u64, ctx)?;
    let (_, used) = steps(|| a.find_cnt(&text));
    within(|| format!("find_cnt of {occ} occurrences in {} letters", text.len()), "ac find_cnt", used, 70, (text.len() + occ + p.len()) as u64, ctx)?;
    ctx.nontrivial_if(k >= 50);
    Ok(())
}
fn reader(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[30usize, 500, 4000]);
    let k = 1 + src.size(0, hi);
    let gap = *src.pick(&[1usize, 1, 40]);
    let text: String = (0..k).map(|i| format!("{}{}", i * 7919 % 1000, " \n".repeat(gap))).collect();
    let how = src.upto(4);
    ctx.note(|| format!("{k} tokens in {} bytes, read as {}", text.len(), ["i64", "usize and checked", "vector", "bytes", "chars"][how]));
    let (n, used) = steps(|| {
        let mut r = In::new(&text);
        match how {
            0 => (0..k).map(|_| r.i64() as usize % 2).count(),
            1 => {
                let mut n = 0;
                while let Some(x) = r.checked_read::<usize>() {
                    n += 1 + (x > 5000) as usize;
                }
                n
            }
            2 => r.vec::<u32>(k).len(),
            3 => (0..k).map(|_| r.bytes().len()).filter(|&l| l > 0).count(),
            _ => (0..k).map(|_| r.chars().len()).filter(|&l| l > 0).count(),
        }
    });
    ensure_eq!(n, k, "tokens read");
    within(|| format!("reading {k} tokens from {} bytes", text.len()), "reader", used, 80, text.len() as u64, ctx)?;
    ctx.nontrivial_if(k >= 100);
    Ok(())
}

// ---------------------------------------------------------------- numbers
fn gcds<T: Integral>(a: T, b: T, bits: u64, signed: bool, ctx: &mut Ctx) -> R {
    let (g, used) = steps(|| gcd(a, b));
    within(|| format!("gcd({a}, {b})"), "gcd", used, 30, bits, ctx)?;
    if g == T::one() || a == T::zero() || b == T::zero() {
        return Ok(());
    }
    if signed {
        let (_, used) = steps(|| ex_gcd(a, b));
        within(|| format!("ex_gcd({a}, {b})"), "ex_gcd", used, 40, bits, ctx)?;
    }
    Ok(())
}
fn numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    let what = src.upto(6);
    ctx.label(["gcd", "gcd of Fibonacci neighbours", "congruences", "power and inverse", "primality", "factorials", "primitive root"][what]);
    ctx.nontrivial_if(true);
    match what {
        0 => {
            let (a, b) = (src.u128(u128::MAX >> 1), src.u128(u128::MAX >> 1));
            ctx.note(|| format!("gcd of {a} and {b} in every width"));
            gcds(a, b, 128, false, ctx)?;
            gcds(a as i128, b as i128, 128, true, ctx)?;
            gcds((a >> 65) as i64, (b >> 65) as i64, 64, true, ctx)?;
            gcds(a as u64, b as u64, 64, false, ctx)?;
            gcds(-((a >> 97) as i32), (b >> 97) as i32, 32, true, ctx)?;
            gcds(a as usize, b as usize, 64, false, ctx)?;
            let (_, used) = steps(|| lcm((a >> 97) as i64, (b >> 97) as i64));
            within(|| "lcm".into(), "lcm", used, 20, 64, ctx)
        }
        1 => {
            let k = src.uni(2, 180) as usize;
            let (mut a, mut b) = (1u128, 1u128);
            (0..k).for_each(|_| (a, b) = (a + b, a));
            ctx.note(|| format!("gcd of {a} and {b}"));
            gcds(a, b, 128, false, ctx)?;
            gcds(a as i128, b as i128, 128, true, ctx)?;
            if k < 90 {
                gcds(a as i64, -(b as i64), 64, true, ctx)?;
            }
            // one small, one huge: repeated subtraction would take forever
            gcds(u64::MAX - k as u64, 1 + k as u64 % 3, 64, false, ctx)?;
            gcds(i64::MAX, 2, 64, true, ctx)?;
            gcds(1i128 << 126, 3, 128, true, ctx)
        }
        2 => {
            let k = src.size(0, 40);
            let x = src.upto(usize::MAX >> 2) as i128;
            let (mut a, mut b, mut m) = (vec![], vec![], vec![]);
            for _ in 0..k {
                // at most 40 bits in all
                let mi = if m.iter().product::<i64>() < 1 << 40 { 1 + src.upto(1 << 20) as i64 } else { 1 };
                let ai = src.upto(usize::MAX >> 2) as i64;
                a.push(ai);
                m.push(mi);
                b.push((ai as i128 * x).rem_euclid(mi as i128) as i64);
            }
            ctx.note(|| format!("{a:?} x = {b:?} mod {m:?}"));
            let (_, used) = steps(|| ex_crt(&a, &b, &m));
            within(|| format!("system of {k} congruences"), "ex_crt", used, 60, k as u64 + 1, ctx)
        }
        3 => {
            let (x, n) = (src.upto(usize::MAX), if src.coin() { src.int(0, u64::MAX as i128) as u64 } else { 1 << src.upto(63) });
            let b = 1 + src.upto(usize::MAX >> 2) as i64;
            ctx.note(|| format!("{x} to the power {n}; inverse modulo {b}"));
            let (_, used) = steps(|| (ModInt998244353::new(x).pow(n), ModInt1000000007::new(x).pow(n)));
            within(|| format!("{x} to the power {n}"), "pow", used, 20, 64, ctx)?;
            let (_, used) = steps(|| im::pow_mod(x as i64 >> 1, (n >> 1) as i64, 1 + (b % 2_000_000_000) as i32));
            within(|| format!("pow_mod with exponent {}", n >> 1), "pow_mod", used, 15, 64, ctx)?;
            let (_, used) = steps(|| im::inv_gcd(x as i64, b));
            within(|| format!("inv_gcd({x}, {b})"), "inv_gcd", used, 20, 64, ctx)?;
            let v = ModInt998244353::new(x);
            if v.val() != 0 {
                let (_, used) = steps(|| v.inv());
                within(|| format!("inverse of {v}"), "inv", used, 40, 64, ctx)?;
            }
            Ok(())
        }
        4 => {
            let n = src.int(0, i32::MAX as i128) as i32;
            ctx.note(|| format!("primality of {n}"));
            let (_, used) = steps(|| im::is_prime(n));
            within(|| format!("primality of {n}"), "is_prime", used, 40, 32, ctx)
        }
        5 => {
            let n = src.size(0, 20_000);
            ctx.note(|| format!("factorials up to {n}"));
            let (f, used) = steps(|| Factorial::<Mod998244353>::new(n));
            within(|| format!("factorials up to {n}"), "fact new", used, 45, n as u64 + 64, ctx)?;
            let (_, used) = steps(|| Factorial::<Mod1000000007>::new(n));
            within(|| format!("factorials up to {n}"), "fact new", used, 45, n as u64 + 64, ctx)?;
            let k = src.index_upto(n);
            let (_, used) = steps(|| (f.choose(n, k), f.perm(n, k)));
            within(|| format!("choose and perm ({n}, {k})"), "fact get", used, 6, 1, ctx)
        }
        _ => {
            let mut p = 2 + src.upto(i32::MAX as usize - 2) as i32;
            while !(2..).take_while(|d| *d as i64 * *d as i64 <= p as i64).all(|d| p % d != 0) {
                p -= 1;
            }
            ctx.note(|| format!("primitive root of {p}"));
            let (_, used) = steps(|| im::primitive_root(p));
            within(|| format!("primitive root of {p}"), "root", used, 15, (p as f64).sqrt() as u64 + 2000, ctx)
        }
    }
}

pub fn property() -> Property {
    let f = |name, rule, q: u64, run| Facet { fuel: 1_000_000_000, shrink_runs: 600, ..Facet::random(name, rule, q, 12 * q, run) };
    Property {
        id: "P35",
        facets: vec![
            f("union_find", "up to 20,000 elements joined in chain, star, tree, random orders: every join, size and find at most 20 (L + 10) steps (L = binary digits of n), all finds together 30 (2n + 10), groups 100 (n + 10); non-trivial: n >= 100", 16_000, union_find as RunFn),
            f("min_heap", "up to 10,000 items, ascending, descending, equal, random: push at most 5 (L + 10) comparisons of items, pop 6 (L + 10), append linear, sorted vector n L, peek constant; non-trivial: n >= 100 and 20 pops", 16_000, min_heap),
            f("dijkstra", "random, many-improvement hubs, nested halving shortcuts, grids, complete graphs: at most 60 ((n + m) L + 10) steps; non-trivial: 300 edges or 30 nested shortcuts", 24_000, shortest),
            f("scc", "up to 20,000 vertices: at most 250 (n + m + 10) steps; non-trivial: n >= 300", 16_000, components),
            f("lifting", "trees of up to 10,000 vertices of nine shapes: table 50 (n L + 10) steps, ancestor test constant, lca and distance 30 (L + 10); non-trivial: n >= 100", 16_000, lifting),
            f("decomposition", "the same trees: construction 300 (n + 10) steps; path operations 60 (L * L + 10) element operations and 300 (L * L + 10) steps, subtree and node operations the same with L", 16_000, decomposed),
            f("matching", "random, complete with one vertex too many, ladders with 2^k alternating paths, hubs: 30 ((matching + 1)(n + m + edges) + 10) steps; non-trivial: 30 left vertices and 40 edges", 16_000, matching),
            f("flow", "unit capacities (50 E sqrt E), complete layers leading nowhere (50 V E), random capacities (50 V^2 E); non-trivial: 60 edges", 16_000, flow),
            f("automaton", "random, fallback chains without patterns, all powers of a letter, all suffixes: construction 20 * 26 * letters, find 70 text, find_all 90 (text + occurrences), find_cnt 70 (text + occurrences + patterns); non-trivial: size 50 or more", 16_000, automaton),
            f("reader", "up to 4000 tokens, long gaps: at most 80 (bytes + 10) steps for reading all of them in any way; non-trivial: 100 tokens", 16_000, reader),
            f("numbers", "gcd, ex_gcd, lcm, congruence systems, powers, inverses, primality, factorial tables, primitive roots over values of every size: logarithmic, linear in the table, square root for the primitive root; all non-trivial", 160_000, numbers),
        ],
        assumptions: &[
            "work is counted in integer comparisons of up to 64 bits (loop conditions included) executed by the instrumented crate (monoid operations and item comparisons where the type is ours)",
            "a slowdown that stays inside the stated order (a constant factor of about six) is not reported",
        ],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

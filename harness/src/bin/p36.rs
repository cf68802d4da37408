//! P36 arguments out of range are refused, and a refused call changes nothing.
//!
//! Every facet mixes valid calls, compared with a model, with invalid ones, which must panic (in
//! the checked and in the plain build); the model ignores the invalid ones.
use engine::*;
use harness::monoid::*;
use harness::trees::{tree, Rooted};
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::data_structure::union_find::UnionFind;
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod998244353, Modulus};
use rust_cp::string::aho_corasick::AhoCorasick;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::fmt::Debug;

/// An index that is at least n: next to it, next to powers of two above it, in the wrap-around
/// reach of narrower types, huge.
fn beyond(src: &mut Src, n: usize) -> usize {
    let p = n.next_power_of_two();
    let x = match src.weighted(&[5, 3, 2, 2, 2, 1]) {
        0 => n + src.upto(2),
        1 => *src.pick(&[p, p - 1, p + 1, 2 * p, 2 * p - 1, p + n, 2 * p + n]),
        2 => n + src.upto(3 * n + 4),
        3 => (1usize << *src.pick(&[8, 16, 31, 32, 63])) + src.upto(n),
        4 => usize::MAX - src.upto(2 * n + 2),
        _ => usize::MAX,
    };
    x.max(n)
}
/// A range that is not one of 0..n: reversed, or reaching out.
fn bad_range(src: &mut Src, n: usize) -> (usize, usize) {
    if n > 0 && src.coin() {
        let r = src.below(n);
        (r + 1 + src.upto(n - r - 1), r)
    } else {
        let r = beyond(src, n + 1);
        (if src.prob(3, 4) { src.upto(n) } else { src.upto(r) }, r)
    }
}
fn refused<T: Debug>(ctx: &mut Ctx, what: impl Fn() -> String, f: impl FnOnce() -> T) -> R {
    ctx.note(|| format!("{}, to be refused", what()));
    ctx.checks += 1;
    match catch(f) {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("{} is not refused: it returns {x:?}", what()).into()),
    }
}

fn union_find(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 20);
    ctx.note(|| format!("{n} elements"));
    let mut uf = UnionFind::new(n);
    let mut label: Vec<usize> = (0..n).collect();
    let (mut bad, mut good) = (0, 0);
    while src.more(14) {
        if src.coin() || n == 0 {
            let b = beyond(src, n);
            let other = if n > 0 && src.prob(3, 4) { src.below(n) } else if src.coin() { b } else { beyond(src, n) };
            let (x, y) = if src.coin() { (b, other) } else { (other, b) };
            match src.upto(3) {
                0 => refused(ctx, || format!("join({x}, {y})"), || uf.join(x, y))?,
                1 => refused(ctx, || format!("is_same({x}, {y})"), || uf.is_same(x, y))?,
                2 => refused(ctx, || format!("size({b})"), || uf.size(b))?,
                _ => refused(ctx, || format!("find({b})"), || uf.find(b))?,
            }
            bad += 1;
        } else {
            let (x, y) = (src.below(n), src.below(n));
            ctx.note(|| format!("join({x}, {y})"));
            let (a, b) = (label[x], label[y]);
            ensure_eq!(uf.join(x, y), a != b, "join({x}, {y})");
            label.iter_mut().for_each(|l| if *l == a { *l = b });
            good += 1;
        }
    }
    for i in 0..n {
        ensure_eq!(uf.size(i), label.iter().filter(|&&l| l == label[i]).count(), "size({i}) at the end");
        for j in 0..n {
            ensure_eq!(uf.is_same(i, j), label[i] == label[j], "is_same({i}, {j}) at the end");
        }
    }
    ctx.label_if(n == 0, "n=0");
    ctx.nontrivial_if(bad >= 2 && good >= 2);
    Ok(())
}

fn seg<M: Gen>(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[4usize, 9, 20]);
    let n = src.size(0, hi);
    let mut v: Vec<M::S> = (0..n).map(|_| M::gen(src)).collect();
    ctx.note(|| format!("segment tree of {}: {v:?}", M::NAME));
    let mut t: Segtree<M> = v.clone().into();
    let (mut bad, mut good) = (0, 0);
    while src.more(12) {
        if src.coin() {
            bad += 1;
            let p = beyond(src, n);
            match src.weighted(&[3, 2, 3, 1, 1, 2]) {
                0 => {
                    let x = M::gen(src);
                    refused(ctx, || format!("set({p}, {x:?})"), || t.set(p, x.clone()))?
                }
                1 => refused(ctx, || format!("get({p})"), || t.get(p))?,
                2 => {
                    let (l, r) = bad_range(src, n);
                    refused(ctx, || format!("prod({l}, {r})"), || t.prod(l, r))?
                }
                3 => {
                    let l = beyond(src, n + 1);
                    refused(ctx, || format!("max_right({l}, true)"), || t.max_right(l, |_| true))?
                }
                4 => {
                    let r = beyond(src, n + 1);
                    refused(ctx, || format!("min_left({r}, true)"), || t.min_left(r, |_| true))?
                }
                _ => {
                    // false on the identity, true or false elsewhere
                    let (l, rest, id) = (src.upto(n), src.coin(), M::identity());
                    if src.coin() {
                        refused(ctx, || format!("max_right({l}, x != identity && {rest})"), || t.max_right(l, |x| *x != id && rest))?
                    } else {
                        refused(ctx, || format!("min_left({l}, x != identity && {rest})"), || t.min_left(l, |x| *x != id && rest))?
                    }
                }
            }
        } else if n > 0 {
            good += 1;
            let p = src.below(n);
            let x = M::gen(src);
            ctx.note(|| format!("set({p}, {x:?})"));
            t.set(p, x.clone());
            v[p] = x;
        }
    }
    ensure_eq!(t.all_prod(), fold::<M>(&v), "all_prod() at the end");
    for l in 0..=n {
        if l < n {
            ensure_eq!(t.get(l), v[l], "get({l}) at the end");
        }
        ensure_eq!(t.prod(l, n), fold::<M>(&v[l..]), "prod({l}, {n}) at the end");
        ensure_eq!(t.max_right(l, |_| true), n, "max_right({l}, true) at the end");
        ensure_eq!(t.min_left(l, |_| true), 0, "min_left({l}, true) at the end");
    }
    ctx.label(M::NAME);
    ctx.label_if(n == 0, "n=0");
    ctx.nontrivial_if(bad >= 2 && good >= 1);
    Ok(())
}
fn segtree(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(2) {
        0 => seg::<Words>(src, ctx),
        1 => seg::<SumLen>(src, ctx),
        _ => seg::<Affine>(src, ctx),
    }
}
fn laz<F: GenMap>(src: &mut Src, ctx: &mut Ctx) -> R {
    type S<F> = <<F as MapMonoid>::M as Monoid>::S;
    let hi = *src.pick(&[4usize, 9, 20]);
    let n = src.size(0, hi);
    let mut v: Vec<S<F>> = (0..n).map(|_| F::M::gen(src)).collect();
    ctx.note(|| format!("lazy segment tree of {}: {v:?}", <F::M as Gen>::NAME));
    let mut t: LazySegtree<F> = v.clone().into();
    let (mut bad, mut good) = (0, 0);
    while src.more(12) {
        if src.coin() {
            bad += 1;
            let p = beyond(src, n);
            match src.weighted(&[3, 2, 2, 3, 2, 1, 1, 2]) {
                0 => {
                    let x = F::M::gen(src);
                    refused(ctx, || format!("set({p}, {x:?})"), || t.set(p, x.clone()))?
                }
                1 => refused(ctx, || format!("get({p})"), || t.get(p))?,
                2 => {
                    let f = F::gen_map(src);
                    refused(ctx, || format!("apply({p}, {f:?})"), || t.apply(p, f.clone()))?
                }
                3 => {
                    let (l, r) = bad_range(src, n);
                    let f = F::gen_map(src);
                    refused(ctx, || format!("apply_range({l}, {r}, {f:?})"), || t.apply_range(l, r, f.clone()))?
                }
                4 => {
                    let (l, r) = bad_range(src, n);
                    refused(ctx, || format!("prod({l}, {r})"), || t.prod(l, r))?
                }
                5 => {
                    let l = beyond(src, n + 1);
                    refused(ctx, || format!("max_right({l}, true)"), || t.max_right(l, |_| true))?
                }
                6 => {
                    let r = beyond(src, n + 1);
                    refused(ctx, || format!("min_left({r}, true)"), || t.min_left(r, |_| true))?
                }
                _ => {
                    let (l, rest, id) = (src.upto(n), src.coin(), F::identity_element());
                    if src.coin() {
                        refused(ctx, || format!("max_right({l}, x != identity && {rest})"), || t.max_right(l, |x| x != id && rest))?
                    } else {
                        refused(ctx, || format!("min_left({l}, x != identity && {rest})"), || t.min_left(l, |x| x != id && rest))?
                    }
                }
            }
        } else if n > 0 {
            good += 1;
            let (l, r) = src.sub_range(n);
            let f = F::gen_map(src);
            ctx.note(|| format!("apply_range({l}, {r}, {f:?})"));
            t.apply_range(l, r, f.clone());
            v[l..r].iter_mut().for_each(|x| *x = F::mapping(&f, x));
        }
    }
    ensure_eq!(t.all_prod(), fold::<F::M>(&v), "all_prod() at the end");
    for l in 0..=n {
        ensure_eq!(t.prod(l, n), fold::<F::M>(&v[l..]), "prod({l}, {n}) at the end");
        ensure_eq!(t.max_right(l, |_| true), n, "max_right({l}, true) at the end");
        ensure_eq!(t.min_left(l, |_| true), 0, "min_left({l}, true) at the end");
        if l < n {
            ensure_eq!(t.get(l), v[l], "get({l}) at the end");
        }
    }
    ctx.label(<F::M as Gen>::NAME);
    ctx.label_if(n == 0, "n=0");
    ctx.nontrivial_if(bad >= 2 && good >= 1);
    Ok(())
}
fn lazy(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(2) {
        0 => laz::<LetterMaps>(src, ctx),
        1 => laz::<AffineSum>(src, ctx),
        _ => laz::<Flip>(src, ctx),
    }
}
fn arrays(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 40);
    let v: Vec<i64> = (0..n).map(|_| src.int(-9, 9) as i64).collect();
    ctx.note(|| format!("array {v:?}"));
    ctx.label_if(n == 0, "n=0");
    let t = FenwickTree::from(&v);
    let s = SparseTable::from(&v, 77, |a, b| a.max(b));
    for _ in 0..4 {
        let r = beyond(src, n + 1);
        refused(ctx, || format!("Fenwick pref({r})"), || t.pref(r))?;
        let l = src.upto(n);
        refused(ctx, || format!("Fenwick sum({l}, {r})"), || t.sum(l, r))?;
        let r = src.upto(n);
        let l = r + src.upto(n - r);
        refused(ctx, || format!("sparse-table get({l}, {r})"), || s.get(l, r))?;
        let l = beyond(src, n);
        let r = src.upto(l);
        refused(ctx, || format!("sparse-table get({l}, {r})"), || s.get(l, r))?;
    }
    ctx.nontrivial_if(n > 0);
    Ok(())
}

// ---------------------------------------------------------------- trees and graphs
fn decomposed(src: &mut Src, ctx: &mut Ctx) -> R {
    type F = AffineSum;
    type M = <F as MapMonoid>::M;
    let n = 1 + src.size(0, 15);
    let g = tree(src, ctx, n);
    let root = src.below(n);
    ctx.note(|| format!("tree {g:?}, root {root}"));
    let far = beyond(src, n);
    refused(ctx, || format!("HLD::new with root {far}"), || HLD::<F>::new(&g, far).pos)?;
    let k = if src.coin() { src.upto(n - 1) } else { n + 1 + src.upto(3) };
    let mut v: Vec<_> = (0..n.max(k)).map(|_| M::gen(src)).collect();
    refused(ctx, || format!("with_init_value with {k} values"), || HLD::<F>::with_init_value(&g, root, &v[..k].to_vec()).pos)?;
    refused(ctx, || format!("with_init_value with root {far}"), || HLD::<F>::with_init_value(&g, far, &v[..n].to_vec()).pos)?;
    v.truncate(n);
    let mut h = HLD::<F>::with_init_value(&g, root, &v);
    let t = Rooted::new(&g, root);
    let mut good = 0;
    while src.more(10) {
        let (u, w) = (src.below(n), src.below(n));
        if src.coin() {
            let b = beyond(src, n);
            let (x, y) = if src.coin() { (u, b) } else { (b, w) };
            let f = F::gen_map(src);
            match src.upto(5) {
                0 => refused(ctx, || format!("apply_path({x}, {y}, {f:?})"), || h.apply_path(x, y, f))?,
                1 => refused(ctx, || format!("path_prod({x}, {y})"), || h.path_prod(x, y))?,
                2 => refused(ctx, || format!("apply_subtree({b}, {f:?})"), || h.apply_subtree(b, f))?,
                3 => refused(ctx, || format!("subtree_prod({b})"), || h.subtree_prod(b))?,
                4 => refused(ctx, || format!("get({b})"), || h.get(b))?,
                _ => {
                    let x = M::gen(src);
                    refused(ctx, || format!("set({b}, {x:?})"), || h.set(b, x))?
                }
            }
        } else {
            let f = F::gen_map(src);
            ctx.note(|| format!("apply_path({u}, {w}, {f:?})"));
            h.apply_path(u, w, f);
            t.path(u, w).into_iter().for_each(|x| v[x] = F::mapping(&f, &v[x]));
            good += 1;
        }
    }
    for u in 0..n {
        ensure_eq!(h.get(u), v[u], "get({u}) at the end");
    }
    ensure_eq!(h.subtree_prod(root), v.iter().fold(M::identity(), |a, x| M::binary_operation(&a, x)), "subtree_prod({root}) at the end");
    ctx.nontrivial_if(n >= 2 && good >= 1);
    Ok(())
}
fn graphs(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + src.size(0, 12);
    let b = beyond(src, n);
    match src.upto(4) {
        0 => {
            ctx.label("Dijkstra, components");
            let mut g = vec![vec![]; n];
            while src.more(2 * n) {
                let u = src.below(n);
                g[u].push((src.below(n), src.upto(9)));
            }
            let s = if src.coin() { b } else { n };
            ctx.note(|| format!("graph {g:?}"));
            refused(ctx, || format!("dijkstra from {s}"), || dijkstra(&g, s))?;
            refused(ctx, || "dijkstra from 0 in an empty graph".into(), || dijkstra(&vec![], 0))?;
            // an edge out of the graph, from the source
            let s = src.below(n);
            let mut h = g.clone();
            let at = src.upto(h[s].len());
            h[s].insert(at, (b, src.upto(9)));
            refused(ctx, || format!("dijkstra from {s} with an edge to {b}"), || dijkstra(&h, s))?;
            let h: Vec<Vec<usize>> = h.iter().map(|l| l.iter().map(|x| x.0).collect()).collect();
            refused(ctx, || format!("scc with an edge from {s} to {b}"), || scc(&h))?;
        }
        1 | 2 => {
            ctx.label("maximum flow");
            ctx.note(|| format!("network of {n} vertices"));
            let mut e = vec![];
            let mut d = Dinic::<u32>::new(n);
            for _ in 0..4 {
                let (x, y) = if src.coin() { (src.below(n), b) } else { (b, src.below(n)) };
                refused(ctx, || format!("get_max_flow({x}, {y})"), || d.get_max_flow(x, y))?;
                while src.more(n) {
                    let (u, v, c) = (src.below(n), src.below(n), src.upto(9) as u32);
                    ctx.note(|| format!("add_edge({u}, {v}, {c})"));
                    d.add_edge(u, v, c);
                    e.push((u, v, c));
                }
                let v = src.below(n);
                refused(ctx, || format!("add_edge({b}, {v}, 3)"), || d.add_edge(b, v, 3))?;
            }
            if n >= 2 {
                let (s, t) = (0, n - 1);
                let want = (0u32..1 << n.min(13)).filter(|c| c >> s & 1 == 1 && c >> t & 1 == 0).map(|c| e.iter().filter(|x| c >> x.0 & 1 == 1 && c >> x.1 & 1 == 0).map(|x| x.2).sum::<u32>()).min().unwrap();
                ensure_eq!(d.get_max_flow(s, t), want, "get_max_flow({s}, {t}) after refused calls");
            }
        }
        3 => {
            ctx.label("matching");
            let m = src.size(0, 10);
            ctx.note(|| format!("{n} x {m} vertices"));
            let mut a = AugmentedPath::new(n, m);
            // a matching of known size
            let k = src.upto(n.min(m));
            for i in 0..k {
                a.add_edge(i, i);
                refused(ctx, || format!("add_edge({b}, {i})"), || a.add_edge(b, i))?;
            }
            ensure_eq!(a.solve(), k, "solve() after refused calls");
        }
        _ => {
            ctx.label("lifting");
            let g = tree(src, ctx, n);
            ctx.note(|| format!("tree {g:?}"));
            refused(ctx, || format!("lifting from root {b}"), || BinaryLifting::from(&g, b).dep)?;
            let t = BinaryLifting::from(&g, src.below(n));
            let o = src.below(n);
            for (x, y) in [(b, o), (o, b), (b, b)] {
                refused(ctx, || format!("is_ancestor({x}, {y})"), || t.is_ancestor(x, y))?;
                refused(ctx, || format!("lca({x}, {y})"), || t.lca(x, y))?;
                refused(ctx, || format!("dis({x}, {y})"), || t.dis(x, y))?;
            }
        }
    }
    ctx.nontrivial_if(n >= 2);
    Ok(())
}

// ---------------------------------------------------------------- tables and patterns
macro_rules! primes {
    ($($n:ident $v:expr;)*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq)]
        enum $n {}
        impl Modulus for $n {
            const VALUE: u32 = $v;
            const HINT_VALUE_IS_PRIME: bool = true;
            fn butterfly_cache() -> &'static std::thread::LocalKey<std::cell::RefCell<Option<rust_cp::misc::modint::ButterflyCache<Self>>>> {
                thread_local!(static B: std::cell::RefCell<Option<rust_cp::misc::modint::ButterflyCache<$n>>> = std::default::Default::default());
                &B
            }
        }
    )* };
}
primes! { P5 5; P13 13; P251 251; }
fn table<M: Modulus + PartialEq>(p: usize, src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.upto(p.min(300) - 1);
    ctx.note(|| format!("factorials up to {n} modulo {p}"));
    if p < 300 {
        let m = p + src.upto(2 * p);
        refused(ctx, || format!("factorials up to {m} modulo {p}"), || Factorial::<M>::new(m).choose(m, 0).val())?;
    }
    let f = Factorial::<M>::new(n);
    for _ in 0..4 {
        let a = src.upto(n);
        let k = beyond(src, a + 1);
        refused(ctx, || format!("choose({a}, {k})"), || f.choose(a, k).val())?;
        refused(ctx, || format!("perm({a}, {k})"), || f.perm(a, k).val())?;
        let a = beyond(src, n + 1);
        let k = if src.coin() { src.upto(n) } else { a - src.upto(n) };
        refused(ctx, || format!("choose({a}, {k})"), || f.choose(a, k).val())?;
        refused(ctx, || format!("perm({a}, {k})"), || f.perm(a, k).val())?;
    }
    ensure_eq!(f.choose(n, n).val(), 1, "choose({n}, {n}) at the end");
    ctx.nontrivial_if(true);
    Ok(())
}
fn factorial(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(3) {
        0 => table::<P5>(5, src, ctx),
        1 => table::<P13>(13, src, ctx),
        2 => table::<P251>(251, src, ctx),
        _ => table::<Mod998244353>(998_244_353, src, ctx),
    }
}
fn ac<const OFF: u8, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> R {
    let good = |src: &mut Src| OFF + src.upto(N - 1) as u8;
    let outside = |src: &mut Src| -> u8 {
        let below = OFF as usize;
        let above = 256 - OFF as usize - N;
        let k = src.upto(below + above - 1);
        if k < above { (OFF as usize + N + k) as u8 } else { (below - 1 - (k - above)) as u8 }
    };
    let k = 1 + src.upto(3);
    ctx.note(|| format!("alphabet of {N} from {OFF}, {k} patterns"));
    let mut a = AhoCorasick::<OFF, N>::new(k);
    let mut pats: Vec<Vec<u8>> = vec![];
    for i in 0..k {
        while src.more(1) {
            if src.coin() {
                refused(ctx, || "insert of an empty pattern".into(), || a.insert(b"", i))?;
            } else {
                let mut w: Vec<u8> = (0..src.upto(3)).map(|_| good(src)).collect();
                w.push(outside(src));
                (0..src.upto(1)).for_each(|_| w.push(OFF));
                refused(ctx, || format!("insert({w:?})"), || a.insert(&w, i))?;
            }
        }
        let w: Vec<u8> = (0..1 + src.upto(3)).map(|_| good(src)).collect();
        ctx.note(|| format!("insert({w:?}, {i})"));
        a.insert(&w, i);
        pats.push(w);
    }
    a.build();
    let text: Vec<u8> = (0..src.upto(10)).map(|_| good(src)).collect();
    for _ in 0..2 {
        let mut bad = text.clone();
        let at = src.upto(bad.len());
        bad.insert(at, outside(src));
        refused(ctx, || format!("find in {bad:?}"), || a.find(&bad))?;
        refused(ctx, || format!("find_all in {bad:?}"), || a.find_all(&bad))?;
        refused(ctx, || format!("find_cnt in {bad:?}"), || a.find_cnt(&bad))?;
    }
    let want: Vec<usize> = pats.iter().map(|p| text.windows(p.len()).filter(|w| w == p).count()).collect();
    ensure_eq!(a.find_cnt(&text), want, "find_cnt in {text:?} after refused calls");
    let all: Vec<Vec<usize>> = (0..text.len()).map(|i| (0..k).filter(|&j| text[..=i].ends_with(&pats[j])).collect()).collect();
    let mut got = a.find_all(&text);
    got.iter_mut().for_each(|x| x.sort());
    ensure_eq!(got, all, "find_all in {text:?} after refused calls");
    refused(ctx, || "automaton of an empty pattern".into(), || AhoCorasick::<OFF, N>::from(&[&pats[0], b""]).find(&text))?;
    ctx.nontrivial_if(!text.is_empty());
    Ok(())
}
fn patterns(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(4) {
        0 => ac::<b'a', 26>(src, ctx),
        1 => ac::<b'0', 10>(src, ctx),
        2 => ac::<0, 2>(src, ctx),
        3 => ac::<200, 56>(src, ctx),
        _ => ac::<b'A', 1>(src, ctx),
    }
}

pub fn property() -> Property {
    let f = |name, rule, q: u64, run| Facet::random(name, rule, q, 10 * q, run);
    Property {
        id: "P36",
        facets: vec![
            f("union_find", "histories of joins with out-of-range join, is_same, size and find calls (indices next to n, next to powers of two, modulo 2^8/16/32, huge); everything compared at the end; non-trivial: two refused and two valid calls", 120_000, union_find as RunFn),
            f("segtree", "point writes mixed with out-of-range points, ranges (also reversed), search starts and predicates false on the identity; everything compared at the end; non-trivial: two refused calls and a write", 120_000, segtree),
            f("lazy", "range updates mixed with the same invalid calls and invalid updates", 120_000, lazy),
            f("arrays", "Fenwick prefixes and ranges reaching out, empty and reversed sparse-table ranges; non-trivial: n > 0", 120_000, arrays),
            f("decomposition", "roots and vertices outside the tree, wrong numbers of initial values, mixed with path updates; non-trivial: two vertices and an update", 120_000, decomposed),
            f("graphs", "sources, endpoints, roots and edge ends outside the graph; flows and matchings compared afterwards; non-trivial: two vertices", 120_000, graphs),
            f("factorial", "k above n, n beyond the table, tables reaching the modulus; all non-trivial", 50_000, factorial),
            f("patterns", "empty patterns, letters outside the alphabet in patterns and texts, five alphabets; matches compared afterwards; non-trivial: a text", 80_000, patterns),
        ],
        assumptions: &["the program catches the panic and goes on using the structure"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P37 memory: what a structure holds is bounded by its contents, calls do not make it grow, a
//! call's scratch memory is bounded by its task, and everything is given back.
//!
//! A counting allocator measures every construction, call and drop; the bounds are one and a
//! half to four times what the code needs today.
use engine::*;
use harness::trees::big_tree;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::min_heap::MinHeap;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::data_structure::union_find::UnionFind;
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;
use rust_cp::math::factorial::Factorial;
use rust_cp::math::internal_math::verif_hooks as im;
use rust_cp::math::number_theory::*;
use rust_cp::misc::input::In;
use rust_cp::misc::modint::*;
use rust_cp::misc::recursive_function::*;
use rust_cp::string::aho_corasick::AhoCorasick;
use rust_cp::string::kmp::kmp;
use rust_cp::string::z_algorithm::z_function;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Counting;
static NOW: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn count(d: i64) {
    let now = NOW.load(Relaxed) + d;
    NOW.store(now, Relaxed);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    // in the worst case the old and the new block exist together
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64);
        count(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

struct Used<T> {
    value: T,
    /// Largest amount held at once above that held before.
    peak: i64,
    /// Held afterwards above that held before.
    net: i64,
}
fn measure<T>(f: impl FnOnce() -> T) -> Used<T> {
    let before = NOW.load(Relaxed);
    PEAK.store(before, Relaxed);
    let value = f();
    Used { value, peak: PEAK.load(Relaxed) - before, net: NOW.load(Relaxed) - before }
}
fn lg(n: usize) -> i64 {
    (usize::BITS - n.leading_zeros()) as i64
}
fn ratio(what: &str, used: i64, bound: i64) {
    static SEEN: std::sync::Mutex<Vec<(String, i64)>> = std::sync::Mutex::new(vec![]);
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *ON.get_or_init(|| std::env::var_os("VERIF_CALIBRATE").is_some()) {
        let r = used * 100 / bound;
        let mut s = SEEN.lock().unwrap();
        match s.iter_mut().find(|x| x.0 == what) {
            Some(x) if x.1 >= r => return,
            Some(x) => x.1 = r,
            None => s.push((what.into(), r)),
        }
        eprintln!("ratio {what} {r}");
    }
}
/// Measurements of one structure against their bounds.
struct Meter<'a> {
    ctx: &'a mut Ctx,
    what: &'static str,
    /// What the measured steps have left allocated so far.
    held: i64,
    calls: u64,
}
impl<'a> Meter<'a> {
    fn within(&mut self, part: &str, used: i64, bound: i64) -> R {
        self.ctx.checks += 1;
        if used > 0 {
            ratio(&format!("{} {part}", self.what), used, bound);
        }
        ensure!(used <= bound, "{}, {part}: {used} bytes, more than {bound}", self.what);
        Ok(())
    }
    /// A construction: holds and needs at most `bound`.
    fn build<T>(&mut self, bound: i64, f: impl FnOnce() -> T) -> Result<T, Fail> {
        let u = measure(f);
        self.held += u.net;
        self.within("construction", u.peak, bound)?;
        Ok(u.value)
    }
    /// A call: what it needs besides what it leaves in the structure is at most `scratch` (its
    /// answer included); afterwards, the answer dropped, at most `held` is left in all.
    fn call<T>(&mut self, name: &str, scratch: i64, held: i64, f: impl FnOnce() -> T) -> R {
        let u = measure(|| drop(f()));
        self.calls += 1;
        self.held += u.net;
        self.within(name, u.peak - u.net.max(0), scratch)?;
        if u.net > 0 {
            self.within(&format!("held after {name}"), self.held, held)?;
        }
        Ok(())
    }
    fn finish<T>(&mut self, v: T) -> R {
        let u = measure(|| drop(v));
        self.held += u.net;
        Ok(())
    }
}
type Case = fn(&mut Src, &mut Meter) -> R;
/// Runs the case twice; the second run gives everything back (the first may fill a table that is
/// kept for good).
fn twice(src: &mut Src, ctx: &mut Ctx, what: &'static str, f: Case) -> R {
    ctx.label(what);
    let mut m = Meter { ctx, what, held: 0, calls: 0 };
    f(src, &mut m)?;
    let calls = m.calls;
    let mut m = Meter { ctx, what, held: 0, calls: 0 };
    f(&mut Src::replay(src.rec.clone(), src.thorough), &mut m)?;
    let left = m.held;
    ctx.checks += 1;
    ensure!(left <= 0, "{what}: when the history is repeated, {left} bytes stay allocated after everything is dropped");
    ctx.nontrivial_if(calls >= 5);
    Ok(())
}

fn size(src: &mut Src, lo: usize) -> usize {
    let hi = *src.pick(&[20usize, 20, 300, 3000]);
    src.size(lo, hi)
}
struct Sum;
impl Monoid for Sum {
    type S = (u64, u64);
    fn identity() -> (u64, u64) {
        (0, 0)
    }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) {
        (a.0.wrapping_add(b.0), a.1 + b.1)
    }
}
struct Add;
impl MapMonoid for Add {
    type M = Sum;
    type F = u64;
    fn identity_map() -> u64 {
        0
    }
    fn mapping(f: &u64, x: &(u64, u64)) -> (u64, u64) {
        (x.0.wrapping_add(f.wrapping_mul(x.1)), x.1)
    }
    fn composition(f: &u64, g: &u64) -> u64 {
        f.wrapping_add(*g)
    }
}

fn union_find(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    m.ctx.note(|| format!("{n} elements"));
    let held = 40 * n as i64 + 256;
    let mut u = m.build(held, || UnionFind::new(n))?;
    while src.more(30) {
        let (a, b) = (src.below(n), src.below(n));
        let small = 64 * lg(n) + 256;
        match src.weighted(&[6, 2, 1, 1, 1]) {
            0 => m.call("join", small, held, || u.join(a, b))?,
            1 => m.call("is_same", small, held, || u.is_same(a, b))?,
            2 => m.call("find", small, held, || u.find(a))?,
            3 => m.call("size", small, held, || u.size(a))?,
            _ => m.call("groups", 256 * n as i64 + 1024, held, || u.groups())?,
        }
    }
    m.finish(u)
}
fn heap(src: &mut Src, m: &mut Meter) -> R {
    let cap = if src.coin() { 0 } else { size(src, 0) };
    let mut most = cap;
    let mut h: MinHeap<u64> = m.build(24 * cap as i64 + 256, || if cap == 0 { MinHeap::new() } else { MinHeap::with_capacity(cap) })?;
    m.ctx.note(|| format!("capacity {cap}"));
    while src.more(30) {
        let held = |most: usize| 40 * most as i64 + 256;
        match src.weighted(&[6, 3, 1, 2, 1, 1]) {
            0 => {
                let k = 1 + src.size(0, 60);
                m.ctx.note(|| format!("push {k} items"));
                for i in 0..k {
                    most = most.max(h.len() + 1);
                    m.call("push", held(most), held(most), || h.push(i as u64 * 7919 % 64))?;
                }
            }
            1 => {
                let k = 1 + src.size(0, 60);
                m.ctx.note(|| format!("pop {k} times"));
                for _ in 0..k {
                    m.call("pop", 64 * lg(most) + 256, held(most), || h.pop())?;
                }
            }
            2 => m.call("peek", 256, held(most), || h.peek().copied())?,
            3 => {
                let k = src.size(0, 100);
                m.ctx.note(|| format!("append {k} items"));
                most = most.max(h.len() + k);
                m.call("append", 2 * held(most), held(most), || {
                    let mut o = MinHeap::new();
                    (0..k as u64).for_each(|i| o.push(i));
                    h.append(&mut o);
                })?
            }
            4 => m.call("clear", 256, held(most), || h.clear())?,
            _ => {
                m.ctx.note(|| "into_sorted_vec".into());
                let old = std::mem::replace(&mut h, MinHeap::new());
                m.call("into_sorted_vec", held(most), held(most), || old.into_sorted_vec())?;
                most = 0;
            }
        }
    }
    m.finish(h)
}
fn sparse(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    m.ctx.note(|| format!("{n} elements"));
    let v: Vec<u64> = (0..n as u64).map(|i| i * 7919 % 1009).collect();
    let held = 24 * n as i64 * (lg(n) + 1) + 512;
    let t = m.build(held, || SparseTable::from(&v, 0, |a: u64, b: u64| a.max(b)))?;
    while src.more(20) {
        let l = src.below(n);
        let r = src.range(l + 1, n);
        m.call("get", 64 * lg(n) + 256, held, || t.get(l, r))?;
    }
    m.finish(t)
}
fn fenwick(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    m.ctx.note(|| format!("{n} elements"));
    let v: Vec<i64> = (0..n as i64).map(|i| i * 7919 % 1009).collect();
    let held = 24 * n as i64 + 256;
    let new = src.coin();
    let small = 64 * lg(n) + 256;
    let mut t = m.build(held, || if new { FenwickTree::new(n) } else { FenwickTree::from(&v) })?;
    while src.more(30) {
        let (a, b) = (src.upto(n), src.upto(n));
        match src.upto(4) {
            0 => m.call("add", small, held, || t.add(a.min(n - 1), 3i64))?,
            1 => m.call("pref", small, held, || t.pref(a))?,
            2 => m.call("sum", small, held, || t.sum(a.min(b), a.max(b)))?,
            3 => m.call("search", small, held, || t.search(&(b as i64 * 500)))?,
            _ => m.call("partition_point", small, held, || t.partition_point(|x| *x < b as i64 * 500))?,
        }
    }
    m.finish(t)
}
fn segtree(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    m.ctx.note(|| format!("{n} elements"));
    let held = 240 * n as i64 + 512;
    let new = src.coin();
    let v: Vec<(u64, u64)> = vec![(5, 1); n];
    // the tree may take over the vector it is made from
    let mut t: Segtree<Sum> = m.build(held, || if new { Segtree::new(n) } else { v.clone().into() })?;
    let small = 64 * lg(n) + 512;
    while src.more(30) {
        let (a, b) = (src.upto(n), src.upto(n));
        match src.upto(5) {
            0 => m.call("set", small, held, || t.set(a.min(n - 1), (b as u64, 1)))?,
            1 => m.call("get", small, held, || t.get(a.min(n - 1)))?,
            2 => m.call("prod", small, held, || t.prod(a.min(b), a.max(b)))?,
            3 => m.call("all_prod", small, held, || t.all_prod())?,
            4 => m.call("max_right", small, held, || t.max_right(a, |x| x.0 <= 5 * b as u64))?,
            _ => m.call("min_left", small, held, || t.min_left(a, |x| x.0 <= 5 * b as u64))?,
        }
    }
    m.finish(t)
}
fn lazy(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    m.ctx.note(|| format!("{n} elements"));
    let held = 320 * n as i64 + 512;
    let new = src.coin();
    let v: Vec<(u64, u64)> = vec![(5, 1); n];
    let mut t: LazySegtree<Add> = m.build(held, || if new { LazySegtree::new(n) } else { v.clone().into() })?;
    let small = 64 * lg(n) + 512;
    while src.more(40) {
        let (a, b) = (src.upto(n), src.upto(n));
        match src.weighted(&[1, 1, 2, 1, 1, 1, 1, 5]) {
            0 => m.call("set", small, held, || t.set(a.min(n - 1), (b as u64, 1)))?,
            1 => m.call("get", small, held, || t.get(a.min(n - 1)))?,
            2 => m.call("prod", small, held, || t.prod(a.min(b), a.max(b)))?,
            3 => m.call("all_prod", small, held, || t.all_prod())?,
            4 => m.call("max_right", small, held, || t.max_right(a, |x| x.0 <= 5 * b as u64))?,
            5 => m.call("min_left", small, held, || t.min_left(a, |x| x.0 <= 5 * b as u64))?,
            6 => m.call("apply", small, held, || t.apply(a.min(n - 1), 3))?,
            _ => m.call("apply_range", small, held, || t.apply_range(a.min(b), a.max(b), 3))?,
        }
    }
    m.finish(t)
}
/// A tree from a drawn seed.
fn tree(src: &mut Src, m: &mut Meter, n: usize) -> (Vec<Vec<usize>>, usize) {
    let (fam, seed) = (src.upto(5), src.upto(1 << 20) as u64);
    let root = src.below(n);
    m.ctx.note(|| format!("tree of {n} vertices, family {fam}, seed {seed}, root {root}"));
    (big_tree(&mut Rng::new(&[seed]), n, fam), root)
}
fn lca(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    let (g, root) = tree(src, m, n);
    let held = 32 * n as i64 * (lg(n) + 2) + 512;
    let t = m.build(held, || BinaryLifting::from(&g, root))?;
    while src.more(20) {
        let (a, b) = (src.below(n), src.below(n));
        match src.upto(2) {
            0 => m.call("lca", 64 * lg(n) + 256, held, || t.lca(a, b))?,
            1 => m.call("dis", 64 * lg(n) + 256, held, || t.dis(a, b))?,
            _ => m.call("is_ancestor", 64 * lg(n) + 256, held, || t.is_ancestor(a, b))?,
        }
    }
    m.finish(t)
}
fn decomposition(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    let (g, root) = tree(src, m, n);
    let v: Vec<(u64, u64)> = vec![(5, 1); n];
    let held = 480 * n as i64 + 1024;
    let new = src.coin();
    let mut t: HLD<Add> = m.build(held, || if new { HLD::new(&g, root) } else { HLD::with_init_value(&g, root, &v) })?;
    let small = 128 * lg(n) + 1024;
    while src.more(30) {
        let (a, b) = (src.below(n), src.below(n));
        match src.upto(5) {
            0 => m.call("apply_path", small, held, || t.apply_path(a, b, 3))?,
            1 => m.call("apply_subtree", small, held, || t.apply_subtree(a, 3))?,
            2 => m.call("path_prod", small, held, || t.path_prod(a, b))?,
            3 => m.call("subtree_prod", small, held, || t.subtree_prod(a))?,
            4 => m.call("get", small, held, || t.get(a))?,
            _ => m.call("set", small, held, || t.set(a, (1, 1)))?,
        }
    }
    m.finish(t)
}
fn edges(src: &mut Src, m: &mut Meter, n: usize, k: usize) -> Vec<(usize, usize)> {
    let (fam, seed) = (src.upto(4), src.upto(1 << 20) as u64);
    m.ctx.note(|| format!("{n} vertices, {k} edges, family {fam}, seed {seed}"));
    let mut r = Rng::new(&[seed]);
    let mut at = |n: usize| r.upto(n as u128 - 1) as usize;
    (0..k)
        .map(|i| match fam {
            0 => (at(n), at(n)),
            1 => (i % n, (i + 1) % n),
            2 => (0, at(n)),
            3 => (at(n), at(n.min(3))),
            _ => (at(n.min(8)), at(n.min(8))),
        })
        .collect()
}
fn paths(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    let k = src.size(0, 3 * n);
    let es = edges(src, m, n, k);
    let decreasing = src.coin();
    let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    for (i, &(a, b)) in es.iter().enumerate() {
        g[a].push((b, if decreasing { k - i } else { i * 7919 % 97 }));
    }
    for _ in 0..3 {
        let s = src.below(n);
        m.call("dijkstra", 48 * n as i64 + 100 * k as i64 + 512, 0, || dijkstra(&g, s))?;
    }
    m.calls += 5;
    Ok(())
}
fn components(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 1);
    let k = src.size(0, 3 * n);
    let mut g: Vec<Vec<usize>> = vec![vec![]; n];
    for (a, b) in edges(src, m, n, k) {
        g[a].push(b);
    }
    m.call("scc", 300 * n as i64 + 64 * k as i64 + 1024, 0, || scc(&g))?;
    m.calls += 5;
    Ok(())
}
fn matching(src: &mut Src, m: &mut Meter) -> R {
    let (a, b) = (size(src, 1).min(300), size(src, 1).min(300));
    let base = 160 * (a + b) as i64 + 512;
    let mut t = m.build(base, || AugmentedPath::new(a, b))?;
    let mut k = 0;
    while src.more(5) {
        let add = src.size(0, 2 * (a + b));
        let es = edges(src, m, a.min(b), add);
        for (u, v) in es {
            k += 1;
            let held = base + 64 * k;
            m.call("add_edge", held, held, || t.add_edge(u, v))?;
        }
        for _ in 0..2 {
            m.call("solve", base + 64 * k, base + 64 * k, || t.solve())?;
        }
    }
    m.calls += 5 * (k > 0) as u64;
    m.finish(t)
}
fn flow(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 2).min(500);
    let base = 128 * n as i64 + 512;
    let mut t = m.build(base, || Dinic::<i64>::new(n))?;
    let mut k = 0;
    while src.more(5) {
        let add = src.size(0, 2 * n);
        for (u, v) in edges(src, m, n, add) {
            k += 1;
            let held = base + 256 * k;
            m.call("add_edge", held, held, || t.add_edge(u, v, (u * 31 + v) as i64 % 17))?;
        }
        for _ in 0..2 {
            let s = src.below(n);
            let d = (s + 1 + src.below(n - 1)) % n;
            m.call("get_max_flow", base + 64 * k, base + 256 * k, || t.get_max_flow(s, d))?;
        }
    }
    m.calls += 5 * (k > 0) as u64;
    m.finish(t)
}
fn word(r: &mut Rng, k: usize, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'a' + r.upto(k as u128 - 1) as u8).collect()
}
fn patterns(src: &mut Src, m: &mut Meter) -> R {
    let nested = src.prob(1, 4);
    let most = if nested { *src.pick(&[40usize, 400]) } else { 40 };
    let (k, letters, seed) = (1 + src.size(0, most), 1 + src.upto(3), src.upto(1 << 20) as u64);
    let longest = if nested { k } else { *src.pick(&[1usize, 4, 30, 200]) };
    m.ctx.note(|| format!("{k} patterns of up to {longest} of {letters} letters, nested: {nested}, seed {seed}"));
    let mut r = Rng::new(&[seed]);
    let whole = word(&mut r, if src.coin() { 1 } else { letters }, longest);
    let from_end = src.coin();
    let ps: Vec<Vec<u8>> = (0..k)
        .map(|i| {
            if nested {
                return if from_end { whole[longest - i - 1..].to_vec() } else { whole[..i + 1].to_vec() };
            }
            let n = 1 + r.upto(longest as u128 - 1) as usize;
            word(&mut r, letters, n)
        })
        .collect();
    // states of the automaton: different prefixes
    let mut sorted: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
    sorted.sort();
    let shared = |a: &[u8], b: &[u8]| a.iter().zip(b).take_while(|x| x.0 == x.1).count();
    let states = 1 + sorted[0].len() + sorted.windows(2).map(|w| w[1].len() - shared(w[0], w[1])).sum::<usize>();
    let refs: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
    let held = 1600 * states as i64 + 64 * k as i64 + 4096;
    let t: AhoCorasick = m.build(held, || AhoCorasick::from(&refs))?;
    while src.more(6) {
        let n = size(src, 0);
        let n = if nested { n.min(300) } else { n };
        let text = word(&mut r, if src.coin() { 1 } else { letters }, n);
        // a pattern may be given several times; each of them is an occurrence, one or all of which
        // are reported
        let found: i64 = ps.iter().map(|p| text.windows(p.len()).filter(|w| w == p).count() as i64).sum();
        let bound = 96 * n as i64 + 512;
        m.call("find", 2 * bound + 64 * found, held, || t.find(&text))?;
        m.call("find_all", 3 * bound + 96 * found, held, || t.find_all(&text))?;
        m.call("find_cnt", 3 * bound + 96 * found + 64 * states as i64 + 64 * k as i64, held, || t.find_cnt(&text))?;
    }
    m.finish(t)
}
fn borders(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 0);
    let (letters, seed) = (1 + src.upto(2), src.upto(1 << 20) as u64);
    m.ctx.note(|| format!("{n} of {letters} letters, seed {seed}"));
    let text = word(&mut Rng::new(&[seed]), letters, n);
    m.call("z_function", 32 * n as i64 + 256, 0, || z_function(&text))?;
    m.call("kmp", 32 * n as i64 + 256, 0, || kmp(&text))?;
    m.calls += 3;
    Ok(())
}
fn numbers(src: &mut Src, m: &mut Meter) -> R {
    // (a table kept for good is fine)
    let (small, kept) = (1 << 17, 1 << 17);
    for _ in 0..5 {
        let (a, b) = (src.int(-(1 << 62), 1 << 62) as i64, src.int(-(1 << 62), 1 << 62) as i64);
        m.ctx.note(|| format!("{a} and {b}"));
        let (u, p) = (a.unsigned_abs(), (b.unsigned_abs() >> 32) as i32);
        match src.upto(7) {
            0 => m.call("gcd", small, kept, || gcd(a, b))?,
            1 => m.call("ex_gcd", small, kept, || ex_gcd(a, b))?,
            2 => m.call("pow", small, kept, || ModInt998244353::new(a).pow(u).val())?,
            3 if u % 1_000_000_007 != 0 => m.call("inv", small, kept, || ModInt1000000007::new(u).inv().val())?,
            4 => m.call("is_prime", small, kept, || im::is_prime(p))?,
            5 => m.call("pow_mod", small, kept, || im::pow_mod(a, u as i64, p.max(1)))?,
            6 => m.call("primitive_root", small, kept, || im::primitive_root(if p % 2 == 0 { 998_244_353 } else { 2_147_483_647 }))?,
            _ => m.call("parse", small, kept, || a.to_string().parse::<ModInt998244353>().is_ok())?,
        }
    }
    let n = size(src, 0);
    m.ctx.note(|| format!("{n} congruences"));
    let ms: Vec<i64> = (0..n).map(|i| [6, 4, 9, 1][i % 4]).collect();
    let (ones, rs) = (vec![1; n], vec![7; n]);
    m.call("ex_crt", 64 * n as i64 + small, kept, || ex_crt(&ones, &rs, &ms))
}
fn tables(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 0);
    m.ctx.note(|| format!("factorials up to {n}"));
    let held = 48 * n as i64 + 512;
    let t = m.build(held, || Factorial::<Mod998244353>::new(n))?;
    while src.more(10) {
        let (a, b) = (src.upto(n), src.upto(n));
        m.call("choose", 256, held, || t.choose(a.max(b), a.min(b)).val())?;
        m.call("perm", 256, held, || t.perm(a.max(b), a.min(b)).val())?;
    }
    m.finish(t)
}
fn reader(src: &mut Src, m: &mut Meter) -> R {
    let n = size(src, 0);
    let width = 1 + src.upto(8);
    m.ctx.note(|| format!("{n} tokens {width} wide"));
    let text: String = (0..n).map(|i| format!("{:0width$} {}", i % 10, if i % 5 == 0 { "\n" } else { "" })).collect();
    let mut left = n;
    let mut t = m.build(256, || In::new(&text))?;
    while left > 0 && src.more(20) {
        left -= 1;
        match src.upto(5) {
            0 => m.call("read", 256, 512, || t.read::<i64>())?,
            1 => m.call("checked_read", 256, 512, || t.checked_read::<u8>())?,
            2 => m.call("read string", 256, 512, || t.read::<String>())?,
            3 => m.call("bytes", 256, 512, || t.bytes())?,
            4 => m.call("chars", 512, 512, || t.chars())?,
            _ => {
                let k = src.size(0, left + 1);
                left = (left + 1) - k;
                m.call("vec", 24 * k as i64 + 512, 512, || t.vec::<i64>(k))?
            }
        }
    }
    m.finish(t)
}
fn recursion(src: &mut Src, m: &mut Meter) -> R {
    let depth = size(src, 1);
    m.ctx.note(|| format!("{depth} levels"));
    let mut calls = 0u64;
    let mut f = m.build(256, || {
        RecursiveFunction::new(|f: &mut dyn Callable<usize, u64>, n: usize| -> u64 {
            calls += 1;
            if n == 0 { 1 } else { f.call(n - 1).wrapping_mul(3) }
        })
    })?;
    for _ in 0..5 {
        m.call("call", 64 * depth as i64 + 256, 256, || f.call(depth))?;
    }
    m.finish(f)
}

macro_rules! facet {
    ($($name:ident $text:literal;)*) => { $(
        mod $name {
            use super::*;
            pub fn run(src: &mut Src, ctx: &mut Ctx) -> R {
                twice(src, ctx, $text, super::$name)
            }
        }
    )* };
}
facet! {
    union_find "union-find"; heap "heap"; sparse "sparse table"; fenwick "fenwick tree"; segtree "segment tree"; lazy "lazy segment tree";
    lca "lowest common ancestors"; decomposition "heavy-light decomposition"; paths "shortest paths"; components "strong components";
    matching "matching"; flow "max flow"; patterns "pattern matching"; borders "z and prefix function"; numbers "number theory";
    tables "factorials"; reader "reader"; recursion "recursion";
}

pub fn property() -> Property {
    macro_rules! list {
        ($($name:ident $cases:literal $rule:literal;)*) => {
            vec![$(Facet { shrink_runs: 400, ..Facet::random(stringify!($name), concat!($rule, "; non-trivial: at least five calls"), $cases, 20 * $cases, $name::run) }),*]
        };
    }
    Property {
        id: "P37",
        facets: list! {
            union_find 24_000 "up to 3000 elements: 40n + 256 bytes held, lookups 64 log n + 256, groups 256n + 1024";
            heap 24_000 "pushes, pops, appends, sorting: 40 bytes times the largest length + 256";
            sparse 24_000 "24 n (log n + 1) + 512 bytes held, 64 log n + 256 per call";
            fenwick 24_000 "24n + 256 bytes held, 64 log n + 256 per call";
            segtree 24_000 "240n + 512 bytes held (16-byte elements), 64 log n + 512 per call";
            lazy 24_000 "320n + 512 bytes held (16-byte elements, 8-byte maps), 64 log n + 512 per call";
            lca 12_000 "32 n (log n + 2) + 512 bytes held, 64 log n + 256 per call";
            decomposition 12_000 "480n + 1024 bytes held, 128 log n + 1024 per call";
            paths 12_000 "48n + 100 edges + 512 bytes";
            components 12_000 "300n + 64 edges + 1024 bytes";
            matching 12_000 "160(n + m) + 64 edges + 512 bytes held, 160(n + m) + 64 edges + 512 per solve";
            flow 12_000 "128n + 256 edges + 512 bytes held, 128n + 64 edges + 512 per solve";
            patterns 12_000 "1600 bytes per state + 64 per pattern + 4096 held, 288 per letter of the text + 96 per occurrence + 1536 per search (listing matches)";
            borders 24_000 "32n + 256 bytes";
            numbers 24_000 "128 KiB, 64 more for a congruence";
            tables 12_000 "48n + 512 bytes held, 256 per call";
            reader 24_000 "512 bytes, 24 more for a number of a list";
            recursion 12_000 "64 bytes per level + 256";
        },
        assumptions: &["memory of the heap only, not of the stack", "bounds carry one and a half to four times what the code needs", "tables kept for good are allowed where a repetition of the same calls leaves nothing more"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

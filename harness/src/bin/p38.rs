//! P38 instances are independent and answers repeat: the transcript of an instance (construction
//! and calls, every part of every answer, specified or not) is a function of its own calls only.
//!
//! A case draws a few small programs, each over one instance of a structure or over one function,
//! and compares the transcript each leaves when run first with those it leaves when run again, when
//! interleaved with the others, after calls that were refused, and in threads of their own.
use engine::*;
use harness::monoid::*;
use harness::trees::big_tree;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::min_heap::MinHeap;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::data_structure::union_find::UnionFind;
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;
use rust_cp::math::factorial::Factorial;
use rust_cp::math::internal_math::verif_hooks as im;
use rust_cp::math::number_theory::*;
use rust_cp::misc::input::In;
use rust_cp::misc::modint::*;
use rust_cp::misc::recursive_function::*;
use rust_cp::string::aho_corasick::AhoCorasick;
use rust_cp::string::kmp::kmp;
use rust_cp::string::z_algorithm::z_function;
use rust_cp::traits::monoid::MapMonoid;
use std::cmp::Ordering;
use std::fmt::Debug;

/// Equal keys are told apart by the payload, which the order does not see.
#[derive(Debug, Clone)]
struct Item(u8, u32);
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}

macro_rules! slot_id {
    ($($name:ident)*) => { $(
        #[derive(Copy, Clone, Eq, PartialEq, Debug)]
        enum $name {}
        impl Id for $name {
            fn companion_barrett() -> &'static Barrett {
                static B: Barrett = Barrett::new(998_244_353);
                &B
            }
        }
    )* };
}
slot_id! { Slot0 Slot1 Slot2 Slot3 }

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
enum Mod97 {}
impl Modulus for Mod97 {
    const VALUE: u32 = 97;
    const HINT_VALUE_IS_PRIME: bool = true;
    fn butterfly_cache() -> &'static std::thread::LocalKey<std::cell::RefCell<Option<ButterflyCache<Self>>>> {
        thread_local!(static C: std::cell::RefCell<Option<ButterflyCache<Mod97>>> = std::cell::RefCell::default());
        &C
    }
}
type Machine = Box<dyn FnMut() -> String>;
fn below(r: &mut Rng, n: usize) -> usize {
    if n == 0 { 0 } else { r.upto(n as u128 - 1) as usize }
}
fn word(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = 1 + below(r, 3);
    (0..n).map(|_| b'a' + below(r, k) as u8).collect()
}
fn digraph(r: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let m = below(r, 3 * n + 1);
    let mut g = vec![vec![]; n];
    for _ in 0..m {
        let (a, b) = (below(r, n), below(r, n));
        g[a].push(b);
    }
    g
}
/// Choices that depend on nothing but the seed (those of a random source also depend on the
/// constants seen so far).
fn pure(r: &mut Rng) -> Src {
    Src::replay((0..24).map(|_| r.next() as u128).collect(), false)
}
fn show<T: Debug>(x: T) -> String {
    format!("{x:?}")
}

/// A number; often a small one, which other programs draw as well.
fn val(r: &mut Rng) -> u64 {
    if r.upto(1) == 0 { r.upto(4) as u64 } else { r.next() }
}
fn modular<X: ModIntBase + 'static>(mut r: Rng) -> Machine {
    let mut x = X::new(val(&mut r));
    Box::new(move || {
        let y = X::new(val(&mut r));
        x = match below(&mut r, 6) { 0 => x + y, 1 => x - y, 2 => x * y, 3 => y.pow(val(&mut r)), 4 if y.val() > 0 => y.inv(), _ => x.pow(val(&mut r)) };
        show((x.val(), x))
    })
}
fn dynamic<I: Id>(mut r: Rng, slot: usize) -> Machine {
    let ms = [2u32, 3, 4, 10, 97, 998_244_353, 1_000_000_007, 1 << 31];
    let m = ms[(below(&mut r, ms.len()) + slot) % ms.len()];
    DynamicModInt::<I>::set_modulus(m);
    let mut x = DynamicModInt::<I>::new(val(&mut r));
    Box::new(move || {
        let y = DynamicModInt::<I>::new(val(&mut r));
        match below(&mut r, 7) {
            0 => x += y,
            1 => x -= y,
            2 => x *= y,
            3 => x = x.pow(r.next() >> below(&mut r, 64)),
            4 => x = y.pow(val(&mut r)),
            5 => x = y.inv(),
            _ => x = -x,
        }
        format!("{} mod {}", x.val(), DynamicModInt::<I>::modulus())
    })
}
fn lazy<F: GenMap>(mut r: Rng, n: usize) -> Machine {
    let v: Vec<_> = (0..n).map(|_| <F::M as Gen>::gen(&mut pure(&mut r))).collect();
    let mut t: LazySegtree<F> = v.into();
    Box::new(move || {
        let (a, b) = (below(&mut r, n + 1), below(&mut r, n + 1));
        let (l, h) = (a.min(b), a.max(b));
        match below(&mut r, 6) {
            0 => { t.apply_range(l, h, F::gen_map(&mut pure(&mut r))); String::new() }
            1 if a < n => { t.set(a, <F::M as Gen>::gen(&mut pure(&mut r))); String::new() }
            2 if a < n => show(t.get(a)),
            3 => show(t.all_prod()),
            4 => show((t.max_right(a, |_| true), t.min_left(b, |_| true))),
            _ => show(t.prod(l, h)),
        }
    })
}

const KINDS: [&str; 27] = [
    "union-find", "heap", "sparse table", "fenwick tree", "segment tree", "lazy segment tree", "lazy affine", "dijkstra", "lca",
    "matching", "max flow", "scc", "path sums", "aho-corasick", "z", "kmp", "gcd", "crt", "factorial", "static modint",
    "dynamic modint", "inverse", "reader", "recursion", "primes", "powers", "parse",
];
/// A fresh instance and its calls, all drawn from the seed.
fn make(kind: usize, slot: usize, seed: u64, n: usize) -> Machine {
    let mut r = Rng::new(&[seed, kind as u64]);
    match kind {
        0 => {
            let mut u = UnionFind::new(n + 1);
            Box::new(move || {
                let (a, b) = (below(&mut r, n + 1), below(&mut r, n + 1));
                match below(&mut r, 5) {
                    0 | 1 => show(u.join(a, b)),
                    2 => show((u.find(a), u.size(b))),
                    3 => show(u.is_same(a, b)),
                    _ => show(u.groups()),
                }
            })
        }
        1 => {
            let mut h: MinHeap<Item> = if n % 2 == 0 { MinHeap::new() } else { MinHeap::with_capacity(n) };
            let mut k = 0;
            Box::new(move || match below(&mut r, 12) {
                0..=4 => { k += 1; h.push(Item(below(&mut r, 4) as u8, k)); show(h.len()) }
                5..=7 => show(h.pop()),
                8 => show(h.peek()),
                9 => {
                    let mut o = MinHeap::new();
                    for _ in 0..below(&mut r, n + 1) { k += 1; o.push(Item(below(&mut r, 4) as u8, k)); }
                    h.append(&mut o);
                    show((h.len(), o.len()))
                }
                10 => show(std::mem::replace(&mut h, MinHeap::new()).into_sorted_vec()),
                _ => show(&h),
            })
        }
        2 => {
            let v: Vec<(u8, usize)> = (0..n + 1).map(|i| (below(&mut r, 3) as u8, i)).collect();
            let t = SparseTable::from(&v, (0, 0), |a, b| if b.0 < a.0 { b } else { a });
            Box::new(move || {
                let a = below(&mut r, n + 1);
                show(t.get(a, a + 1 + below(&mut r, n + 1 - a)))
            })
        }
        3 => {
            let v: Vec<i64> = (0..n).map(|_| below(&mut r, 9) as i64).collect();
            let mut t = FenwickTree::from(&v);
            Box::new(move || {
                let (a, b) = (below(&mut r, n + 1), below(&mut r, n + 1));
                match below(&mut r, 4) {
                    0 if n > 0 => { t.add(a.min(n - 1), below(&mut r, 5) as i64); String::new() }
                    1 => show(t.sum(a.min(b), a.max(b))),
                    2 => show(t.search(&(below(&mut r, 40) as i64))),
                    _ => show(t.pref(a)),
                }
            })
        }
        4 => {
            let v: Vec<_> = (0..n).map(|_| Words::gen(&mut pure(&mut r))).collect();
            let mut t: Segtree<Words> = v.into();
            Box::new(move || {
                let (a, b) = (below(&mut r, n + 1), below(&mut r, n + 1));
                match below(&mut r, 4) {
                    0 if a < n => { t.set(a, Words::gen(&mut pure(&mut r))); String::new() }
                    1 if a < n => show(t.get(a)),
                    2 => show((t.all_prod(), t.max_right(a, |_| true), t.min_left(b, |_| true))),
                    _ => show(t.prod(a.min(b), a.max(b))),
                }
            })
        }
        5 => lazy::<Assign>(r, n),
        6 => lazy::<AffineSum>(r, n),
        7 => Box::new(move || {
            let n = n + 1;
            let g: Vec<Vec<(usize, usize)>> = (0..n).map(|_| (0..below(&mut r, 4)).map(|_| (below(&mut r, n), below(&mut r, 9))).collect()).collect();
            show(dijkstra(&g, below(&mut r, n)))
        }),
        8 => {
            let n = n + 1;
            let fam = below(&mut r, 6);
            let g = big_tree(&mut r, n, fam);
            let t = BinaryLifting::from(&g, below(&mut r, n));
            Box::new(move || {
                let (a, b) = (below(&mut r, n), below(&mut r, n));
                show((t.lca(a, b), t.dis(a, b), t.is_ancestor(a, b)))
            })
        }
        9 => {
            let (n, m) = (n + 1, 1 + below(&mut r, n + 1));
            let mut t = AugmentedPath::new(n, m);
            Box::new(move || {
                if below(&mut r, 4) > 0 {
                    t.add_edge(below(&mut r, n), below(&mut r, m));
                    String::new()
                } else {
                    show(t.solve())
                }
            })
        }
        10 => {
            let n = n + 2;
            let mut t = Dinic::<i64>::new(n);
            Box::new(move || {
                if below(&mut r, 4) > 0 {
                    for _ in 0..4 {
                        t.add_edge(below(&mut r, n), below(&mut r, n), below(&mut r, 50) as i64);
                    }
                    String::new()
                } else {
                    let s = below(&mut r, n);
                    show(t.get_max_flow(s, (s + 1 + below(&mut r, n - 1)) % n))
                }
            })
        }
        11 => Box::new(move || show(scc(&digraph(&mut r, n)))),
        12 => {
            let n = n + 1;
            let fam = below(&mut r, 6);
            let g = big_tree(&mut r, n, fam);
            let v: Vec<_> = (0..n).map(|_| <<AddMin as MapMonoid>::M as Gen>::gen(&mut pure(&mut r))).collect();
            let mut t = HLD::<AddMin>::with_init_value(&g, below(&mut r, n), &v);
            let mut first = true;
            Box::new(move || {
                if std::mem::take(&mut first) {
                    return show(&t.pos);
                }
                let (a, b) = (below(&mut r, n), below(&mut r, n));
                match below(&mut r, 5) {
                    0 => { t.apply_path(a, b, AddMin::gen_map(&mut pure(&mut r))); String::new() }
                    1 => { t.apply_subtree(a, AddMin::gen_map(&mut pure(&mut r))); String::new() }
                    2 => show(t.subtree_prod(a)),
                    3 => show(t.get(a)),
                    _ => show(t.path_prod(a, b)),
                }
            })
        }
        13 => {
            let ps: Vec<Vec<u8>> = (0..1 + below(&mut r, 6)).map(|_| { let k = 1 + below(&mut r, 4); word(&mut r, k) }).collect();
            let t = <AhoCorasick>::from(&ps.iter().map(|p| &p[..]).collect::<Vec<_>>());
            Box::new(move || {
                let text = word(&mut r, n);
                show((t.find(&text), t.find_all(&text), t.find_cnt(&text)))
            })
        }
        14 => Box::new(move || show(z_function(&word(&mut r, n)))),
        15 => Box::new(move || show(kmp(&word(&mut r, n)))),
        16 => Box::new(move || {
            let (a, b) = (r.next() as i64 >> below(&mut r, 63) >> 1, r.next() as i64 >> below(&mut r, 63) >> 1);
            let s = 1 << 20;
            show((gcd(a, b), lcm(a % s, b % s), ex_gcd(a, b)))
        }),
        17 => Box::new(move || {
            let k = below(&mut r, 4);
            let m: Vec<i64> = (0..k).map(|_| 1 + below(&mut r, 40) as i64).collect();
            let v = |r: &mut Rng| (0..k).map(|_| below(r, 80) as i64 - 40).collect::<Vec<_>>();
            show(ex_crt(&v(&mut r), &v(&mut r), &m))
        }),
        18 => {
            let n = 3 * n;
            let f = Factorial::<Mod998244353>::new(n);
            Box::new(move || {
                let (a, b) = (below(&mut r, n + 1), below(&mut r, n + 1));
                show((f.choose(a, b).val(), f.perm(a, b).val()))
            })
        }
        19 => match n % 3 {
            0 => modular::<ModInt998244353>(r),
            1 => modular::<ModInt1000000007>(r),
            _ => modular::<rust_cp::misc::modint::StaticModInt<Mod97>>(r),
        },
        20 => match slot {
            0 => dynamic::<Slot0>(r, slot),
            1 => dynamic::<Slot1>(r, slot),
            2 => dynamic::<Slot2>(r, slot),
            _ => dynamic::<Slot3>(r, slot),
        },
        21 => Box::new(move || {
            let x = ModInt1000000007::new(1 + below(&mut r, 1_000_000_006) as u64);
            show((x.inv().val(), (ModInt1000000007::new(5) / x).val()))
        }),
        22 => {
            let text: String = (0..4 * n).map(|_| format!("{}{}", below(&mut r, 1000), [" ", "\n", "  ", "\t\r\n"][below(&mut r, 4)])).collect();
            let text: &'static String = Box::leak(Box::new(text));
            let mut t = In::new(text);
            Box::new(move || match below(&mut r, 4) {
                0 => show(t.checked_read::<i64>()),
                1 => show(t.checked_read::<String>()),
                2 => show(t.checked_read::<u8>()),
                _ => show(t.checked_read::<f64>()),
            })
        }
        23 => Box::new(move || {
            let mut calls = 0;
            let mut f = RecursiveFunction2::new(|f: &mut dyn Callable2<u64, u64, u64>, a: u64, b: u64| {
                calls += 1;
                if a == 0 { b } else if b == 0 { f.call(a - 1, 1) } else { f.call(a - 1, b / 2).wrapping_mul(3).wrapping_add(f.call(a - 1, b - 1)) }
            });
            let x = f.call(below(&mut r, 6) as u64, n as u64);
            show((x, calls))
        }),
        24 => Box::new(move || {
            let x = (r.next() >> 33) as i32;
            show((im::is_prime(x), im::is_prime(x % 1000), im::primitive_root([2, 3, 17, 167_772_161, 998_244_353, 754_974_721][below(&mut r, 6)])))
        }),
        25 => Box::new(move || {
            let m = 1 + (r.next() >> 34) as i64;
            let x = r.next() as i64;
            show((im::pow_mod(x, (r.next() >> 1 >> below(&mut r, 62)) as i64, m as i32), im::inv_gcd(x, m), im::safe_mod(x, m)))
        }),
        _ => Box::new(move || {
            let t = format!("{}{}", ["", "-", "+", "x"][below(&mut r, 4)], r.next() >> 1 >> below(&mut r, 60));
            show((t.parse::<ModInt998244353>().map_err(|_| ()), t.parse::<ModInt1000000007>().map_err(|_| ())))
        }),
    }
}
/// One step; a panic is part of the transcript.
fn step(m: &mut Machine) -> String {
    catch(m).unwrap_or_else(|_| "panicked".into())
}

#[derive(Clone)]
struct Prog {
    kind: usize,
    slot: usize,
    seed: u64,
    n: usize,
    steps: usize,
}
impl Prog {
    fn machine(&self) -> Machine {
        make(self.kind, self.slot, self.seed, self.n)
    }
    fn alone(&self) -> Vec<String> {
        let mut m = self.machine();
        (0..self.steps).map(|_| step(&mut m)).collect()
    }
}
fn programs(src: &mut Src, ctx: &mut Ctx) -> Vec<Prog> {
    let k = 2 + src.weighted(&[3, 2, 1]);
    // often several instances of one kind
    let common = src.below(KINDS.len());
    let same = src.coin();
    let hi = *src.pick(&[6usize, 24, 24, 150]);
    // programs of one seed draw alike as long as their sizes let them
    let twin = src.u128(u64::MAX as u128) as u64;
    let v: Vec<Prog> = (0..k)
        .map(|slot| {
            let kind = if same && src.prob(3, 4) { common } else { src.below(KINDS.len()) };
            Prog { kind, slot, seed: if src.prob(1, 3) { twin } else { src.u128(u64::MAX as u128) as u64 }, n: src.size(0, hi), steps: 1 + src.size(0, 14) }
        })
        .collect();
    for (i, p) in v.iter().enumerate() {
        ctx.note(|| format!("program {i}: {} of size {}, {} calls from seed {}: {:?}", KINDS[p.kind], p.n, p.steps, p.seed, p.alone()));
        ctx.label(KINDS[p.kind]);
    }
    v
}
fn same(ctx: &mut Ctx, got: &[String], want: &[String], p: &Prog, i: usize, how: &str) -> R {
    ctx.checks += want.len() as u64;
    for (j, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "call {j} of program {i} ({}): {how} it answers {g}, at first it answered {w}", KINDS[p.kind]);
    }
    Ok(())
}
fn interleaved(src: &mut Src, ctx: &mut Ctx) -> R {
    let ps = programs(src, ctx);
    let first: Vec<Vec<String>> = ps.iter().map(|p| p.alone()).collect();
    // dynamic modular integers of one slot share their modulus: programs have slots of their own
    let mut ms: Vec<Option<Machine>> = ps.iter().map(|_| None).collect();
    let mut got: Vec<Vec<String>> = ps.iter().map(|_| vec![]).collect();
    let mut alternations = 0;
    let mut last = usize::MAX;
    while got.iter().zip(&ps).any(|(g, p)| g.len() < p.steps) {
        let mut i = src.below(ps.len());
        while got[i].len() == ps[i].steps {
            i = (i + 1) % ps.len();
        }
        let m = ms[i].get_or_insert_with(|| ps[i].machine());
        got[i].push(step(m));
        alternations += (i != last) as u32;
        last = i;
        if got[i].len() == ps[i].steps && src.coin() {
            ms[i] = None;
        }
    }
    for (i, p) in ps.iter().enumerate() {
        same(ctx, &got[i], &first[i], p, i, "interleaved with the others")?;
        same(ctx, &p.alone(), &first[i], p, i, "run again")?;
    }
    ctx.nontrivial_if(alternations >= 4);
    Ok(())
}
fn threads(src: &mut Src, ctx: &mut Ctx) -> R {
    let ps = programs(src, ctx);
    let first: Vec<Vec<String>> = ps.iter().map(|p| p.alone()).collect();
    let gate = std::sync::Barrier::new(ps.len());
    const ROUNDS: usize = 4;
    let got: Vec<Vec<Vec<String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = ps
            .iter()
            .map(|p| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    (0..ROUNDS).map(|_| p.alone()).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (i, p) in ps.iter().enumerate() {
        ensure!(got[i].len() == ROUNDS, "program {i} ({}) ended its thread", KINDS[p.kind]);
        for g in &got[i] {
            same(ctx, g, &first[i], p, i, "in a thread of its own beside the others")?;
        }
    }
    ctx.nontrivial_if(ps.iter().all(|p| p.steps >= 4));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P38",
        facets: vec![
            Facet::random("interleaved", "2..4 programs of up to 15 calls, each over an instance of its own (half of the time mostly of one kind): transcripts when interleaved at random and when run again, against those of the first run; non-trivial: at least 4 changes between programs", 640_000, 8_000_000, interleaved),
            Facet::random("threads", "the same with every program four times in a thread of its own, started together; non-trivial: every program has at least 4 calls", 96_000, 1_000_000, threads),
        ],
        assumptions: &["dynamic modular integers of one Id share their modulus by design: every program has an Id of its own"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P39 no undefined behaviour: the histories of the other checks, where only undefined behaviour
//! counts. Natively under AddressSanitizer with the unsafe preconditions of the standard library
//! checked; and under the Miri interpreter (slower, smaller inputs; sees all other kinds too).
#![allow(dead_code)]
use engine::*;
#[path = "p01.rs"]
mod p01;
#[path = "p02.rs"]
mod p02;
#[path = "p03.rs"]
mod p03;
#[path = "p04.rs"]
mod p04;
#[path = "p05.rs"]
mod p05;
#[path = "p06.rs"]
mod p06;
#[path = "p07.rs"]
mod p07;
#[path = "p08.rs"]
mod p08;
#[path = "p09.rs"]
mod p09;
#[path = "p10.rs"]
mod p10;
#[path = "p11.rs"]
mod p11;
#[path = "p12.rs"]
mod p12;
#[path = "p13.rs"]
mod p13;
#[path = "p14.rs"]
mod p14;
#[path = "p15.rs"]
mod p15;
#[path = "p16.rs"]
mod p16;
#[path = "p17.rs"]
mod p17;
#[path = "p18.rs"]
mod p18;
#[path = "p19.rs"]
mod p19;
#[path = "p20.rs"]
mod p20;
#[path = "p21.rs"]
mod p21;
#[path = "p22.rs"]
mod p22;
#[path = "p23.rs"]
mod p23;
#[path = "p24.rs"]
mod p24;
#[path = "p25.rs"]
mod p25;
#[path = "p26.rs"]
mod p26;
#[path = "p28.rs"]
mod p28;
#[path = "p29.rs"]
mod p29;
#[path = "p30.rs"]
mod p30;
#[path = "p31.rs"]
mod p31;
#[path = "p32.rs"]
mod p32;
#[path = "p33.rs"]
mod p33;
#[path = "p36.rs"]
mod p36;
#[path = "p38.rs"]
mod p38;

/// Under the interpreter a case of these takes a second or more.
const SLOW: [&str; 18] = [
    "P01 history", "P08 history", "P11 small", "P15 history", "P16 history", "P17 small", "P23 history", "P24 one", "P24 families",
    "P31 mixed", "P36 union_find", "P36 segtree", "P36 lazy", "P36 arrays", "P36 decomposition", "P36 graphs", "P36 factorial", "P36 patterns",
];

/// State moved into a recursive closure as it is.
fn owned(i: u64, ctx: &mut Ctx) -> R {
    ctx.note(|| format!("a `move` closure that {} before and after its nested call", ["increments a counter it owns", "pushes to a list it owns"][i as usize]));
    let got = if i == 0 { highopt::rec::owned_counter(2) } else { highopt::rec::owned_list(2) };
    ensure!(got > 0, "called");
    Ok(())
}

/// Recursion whose body panics at some depth, the panic caught outside; used again and dropped.
fn panicking(src: &mut Src, ctx: &mut Ctx) -> R {
    use rust_cp::misc::recursive_function::*;
    use std::{cell::RefCell, rc::Rc};
    let (kind, at, rounds) = (src.upto(3), src.upto(5), 1 + src.upto(2));
    let depths: Vec<usize> = (0..rounds).map(|_| src.upto(6)).collect();
    ctx.note(|| format!("recursion of depths {depths:?} over {} that panics at level {at}", ["an owned list on the heap", "a shared cell", "a borrowed list", "owned text it only reads"][kind]));
    let mut text = String::from("a text");
    let mut list = vec![Box::new(1usize)];
    macro_rules! run {
        ($f:ident, $n:ident, $do:expr) => {{
            let mut w = RecursiveFunction::new(|$f: &mut dyn Callable<usize, usize>, $n: usize| -> usize { $do });
            run!(w)
        }};
        ($w:ident) => {{
            for &d in &depths {
                let _ = catch(|| $w.call(d));
            }
            drop($w);
        }};
    }
    match kind {
        0 => {
            let mut own = Box::new(vec![Box::new(1usize)]);
            let mut w = RecursiveFunction::new(move |f: &mut dyn Callable<usize, usize>, n: usize| -> usize {
                own.push(Box::new(n));
                assert!(n != at, "level");
                let r = if n == 0 { 0 } else { f.call(n - 1) };
                r + *own.pop().unwrap()
            });
            run!(w)
        }
        1 => {
            let cell = Rc::new(RefCell::new(vec![1usize]));
            let mine = cell.clone();
            let mut w = RecursiveFunction::new(move |f: &mut dyn Callable<usize, usize>, n: usize| -> usize {
                mine.borrow_mut().push(n);
                assert!(n != at, "level");
                let r = if n == 0 { 0 } else { f.call(n - 1) };
                r + mine.borrow().len()
            });
            run!(w);
            drop(cell);
        }
        2 => run!(f, n, {
            list.push(Box::new(n));
            assert!(n != at, "level");
            if n == 0 { list.len() } else { f.call(n - 1) }
        }),
        _ => {
            text.push('!');
            let mut w = RecursiveFunction::new(move |f: &mut dyn Callable<usize, usize>, n: usize| -> usize {
                assert!(n != at, "level");
                text.len() + if n == 0 { 0 } else { f.call(n - 1) }
            });
            run!(w)
        }
    }
    ctx.checks += rounds as u64;
    ctx.nontrivial_if(depths.iter().any(|&d| d >= at));
    Ok(())
}

/// What the callbacks of `panicking callbacks` do: panic when the fuse runs out, now and then lie.
mod wild {
    use rust_cp::traits::monoid::{MapMonoid, Monoid};
    use std::cell::Cell;
    use std::cmp::Ordering;
    thread_local! {
        static FUSE: Cell<usize> = const { Cell::new(usize::MAX) };
        static LIES: Cell<u64> = const { Cell::new(0) };
    }
    /// Panic at the callback after `n` more; lie when `lies` is not 0 (its bits say when).
    pub fn arm(n: usize, lies: u64) {
        FUSE.set(n);
        LIES.set(lies);
    }
    pub fn spent() -> bool {
        FUSE.get() == usize::MAX - 1
    }
    pub fn tick() -> bool {
        match FUSE.get() {
            0 => {
                FUSE.set(usize::MAX - 1);
                panic!("callback")
            }
            n if n < usize::MAX - 1 => FUSE.set(n - 1),
            _ => {}
        }
        let l = LIES.get();
        LIES.set(l.rotate_left(1));
        l & 1 == 1
    }
    #[derive(Debug)]
    pub struct Piece(pub Box<i64>, pub String);
    impl Piece {
        pub fn new(x: i64) -> Self {
            Piece(Box::new(x), x.to_string())
        }
        fn touch(&self) -> usize {
            // reads all of the memory it owns
            self.1.bytes().map(usize::from).sum::<usize>() + *self.0 as usize % 7
        }
    }
    impl Clone for Piece {
        fn clone(&self) -> Self {
            tick();
            Piece(self.0.clone(), self.1.clone())
        }
    }
    impl Drop for Piece {
        fn drop(&mut self) {
            std::hint::black_box(self.touch());
        }
    }
    impl PartialEq for Piece {
        fn eq(&self, o: &Self) -> bool {
            tick() ^ (self.0 == o.0 && self.1 == o.1)
        }
    }
    impl Eq for Piece {}
    impl Ord for Piece {
        fn cmp(&self, o: &Self) -> Ordering {
            let c = self.0.cmp(&o.0);
            if tick() { c.reverse() } else { c }
        }
    }
    impl PartialOrd for Piece {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    #[derive(Debug)]
    pub struct Sum;
    impl Monoid for Sum {
        type S = Piece;
        fn identity() -> Piece {
            tick();
            Piece::new(0)
        }
        fn binary_operation(a: &Piece, b: &Piece) -> Piece {
            Piece::new(a.0.wrapping_add(*b.0) + tick() as i64)
        }
    }
    pub struct Add;
    impl MapMonoid for Add {
        type M = Sum;
        type F = Piece;
        fn identity_map() -> Piece {
            tick();
            Piece::new(0)
        }
        fn mapping(f: &Piece, x: &Piece) -> Piece {
            Piece::new(f.0.wrapping_add(*x.0) + tick() as i64)
        }
        fn composition(f: &Piece, g: &Piece) -> Piece {
            Piece::new(f.0.wrapping_add(*g.0) + tick() as i64)
        }
    }
    /// A copyable number for the structures that want one.
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Num(pub i64);
    impl std::ops::Add for Num {
        type Output = Num;
        fn add(self, o: Num) -> Num {
            Num(self.0.wrapping_add(o.0) - 2 * tick() as i64)
        }
    }
    impl std::ops::Sub for Num {
        type Output = Num;
        fn sub(self, o: Num) -> Num {
            Num(self.0.wrapping_sub(o.0) + tick() as i64)
        }
    }
    impl std::ops::AddAssign for Num {
        fn add_assign(&mut self, o: Num) {
            self.0 = self.0.wrapping_add(o.0) - 2 * tick() as i64;
        }
    }
    impl PartialEq for Num {
        fn eq(&self, o: &Num) -> bool {
            tick() ^ (self.0 == o.0)
        }
    }
    impl PartialOrd for Num {
        fn partial_cmp(&self, o: &Num) -> Option<Ordering> {
            if tick() { None } else { self.0.partial_cmp(&o.0) }
        }
    }
}

const ON: [&str; 7] = ["heaps", "segment tree", "lazy segment tree", "decomposition", "sparse table", "Fenwick tree", "strings"];
/// Structures over elements that own memory, whose comparisons, operations, predicates and clones
/// panic at some call or break their laws; the panics caught, the structures used again and dropped.
fn callbacks(src: &mut Src, ctx: &mut Ctx) -> R {
    use wild::*;
    let what = src.upto(6);
    let lying = src.prob(1, 3);
    let most = if cfg!(miri) { 6 } else { 20 };
    let n = src.size(0, most);
    let items: Vec<i64> = (0..n).map(|_| src.int(-9, 9) as i64).collect();
    let steps = 1 + src.size(1, most);
    let mut panics = 0u64;
    ctx.note(|| format!("{} over {items:?}{}:", ON[what], if lying { ", callbacks that also break their laws" } else { "" }));
    macro_rules! step {
        ($name:expr, $do:expr) => {{
            let fuse = if src.coin() { src.upto(most) } else { usize::MAX };
            let lies = if lying { (src.upto(255) as u64) << 3 } else { 0 };
            ctx.note(|| format!(" {}{}", $name, if fuse == usize::MAX { String::new() } else { format!(" (panics after {fuse} callbacks)") }));
            arm(fuse, lies);
            let r = catch(|| $do);
            panics += spent() as u64;
            arm(usize::MAX, 0);
            r.ok()
        }};
    }
    let pieces = |v: &[i64]| v.iter().map(|&x| Piece::new(x)).collect::<Vec<_>>();
    match what {
        0 => {
            use rust_cp::data_structure::min_heap::MinHeap;
            let mut hs = [MinHeap::new(), MinHeap::with_capacity(n)];
            for (i, x) in items.iter().enumerate() {
                hs[i % 2].push(Piece::new(*x));
            }
            for _ in 0..steps {
                let (i, x) = (src.upto(1), src.int(-9, 9) as i64);
                let (a, b) = hs.split_at_mut(1);
                let (h, o) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                match src.upto(7) {
                    0 | 1 => drop(step!("push", h.push(Piece::new(x)))),
                    2 | 3 => drop(step!("pop", h.pop())),
                    4 | 5 => drop(step!("append", h.append(o))),
                    6 => drop(step!("peek", h.peek().map(|p| p.1.len()))),
                    _ => {
                        let taken = std::mem::replace(h, MinHeap::new());
                        if src.prob(1, 3) {
                            drop(step!("clear", { let mut t = taken; t.clear(); t }));
                        } else {
                            drop(step!("into_sorted_vec", taken.into_sorted_vec()));
                        }
                    }
                }
            }
            drop(hs);
        }
        1 => {
            use rust_cp::data_structure::segtree::Segtree;
            let made = if src.coin() { step!("from", Segtree::<Sum>::from(pieces(&items))) } else { step!("new", Segtree::<Sum>::new(n)) };
            if let Some(mut t) = made {
                for _ in 0..steps {
                    let (l, r, x) = (src.upto(n + 1), src.upto(n + 1), src.int(-9, 9) as i64);
                    match src.upto(5) {
                        0 => drop(step!("set", t.set(l, Piece::new(x)))),
                        1 => drop(step!("get", t.get(l))),
                        2 => drop(step!("prod", t.prod(l, r))),
                        3 => drop(step!("max_right", t.max_right(l, |p| tick() ^ (*p.0 <= x)))),
                        4 => drop(step!("min_left", t.min_left(l, |p| tick() ^ (*p.0 <= x)))),
                        _ => drop(step!("all_prod", t.all_prod())),
                    }
                }
            }
        }
        2 => {
            use rust_cp::data_structure::lazy_segtree::LazySegtree;
            let made = if src.coin() { step!("from", LazySegtree::<Add>::from(pieces(&items))) } else { step!("new", LazySegtree::<Add>::new(n)) };
            if let Some(mut t) = made {
                for _ in 0..steps {
                    let (l, r, x) = (src.upto(n + 1), src.upto(n + 1), src.int(-9, 9) as i64);
                    match src.upto(7) {
                        0 => drop(step!("set", t.set(l, Piece::new(x)))),
                        1 => drop(step!("get", t.get(l))),
                        2 => drop(step!("prod", t.prod(l, r))),
                        3 => drop(step!("max_right", t.max_right(l, |p| tick() ^ (*p.0 <= x)))),
                        4 => drop(step!("min_left", t.min_left(l, |p| tick() ^ (*p.0 <= x)))),
                        5 => drop(step!("apply", t.apply(l, Piece::new(x)))),
                        6 => drop(step!("apply_range", t.apply_range(l, r, Piece::new(x)))),
                        _ => drop(step!("all_prod", t.all_prod())),
                    }
                }
            }
        }
        3 => {
            use rust_cp::graph::heavy_light_decomp::HLD;
            let n = n.max(1);
            let mut g = vec![vec![]; n];
            for v in 1..n {
                let p = src.upto(v - 1);
                g[p].push(v);
                g[v].push(p);
            }
            let mut vals = items.clone();
            vals.resize(n, 1);
            let root = src.upto(n);
            let made = if src.coin() { step!("with_init_value", HLD::<Add>::with_init_value(&g, root, &pieces(&vals))) } else { step!("new", HLD::<Add>::new(&g, root)) };
            if let Some(mut t) = made {
                for _ in 0..steps {
                    let (u, v, x) = (src.upto(n), src.upto(n), src.int(-9, 9) as i64);
                    match src.upto(5) {
                        0 => drop(step!("set", t.set(u, Piece::new(x)))),
                        1 => drop(step!("get", t.get(u))),
                        2 => drop(step!("path_prod", t.path_prod(u, v))),
                        3 => drop(step!("apply_path", t.apply_path(u, v, Piece::new(x)))),
                        4 => drop(step!("subtree_prod", t.subtree_prod(u))),
                        _ => drop(step!("apply_subtree", t.apply_subtree(u, Piece::new(x)))),
                    }
                }
            }
        }
        4 => {
            use rust_cp::data_structure::sparse_table::SparseTable;
            let v: Vec<Num> = items.iter().map(|&x| Num(x)).collect();
            if let Some(t) = step!("from", SparseTable::from(&v, Num(0), |a: Num, b: Num| if tick() { b } else if a.0 < b.0 { a } else { b })) {
                for _ in 0..steps {
                    let (l, r) = (src.upto(n + 1), src.upto(n + 1));
                    drop(step!("get", t.get(l, r)));
                }
            }
        }
        5 => {
            use rust_cp::data_structure::fenwick_tree::FenwickTree;
            let v: Vec<Num> = items.iter().map(|&x| Num(x)).collect();
            if let Some(mut t) = step!("from", FenwickTree::from(&v)) {
                for _ in 0..steps {
                    let (l, r, x) = (src.upto(n + 1), src.upto(n + 1), src.int(-9, 9) as i64);
                    match src.upto(4) {
                        0 => drop(step!("add", t.add(l, Num(x)))),
                        1 => drop(step!("pref", t.pref(l))),
                        2 => drop(step!("sum", t.sum(l, r))),
                        3 => drop(step!("partition_point", t.partition_point(|s| tick() ^ (s.0 < x)))),
                        _ => drop(step!("search", t.search(&Num(x)))),
                    }
                }
            }
        }
        _ => {
            let v = pieces(&items.iter().map(|x| x & 1).collect::<Vec<_>>());
            drop(step!("kmp", rust_cp::string::kmp::kmp(&v)));
            drop(step!("z_function", rust_cp::string::z_algorithm::z_function(&v)));
        }
    }
    ctx.label(ON[what]);
    ctx.checks += steps as u64;
    ctx.nontrivial_if(panics > 0 || lying);
    Ok(())
}

fn main() {
    count_crashes_only();
    let all = vec![p01::property(), p02::property(), p03::property(), p04::property(), p05::property(), p06::property(), p07::property(), p08::property(), p09::property(), p10::property(), p11::property(), p12::property(), p13::property(), p14::property(), p15::property(), p16::property(), p17::property(), p18::property(), p19::property(), p20::property(), p21::property(), p22::property(), p23::property(), p24::property(), p25::property(), p26::property(), p28::property(), p29::property(), p30::property(), p31::property(), p32::property(), p33::property(), p36::property(), p38::property()];
    // (the parent of the interpreted workers is not interpreted itself)
    let miri = std::env::var("VERIF_BUILD").is_ok_and(|b| b == "miri");
    let mut facets = vec![];
    for p in all {
        for f in p.facets {
            let Kind::Random { quick, run, .. } = f.kind else { continue };
            // millions of elements; cost bounds; the known finding
            if f.name == "huge" || f.name == "planted" || p.id == "P33" || (p.id == "P31" && f.name == "unoptimised") {
                continue;
            }
            if miri && ["large", "long", "heavy"].contains(&f.name) {
                continue;
            }
            let name = format!("{} {}", p.id, f.name);
            let n = if !miri {
                (quick / 25).clamp(64, 20_000)
            } else if SLOW.contains(&name.as_str()) {
                8
            } else {
                32
            };
            facets.push(Facet { fuel: f.fuel, ..Facet::random(Box::leak(name.into_boxed_str()), f.rule, n, if miri { 10 } else { 25 } * n, run) });
        }
    }
    let n = if miri { 64 } else { 20_000 };
    facets.push(Facet::random("panicking recursion", "recursion that panics at some level, caught, used again and dropped; non-trivial: a panic", n, 10 * n, panicking));
    let n = if miri { 192 } else { 40_000 };
    facets.push(Facet::random("panicking callbacks", "structures whose comparisons, operations, predicates or clones panic or break their laws; non-trivial: a panic, or laws broken", n, 10 * n, callbacks));
    if miri {
        let lone = Some(("owned-state", "recursive_function.rs"));
        facets.push(Facet { lone, ..Facet::exhaustive("owned state", "a counter and a list owned by a recursive closure", |_| 2, owned) });
    }
    engine::main(Property {
        id: "P39",
        facets,
        assumptions: &[
            "undefined behaviour in the sense of the checks built into AddressSanitizer, the standard library's preconditions and Miri with Tree Borrows",
            "a closure that changes state it owns by move under a nested call is only run by the facet 'owned state' (known finding)",
        ],
    })
}

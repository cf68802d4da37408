//! P01 disjoint sets against a naive label-array partition.
use engine::*;
use rust_cp::data_structure::union_find::UnionFind;

/// Naive model: label[i] identifies the set of i.
struct Model {
    label: Vec<usize>,
}
impl Model {
    fn join(&mut self, x: usize, y: usize) -> bool {
        let (a, b) = (self.label[x], self.label[y]);
        if a == b {
            return false;
        }
        for l in self.label.iter_mut() {
            if *l == a {
                *l = b
            }
        }
        true
    }
    fn same(&self, x: usize, y: usize) -> bool {
        self.label[x] == self.label[y]
    }
    fn size(&self, x: usize) -> usize {
        self.label.iter().filter(|&&l| l == self.label[x]).count()
    }
}

fn check_all(uf: &mut UnionFind, m: &Model, ctx: &mut Ctx) -> R {
    let n = m.label.len();
    let mut rep: Vec<Option<usize>> = vec![None; n];
    for i in 0..n {
        let f = uf.find(i);
        ensure!(f < n, "representative of {i} is {f}, not an element");
        ensure!(m.same(i, f), "representative {f} of {i} is not in its set");
        match rep[m.label[i]] {
            None => rep[m.label[i]] = Some(f),
            Some(g) => ensure_eq!(f, g, "representative of {i}, another member of its set has {g};"),
        }
        ensure_eq!(uf.size(i), m.size(i), "size({i})");
        ctx.checks += 3;
    }
    check_groups(uf, m, ctx)
}
fn check_groups(uf: &mut UnionFind, m: &Model, ctx: &mut Ctx) -> R {
    let n = m.label.len();
    let mut g = uf.groups();
    for s in g.iter_mut() {
        ensure!(!s.is_empty(), "groups() lists an empty group");
        s.sort();
    }
    g.sort();
    let mut by: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        by[m.label[i]].push(i);
    }
    let mut want: Vec<Vec<usize>> = by.into_iter().filter(|v| !v.is_empty()).collect();
    want.sort();
    ensure_eq!(g, want, "groups()");
    ctx.checks += 1;
    Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 40);
    ctx.note(|| format!("UnionFind::new({n})"));
    let mut uf = UnionFind::new(n);
    let mut m = Model { label: (0..n).collect() };
    let mean = *src.pick(&[4usize, 12, 40, 120]);
    // element choice: sometimes concentrated on few elements, so that joins repeat
    let conc = src.weighted(&[3, 1]);
    let (mut merges, mut nonroot, mut repeat) = (0, 0, 0);
    if n > 0 {
        while src.more(mean) {
            let el = |s: &mut Src| if conc == 1 { s.below(n.min(5)) } else { s.below(n) };
            match src.weighted(&[6, 2, 2, 1, 1]) {
                0 => {
                    let (x, y) = (el(src), el(src));
                    ctx.note(|| format!("join({x}, {y})"));
                    let (sx, sy) = (m.size(x), m.size(y));
                    let want = m.join(x, y);
                    let got = uf.join(x, y);
                    ensure_eq!(got, want, "join({x}, {y})");
                    if want {
                        merges += 1;
                        if sx > 1 || sy > 1 {
                            nonroot += 1;
                        }
                    } else {
                        repeat += 1;
                    }
                }
                1 => {
                    let (x, y) = (el(src), el(src));
                    ctx.note(|| format!("is_same({x}, {y})"));
                    ensure_eq!(uf.is_same(x, y), m.same(x, y), "is_same({x}, {y})");
                }
                2 => {
                    let x = el(src);
                    ctx.note(|| format!("size({x})"));
                    ensure_eq!(uf.size(x), m.size(x), "size({x})");
                }
                3 => {
                    let x = el(src);
                    ctx.note(|| format!("find({x})"));
                    let f = uf.find(x);
                    ensure!(f < n && m.same(x, f), "find({x}) = {f} is not a member of its set");
                    ensure_eq!(uf.find(f), f, "find of the representative {f} of {x}");
                }
                _ => {
                    ctx.note(|| "groups()".into());
                    check_groups(&mut uf, &m, ctx)?;
                }
            }
            ctx.checks += 1;
        }
    }
    ctx.note(|| "final full comparison".into());
    check_all(&mut uf, &m, ctx)?;
    ctx.label_if(n == 0, "n=0");
    ctx.label_if(nonroot >= 2, "two merges of sets already merged");
    ctx.label_if(repeat > 0, "join inside one set");
    ctx.label_if(merges + 1 == n && n > 1, "all connected");
    ctx.nontrivial_if(nonroot >= 2);
    Ok(())
}

/// Sets of thousands of elements in adversarial join orders; sizes and connectivity against a
/// label array relabelled smaller-side-first, on a thread with Rust's default 2 MiB stack.
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + src.size(1000, if src.thorough { 1_000_000 } else { 300_000 });
    let shape = src.weighted(&[1, 1, 1, 1, 1, 1]);
    let seed = src.upto(usize::MAX >> 1) as u64;
    let swap = src.coin();
    ctx.note(|| format!("n={n} shape={shape} swap={swap} seed={seed}"));
    ctx.label(["chain", "reverse chain", "star", "binary merges", "random", "chain of tails"][shape]);
    ctx.nontrivial_if(true);
    let mut rng = Rng::new(&[seed]);
    let mut joins: Vec<(usize, usize)> = Vec::with_capacity(n);
    match shape {
        0 => (0..n - 1).for_each(|i| joins.push((i, i + 1))),
        1 => (0..n - 1).rev().for_each(|i| joins.push((i, i + 1))),
        2 => (1..n).for_each(|i| joins.push((0, i))),
        3 => {
            let mut w = 1;
            while w < n {
                let mut i = 0;
                while i + w < n {
                    joins.push((i + rng.upto(w as u128 - 1) as usize, i + w));
                    i += 2 * w;
                }
                w *= 2;
            }
        }
        4 => (0..n).for_each(|_| joins.push((rng.upto(n as u128 - 1) as usize, rng.upto(n as u128 - 1) as usize))),
        _ => (1..n).for_each(|i| joins.push((i, rng.upto(i as u128 - 1) as usize))),
    }
    if swap {
        joins.iter_mut().for_each(|e| *e = (e.1, e.0));
    }
    let res = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || -> R {
            let mut uf = UnionFind::new(n);
            let mut label: Vec<usize> = (0..n).collect();
            let mut members: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
            for (k, &(x, y)) in joins.iter().enumerate() {
                let (a, b) = (label[x], label[y]);
                ensure_eq!(uf.join(x, y), a != b, "join({x}, {y}), join number {k}");
                if a != b {
                    let (a, b) = if members[a].len() > members[b].len() { (b, a) } else { (a, b) };
                    let mv = std::mem::take(&mut members[a]);
                    for &i in &mv {
                        label[i] = b;
                    }
                    members[b].extend(mv);
                }
                if k % 1024 == 0 {
                    ensure_eq!(uf.size(x), members[label[x]].len(), "size({x}) after join number {k}");
                }
            }
            let mut rep = vec![usize::MAX; n];
            for i in 0..n {
                let f = uf.find(i);
                ensure!(f < n && label[f] == label[i], "find({i}) = {f} is not in its set");
                if rep[label[i]] == usize::MAX {
                    rep[label[i]] = f;
                }
                ensure_eq!(f, rep[label[i]], "representative of {i}");
                ensure_eq!(uf.size(i), members[label[i]].len(), "size({i})");
            }
            let g = uf.groups();
            ensure_eq!(g.iter().map(|v| v.len()).sum::<usize>(), n, "elements listed by groups()");
            ensure_eq!(g.len(), members.iter().filter(|v| !v.is_empty()).count(), "number of groups");
            for s in &g {
                ensure!(!s.is_empty() && s.iter().all(|&i| label[i] == label[s[0]]), "groups() mixes sets");
            }
            Ok(())
        })
        .unwrap()
        .join();
    ctx.checks += n as u64 * 2;
    match res {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic()).into()),
    }
}

/// One small instance asked and joined tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut uf, m, _) = long(
        src,
        ctx,
        160_000,
        |src, ctx| {
            let n = 1 + src.size(0, 30);
            // joins between random elements come this rarely
            let rare = *src.pick(&[3u32, 100, 5000]);
            ctx.note(|| format!("UnionFind::new({n}), one step in {rare} a join"));
            (UnionFind::new(n), Model { label: (0..n).collect() }, rare)
        },
        |(uf, m, rare), src, ctx| {
            let n = m.label.len();
            let (x, y) = (src.below(n), src.below(n));
            if src.prob(1, *rare) {
                ensure_eq!(uf.join(x, y), m.join(x, y), "join({x}, {y})");
            } else {
                match src.upto(4) {
                    0 => ensure_eq!(uf.size(x), m.size(x), "size({x})"),
                    1 if m.same(x, y) => ensure_eq!(uf.join(x, y), false, "join({x}, {y})"),
                    2 => {
                        let f = uf.find(x);
                        ensure!(f < n && m.same(x, f), "find({x}) = {f} is not a member of its set");
                    }
                    _ => ensure_eq!(uf.is_same(x, y), m.same(x, y), "is_same({x}, {y})"),
                }
            }
            ctx.checks += 1;
            Ok(())
        },
    )?;
    check_all(&mut uf, &m, ctx)
}

pub fn property() -> Property {
    Property {
        id: "P01",
        facets: vec![
            Facet::random("history", "join/same/size/find/groups histories over n<=40 elements, compared at every step and completely at the end with a label-array partition; non-trivial: at least two merges where a set already had several members", 800_000, 8_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..300000 elements joined in chain, star, tree, random orders on a 2 MiB stack, compared with relabelling; all non-trivial", 64, 600, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one structure of 1..31 elements asked and joined up to 160000 times; non-trivial: more than 65536 steps", 64, 640, many) },
        ],
        assumptions: &["indices are below n"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

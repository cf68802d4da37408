//! P12 bipartite matching size against exhaustive search and Koenig covers.
use engine::*;
use rust_cp::graph::bipartite_matching::AugmentedPath;

/// Maximum matching by dynamic programming over subsets of the right side (m <= 20).
fn brute(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    let mut adj = vec![0u32; n];
    for &(u, v) in e {
        adj[u] |= 1 << v;
    }
    let mut dp = vec![false; 1 << m];
    dp[0] = true;
    for a in adj {
        // u stays free or takes one free right vertex
        for s in (0..1usize << m).rev() {
            if dp[s] {
                let mut f = a & !(s as u32);
                while f != 0 {
                    dp[s | (f & f.wrapping_neg()) as usize] = true;
                    f &= f - 1;
                }
            }
        }
    }
    (0..1usize << m).filter(|&s| dp[s]).map(|s| s.count_ones() as usize).max().unwrap()
}
/// Hopcroft-Karp, and a vertex cover of the size of its matching as certificate.
fn certified(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    let mut g = vec![vec![]; n];
    for &(u, v) in e {
        g[u].push(v);
    }
    let mut ml = vec![usize::MAX; n];
    let mut mr = vec![usize::MAX; m];
    let mut size = 0;
    loop {
        let mut level = vec![usize::MAX; n];
        let mut q: Vec<usize> = (0..n).filter(|&u| ml[u] == usize::MAX).collect();
        q.iter().for_each(|&u| level[u] = 0);
        let mut i = 0;
        while i < q.len() {
            let u = q[i];
            i += 1;
            for &v in &g[u] {
                let w = mr[v];
                if w != usize::MAX && level[w] == usize::MAX {
                    level[w] = level[u] + 1;
                    q.push(w);
                }
            }
        }
        let mut it = vec![0usize; n];
        let before = size;
        for root in 0..n {
            if ml[root] != usize::MAX {
                continue;
            }
            // iterative depth-first search along levels
            let mut st = vec![root];
            while let Some(&u) = st.last() {
                if it[u] == g[u].len() {
                    st.pop();
                    if let Some(&p) = st.last() {
                        it[p] += 1;
                    }
                    continue;
                }
                let v = g[u][it[u]];
                let w = mr[v];
                if w == usize::MAX {
                    for &x in st.iter().rev() {
                        let y = g[x][it[x]];
                        mr[y] = x;
                        ml[x] = y;
                    }
                    st.iter().for_each(|&x| it[x] = g[x].len());
                    size += 1;
                    break;
                } else if level[w] == level[u] + 1 {
                    st.push(w);
                } else {
                    it[u] += 1;
                }
            }
        }
        if size == before {
            break;
        }
    }
    // Koenig: Z = vertices reachable from free left vertices along alternating paths
    let mut zl = vec![false; n];
    let mut zr = vec![false; m];
    let mut st: Vec<usize> = (0..n).filter(|&u| ml[u] == usize::MAX).collect();
    st.iter().for_each(|&u| zl[u] = true);
    while let Some(u) = st.pop() {
        for &v in &g[u] {
            if !zr[v] {
                zr[v] = true;
                let w = mr[v];
                assert!(w != usize::MAX, "oracle: augmenting path left");
                if !zl[w] {
                    zl[w] = true;
                    st.push(w);
                }
            }
        }
    }
    let cover = (0..n).filter(|&u| !zl[u]).count() + (0..m).filter(|&v| zr[v]).count();
    assert!(e.iter().all(|&(u, v)| !zl[u] || zr[v]), "oracle: not a cover");
    assert_eq!(cover, size, "oracle: cover larger than the matching");
    let edges: std::collections::BTreeSet<_> = e.iter().copied().collect();
    let pairs: Vec<_> = (0..n).filter(|&u| ml[u] != usize::MAX).collect();
    assert!(pairs.len() == size && pairs.iter().all(|&u| mr[ml[u]] == u && edges.contains(&(u, ml[u]))), "oracle: not a matching");
    size
}

fn oracle(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    if m <= 7 { brute(n, m, e) } else { certified(n, m, e) }
}

fn edges(src: &mut Src, ctx: &mut Ctx, n: usize, m: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    let fam = src.weighted(&[4, 2, 2, 2]);
    ctx.label(["sparse random", "dense random", "near diagonal", "few hubs"][fam]);
    let mean = if fam == 1 { n * m / 2 } else { n + m / 2 };
    while src.more(mean.max(1)) && e.len() < 400 {
        let u = src.below(n);
        let v = match fam {
            2 => {
                let c = u * m / n;
                (c + src.upto(1)).min(m - 1)
            }
            3 => if src.coin() { src.upto(2.min(m - 1)) } else { src.below(m) },
            _ => src.below(m),
        };
        e.push((u, v));
    }
    e
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = *src.pick(&[4usize, 7, 10, 14]);
    let n = src.size(0, hi);
    let m = src.size(0, hi);
    ctx.note(|| format!("new({n}, {m})"));
    let mut a = AugmentedPath::new(n, m);
    let mut e: Vec<(usize, usize)> = vec![];
    let e_all = if n > 0 && m > 0 { edges(src, ctx, n, m) } else { vec![] };
    let mut solves = 0;
    let mut grew = 0;
    let mut last = 0;
    let mut aug = false;
    for (i, &(u, v)) in e_all.iter().enumerate() {
        ctx.note(|| format!("add_edge({u}, {v})"));
        a.add_edge(u, v);
        e.push((u, v));
        if src.prob(1, 8) {
            let want = oracle(n, m, &e);
            ctx.note(|| format!("solve() -> {want}"));
            ensure_eq!(a.solve(), want, "solve() after {} edges", i + 1);
            solves += 1;
            grew += (solves > 1 && want > last) as usize;
            last = want;
            ctx.checks += 1;
        }
    }
    let want = oracle(n, m, &e);
    ctx.note(|| format!("solve() -> {want}, twice"));
    ensure_eq!(a.solve(), want, "solve()");
    ensure_eq!(a.solve(), want, "solve() again");
    ctx.checks += 2;
    // greedy in order of insertion falls short: augmenting paths are needed
    let (mut ul, mut ur) = (vec![false; n], vec![false; m]);
    let mut greedy = 0;
    for u in 0..n {
        for &(_, v) in e.iter().filter(|x| x.0 == u) {
            if !ul[u] && !ur[v] {
                ul[u] = true;
                ur[v] = true;
                greedy += 1;
            }
        }
    }
    aug |= greedy < want;
    ctx.label_if(n == 0 || m == 0, "an empty side");
    ctx.label_if(grew > 0, "matching grows between calls");
    ctx.label_if(aug, "greedy is not maximum");
    ctx.nontrivial_if(want >= 2 && (aug || grew > 0));
    Ok(())
}

/// Every bipartite graph with sides of 1..=4 and 1..=4 (5 in thorough) vertices, in two edge orders.
const SIDES: [(usize, usize); 17] = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (4, 5)];
fn total(th: bool) -> u64 {
    SIDES.iter().take(if th { 17 } else { 16 }).map(|&(n, m)| 2u64 << (n * m)).sum()
}
fn exhaustive(mut i: u64, ctx: &mut Ctx) -> R {
    let (n, m) = *SIDES
        .iter()
        .find(|&&(n, m)| {
            let c = 2u64 << (n * m);
            if i < c {
                true
            } else {
                i -= c;
                false
            }
        })
        .unwrap();
    let (rev, set) = (i & 1 == 1, i >> 1);
    let mut e: Vec<(usize, usize)> = (0..n * m).filter(|b| set >> b & 1 == 1).map(|b| (b / m, b % m)).collect();
    if rev {
        e.reverse();
    }
    ctx.note(|| format!("new({n}, {m}), edges {e:?}, solve() half way and at the end"));
    let mut a = AugmentedPath::new(n, m);
    let h = e.len() / 2;
    e[..h].iter().for_each(|x| a.add_edge(x.0, x.1));
    ensure_eq!(a.solve(), brute(n, m, &e[..h]), "solve() after {h} edges");
    e[h..].iter().for_each(|x| a.add_edge(x.0, x.1));
    let want = brute(n, m, &e);
    ensure_eq!(a.solve(), want, "solve()");
    ctx.checks += 2;
    ctx.nontrivial_if(want >= 2);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(20, if src.thorough { 2000 } else { 600 });
    let m = src.size(20, if src.thorough { 2000 } else { 600 });
    let fam = src.upto(3);
    let deg = 1 + src.upto(4);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} m={m} family {fam} degree {deg} seed={seed}"));
    ctx.label(["random", "near diagonal", "long augmenting paths", "random with repeated solves"][fam]);
    let mut r = Rng::new(&[seed]);
    let mut e = vec![];
    match fam {
        1 => for u in 0..n {
            for _ in 0..deg {
                e.push((u, ((u * m / n) + r.upto(2) as usize).min(m - 1)));
            }
        },
        2 => {
            // u_i - v_i and u_i - v_{i+1}, the first vertex only v_0, in an order that invites wrong greedy choices
            let k = n.min(m);
            for i in (1..k).rev() {
                e.push((i, i - 1));
                e.push((i, i));
            }
            e.push((0, 0));
        }
        _ => for _ in 0..n * deg {
            e.push((r.upto(n as u128 - 1) as usize, r.upto(m as u128 - 1) as usize));
        },
    }
    let mut a = AugmentedPath::new(n, m);
    let cut = if fam == 3 { e.len() / 2 } else { 0 };
    e[..cut].iter().for_each(|x| a.add_edge(x.0, x.1));
    if cut > 0 {
        ensure_eq!(a.solve(), certified(n, m, &e[..cut]), "solve() half way");
    }
    e[cut..].iter().for_each(|x| a.add_edge(x.0, x.1));
    let want = certified(n, m, &e);
    ensure_eq!(a.solve(), want, "solve()");
    ensure_eq!(a.solve(), want, "solve() again");
    ctx.checks += 2;
    ctx.nontrivial_if(want >= 10);
    Ok(())
}

/// Tens of thousands of vertices on either side; one of the families needs an augmenting path
/// through all of them.
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 250_000 } else { 100_000 };
    let n = src.size(66_000, hi);
    let m = if src.coin() { n } else { src.size(66_000, hi) };
    let fam = src.upto(3);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} m={m} family {fam} seed={seed}"));
    ctx.label(["random", "near diagonal", "one long augmenting path", "random with repeated solves"][fam]);
    let mut r = Rng::new(&[seed]);
    let mut e = vec![];
    match fam {
        1 => for u in 0..n {
            for _ in 0..2 {
                e.push((u, ((u as u128 * m as u128 / n as u128) as usize + r.upto(2) as usize).min(m - 1)));
            }
        },
        2 => {
            let k = n.min(m);
            for i in 1..k {
                e.push((k - 1 - i, i - 1));
                e.push((k - 1 - i, i));
            }
            e.push((k - 1, 0));
        }
        _ => for _ in 0..n * 2 {
            e.push((r.upto(n as u128 - 1) as usize, r.upto(m as u128 - 1) as usize));
        },
    }
    let mut a = AugmentedPath::new(n, m);
    let cut = if fam == 3 { e.len() / 2 } else if fam == 2 { e.len() - 1 } else { 0 };
    e[..cut].iter().for_each(|x| a.add_edge(x.0, x.1));
    if cut > 0 {
        ensure_eq!(a.solve(), certified(n, m, &e[..cut]), "solve() after {cut} edges");
    }
    e[cut..].iter().for_each(|x| a.add_edge(x.0, x.1));
    let want = certified(n, m, &e);
    ensure_eq!(a.solve(), want, "solve()");
    ensure_eq!(a.solve(), want, "solve() again");
    ctx.checks += 3;
    ctx.nontrivial_if(want >= 10);
    Ok(())
}

/// One instance solved tens of thousands of times. Either edges come rarely and anywhere, or the
/// instance rests (solved again and again) and then grows by one new left vertex a step, each
/// needing vertices that no earlier call has looked at.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    struct T {
        n: usize,
        rest: Option<usize>,
        k: usize,
        chain: bool,
        a: AugmentedPath,
        e: Vec<(usize, usize)>,
        want: usize,
    }
    let t = long(
        src,
        ctx,
        120_000,
        |src, ctx| {
            let grows = src.coin();
            let n = if grows { 40 } else { src.size(1, 9) };
            // so many vertices (with edges that do not suffice, or without) stay unmatched
            let free = if grows { *src.pick(&[40usize, 3, 1, 2]) } else { n };
            let around = *src.pick(&[65_536usize, 256, 32_768, 128]);
            let rest = (around / src.range(1, 2) / if src.coin() { free } else { 1 }).saturating_sub(src.upto(30));
            let chain = src.coin();
            let mut a = AugmentedPath::new(n + 2 * 40, n + 2 * 40);
            let mut e = vec![];
            if grows {
                for i in free..n + 80 {
                    if i < n || free < 40 {
                        a.add_edge(i, i);
                        e.push((i, i));
                    }
                }
            }
            ctx.note(|| format!("new({0}, {0}); {1}, edges {e:?}", n + 80, if grows { format!("rests for {rest} steps, then grows") } else { "random edges".into() }));
            let want = e.len();
            T { n, rest: grows.then_some(rest), k: 0, chain, a, e, want }
        },
        |t, src, ctx| {
            t.k += 1;
            let before = t.e.len();
            match t.rest {
                None => if src.prob(1, 1500) && t.e.len() < 100 {
                    t.e.push((src.below(t.n), src.below(t.n)));
                },
                Some(r) => if t.k > r && t.k <= r + 40 {
                    let i = t.k - r - 1;
                    // a free vertex, or (if it is taken) one whose partner has to move on
                    t.e.push((i, i));
                    if t.chain {
                        t.e.push((i, i + 1));
                    }
                },
            }
            if t.e.len() > before {
                t.e[before..].iter().for_each(|x| t.a.add_edge(x.0, x.1));
                t.want = certified(t.n + 80, t.n + 80, &t.e);
            }
            let want = t.want;
            ensure_eq!(t.a.solve(), want, "solve() with {} edges", t.e.len());
            ctx.checks += 1;
            Ok(())
        },
    )?;
    ctx.label_if(t.rest.is_some_and(|r| t.k > r), "grows after a rest");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P12",
        facets: vec![
            Facet::random("small", "graphs with sides of 0..14 vertices from four families with parallel edges, solved between insertions and twice at the end; against a subset dynamic program (right side up to 7) or Hopcroft-Karp with a vertex cover as certificate; non-trivial: matching of two or more that greedy misses or that grew between calls", 300_000, 5_000_000, small),
            Facet::exhaustive("all small graphs", "every bipartite graph with sides up to 4 and 4 (thorough: 4 and 5), edges in two orders, solved half way and at the end; non-trivial: matching of two or more", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "sides of 20..600 vertices, against Hopcroft-Karp with a vertex cover as certificate; non-trivial: matching of ten or more", 1200, 20_000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "sides of 66000..100000 (thorough: 250000) vertices, one family with an augmenting path through all of them; against Hopcroft-Karp with a vertex cover as certificate; non-trivial: matching of ten or more", 24, 150, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one instance solved up to 120000 times, with edges that come rarely or after a long rest; non-trivial: more than 65536 steps", 160, 1600, many) },
        ],
        assumptions: &["edges name existing vertices"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

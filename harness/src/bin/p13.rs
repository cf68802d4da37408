//! P13 maximum flow value against minimum cuts.
use engine::*;
use harness::graphs::big_edges;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::traits::integral::Integral;
use std::fmt::Debug;

type E = (usize, usize, u128);

/// Minimum over all cuts (n <= 10).
fn min_cut(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    let mut best = u128::MAX;
    for set in 0..1u32 << n {
        if set >> s & 1 == 1 && set >> t & 1 == 0 {
            let c = e.iter().filter(|x| set >> x.0 & 1 == 1 && set >> x.1 & 1 == 0).fold(0u128, |a, x| a.saturating_add(x.2));
            best = best.min(c);
        }
    }
    best
}
/// Shortest augmenting paths in u128, with the residual cut as certificate. None when the sums
/// could leave u128.
fn augment(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    let mut cap: Vec<u128> = vec![];
    let mut to = vec![];
    let mut g = vec![vec![]; n];
    for &(u, v, c) in e {
        g[u].push(cap.len());
        cap.push(c);
        to.push(v);
        g[v].push(cap.len());
        cap.push(0);
        to.push(u);
    }
    let mut flow = 0u128;
    loop {
        let mut from = vec![usize::MAX; n];
        let mut q = vec![s];
        let mut seen = vec![false; n];
        seen[s] = true;
        let mut i = 0;
        while i < q.len() && !seen[t] {
            let u = q[i];
            i += 1;
            for &j in &g[u] {
                if cap[j] > 0 && !seen[to[j]] {
                    seen[to[j]] = true;
                    from[to[j]] = j;
                    q.push(to[j]);
                }
            }
        }
        if !seen[t] {
            let cut = e.iter().filter(|x| seen[x.0] && !seen[x.1]).fold(0u128, |a, x| a.saturating_add(x.2));
            assert_eq!(cut, flow, "oracle: cut differs from flow");
            return flow;
        }
        let mut b = u128::MAX;
        let mut v = t;
        while v != s {
            b = b.min(cap[from[v]]);
            v = to[from[v] ^ 1];
        }
        v = t;
        while v != s {
            cap[from[v]] -= b;
            cap[from[v] ^ 1] += b;
            v = to[from[v] ^ 1];
        }
        match flow.checked_add(b) {
            Some(f) => flow = f,
            None => return u128::MAX,
        }
    }
}
fn oracle(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    if n <= 7 { min_cut(n, e, s, t) } else { augment(n, e, s, t) }
}

fn shape(src: &mut Src, ctx: &mut Ctx, n: usize) -> Vec<(usize, usize)> {
    let fam = src.weighted(&[4, 3, 2, 2]);
    ctx.label(["random", "layered", "unit-like ladder", "two-sided"][fam]);
    let mut e = vec![];
    let mean = 2 * n + 2;
    while src.more(mean) && e.len() < 120 {
        let u = src.below(n);
        let v = match fam {
            1 => (u + 1 + src.upto(2)).min(n - 1),
            2 => {
                let d = 1 + src.upto(2);
                if src.prob(1, 5) { u.saturating_sub(d) } else { (u + d).min(n - 1) }
            }
            3 => if u < n / 2 { n / 2 + src.upto(n - 1 - n / 2) } else { src.below(n) },
            _ => src.below(n),
        };
        e.push((u, v));
    }
    e
}

fn run<C: Integral + Debug>(src: &mut Src, ctx: &mut Ctx, name: &'static str, max: u128, conv: fn(u128) -> C, back: fn(C) -> u128) -> R {
    ctx.label(name);
    let hi = *src.pick(&[4usize, 6, 8, 7, 14]);
    let n = 2 + src.size(0, hi - 2);
    let es = shape(src, ctx, n);
    // source and sink: first and last for the forward shapes, else any
    let (s, t) = if src.coin() {
        (0, n - 1)
    } else {
        let s = src.below(n);
        let t = (s + 1 + src.upto(n - 2)) % n;
        (s, t)
    };
    let capk = src.weighted(&[4, 2, 2, 2]);
    ctx.label(["capacities 0..6", "0 and 1", "up to the type's maximum", "mixed small and maximum"][capk]);
    // keep the total within the type: bound what leaves s, or what enters t
    let bound = if capk >= 2 { src.weighted(&[3, 3, 1]) } else { 0 };
    let mut budget = max;
    let mut d: Dinic<C> = Dinic::new(n);
    ctx.note(|| format!("Dinic::<{name}>::new({n}), s = {s}, t = {t}"));
    let mut e: Vec<E> = vec![];
    let (mut solves, mut grew, mut before) = (0, 0, 0u128);
    let m = es.len();
    for (i, (u, v)) in es.into_iter().enumerate() {
        let mut c = match capk {
            0 => src.upto(6) as u128,
            1 => src.upto(1) as u128,
            2 => src.u128(max),
            _ => if src.coin() { src.upto(6) as u128 } else { max - src.upto(2) as u128 },
        };
        if bound == 0 && u == s && v != s || bound == 1 && v == t && u != t {
            // sometimes use the budget up completely
            c = c.min(if src.prob(1, 4) { budget } else { budget / 2 });
            budget -= c;
        }
        ctx.note(|| format!("add_edge({u}, {v}, {c})"));
        d.add_edge(u, v, conv(c));
        e.push((u, v, c));
        if i + 1 == m || src.prob(1, 12) {
            let want = oracle(n, &e, s, t);
            if want > max || want == u128::MAX {
                ctx.label("total beyond the type (not asked)");
                return Ok(());
            }
            ctx.note(|| format!("get_max_flow({s}, {t}) -> {}", want - before));
            ensure_eq!(back(d.get_max_flow(s, t)), want - before, "get_max_flow({s}, {t}) after {} edges ({before} reported before)", i + 1);
            solves += 1;
            grew += (solves > 1 && want > before && before > 0) as usize;
            before = want;
            ctx.checks += 1;
        }
    }
    ctx.note(|| format!("get_max_flow({s}, {t}) -> 0"));
    ensure_eq!(back(d.get_max_flow(s, t)), 0, "get_max_flow({s}, {t}) again");
    ctx.checks += 1;
    ctx.label_if(grew > 0, "flow grows between calls");
    ctx.label_if(before == max, "total equal to the type's maximum");
    let out: u128 = e.iter().filter(|x| x.0 == s && x.1 != s).fold(0, |a, x| a.saturating_add(x.2));
    let inn: u128 = e.iter().filter(|x| x.1 == t && x.0 != t).fold(0, |a, x| a.saturating_add(x.2));
    ctx.label_if(before > 0 && before < out.min(inn), "cut strictly inside");
    ctx.nontrivial_if(before > 0 && before < out.min(inn));
    Ok(())
}
fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    macro_rules! go {
        ($t:ty) => {
            run::<$t>(src, ctx, stringify!($t), <$t>::MAX as u128, |x| x as $t, |x| if x < 0 as $t { u128::MAX } else { x as u128 })
        };
    }
    #[allow(unused_comparisons)]
    match src.weighted(&[4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => go!(i64),
        1 => go!(usize),
        2 => go!(i32),
        3 => go!(u8),
        4 => go!(i8),
        5 => go!(i16),
        6 => go!(u16),
        7 => go!(u32),
        8 => go!(u64),
        9 => go!(isize),
        10 => go!(i128),
        _ => go!(u128),
    }
}

/// Networks on 4 vertices with capacities 0, 1, 2 on the ten arcs other than into s and out of t
/// (of those 7 vary quickly and 3 in thorough only are drawn from 0 and 2).
fn total(th: bool) -> u64 {
    3u64.pow(if th { 9 } else { 8 }) * 3
}
fn exhaustive(mut i: u64, ctx: &mut Ctx) -> R {
    let arcs = [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (0, 3), (1, 0), (3, 2)];
    let order = i % 3;
    i /= 3;
    let mut e: Vec<E> = vec![];
    for (u, v) in arcs {
        let c = i % 3;
        i /= 3;
        if c > 0 {
            e.push((u, v, c as u128));
        }
    }
    match order {
        1 => e.reverse(),
        2 => {
            let h = e.len() / 2;
            e.rotate_left(h)
        }
        _ => {}
    }
    ctx.note(|| format!("4 vertices, s = 0, t = 3, edges {e:?}, asked half way and at the end"));
    let mut d: Dinic<u8> = Dinic::new(4);
    let h = e.len() / 2;
    e[..h].iter().for_each(|x| d.add_edge(x.0, x.1, x.2 as u8));
    let a = min_cut(4, &e[..h], 0, 3);
    ensure_eq!(d.get_max_flow(0, 3) as u128, a, "get_max_flow(0, 3) after {h} edges");
    e[h..].iter().for_each(|x| d.add_edge(x.0, x.1, x.2 as u8));
    let b = min_cut(4, &e, 0, 3);
    ensure_eq!(d.get_max_flow(0, 3) as u128, b - a, "get_max_flow(0, 3)");
    ctx.checks += 2;
    ctx.nontrivial_if(a > 0 && b > a);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3 + src.size(20, if src.thorough { 400 } else { 120 });
    let fam = src.upto(3);
    let m = n * (1 + src.upto(4));
    let seed = src.upto(usize::MAX >> 1) as u64;
    let cmax = *src.pick(&[1u128, 10, 1_000_000_000, (i64::MAX / 3000) as u128]);
    ctx.note(|| format!("n={n} m={m} family {fam} seed={seed} capacities 0..={cmax}"));
    let mut r = Rng::new(&[seed]);
    let mut e: Vec<E> = big_edges(&mut r, n, m, fam).into_iter().map(|(u, v)| (u, v, 0)).collect();
    e.iter_mut().for_each(|x| x.2 = r.upto(cmax));
    let s = r.upto(n as u128 - 1) as usize;
    let t = (s + 1 + r.upto(n as u128 - 2) as usize) % n;
    // strengthen both ends so that the cut lies inside
    for _ in 0..6 {
        e.push((s, r.upto(n as u128 - 1) as usize, cmax));
        e.push((r.upto(n as u128 - 1) as usize, t, cmax));
    }
    let half = e.len() / 2 * src.upto(1);
    let mut d: Dinic<i64> = Dinic::new(n);
    e[..half].iter().for_each(|x| d.add_edge(x.0, x.1, x.2 as i64));
    let a = augment(n, &e[..half], s, t);
    if half > 0 {
        ensure_eq!(d.get_max_flow(s, t) as u128, a, "get_max_flow({s}, {t}) half way");
    }
    e[half..].iter().for_each(|x| d.add_edge(x.0, x.1, x.2 as i64));
    let b = augment(n, &e, s, t);
    ensure_eq!(d.get_max_flow(s, t) as u128, b - a, "get_max_flow({s}, {t})");
    ensure_eq!(d.get_max_flow(s, t), 0, "get_max_flow({s}, {t}) again");
    ctx.checks += 3;
    let out: u128 = e.iter().filter(|x| x.0 == s && x.1 != s).map(|x| x.2).sum();
    let inn: u128 = e.iter().filter(|x| x.1 == t && x.0 != t).map(|x| x.2).sum();
    ctx.label_if(b > 0 && b < out.min(inn), "cut strictly inside");
    ctx.nontrivial_if(b > 0);
    Ok(())
}

/// Networks whose flow is known by construction: paths from s to t that cross a fixed cut once, on
/// which the crossing edges are exactly used up, so that flow and cut have the same value.
fn planted(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let fam = src.upto(3);
    let seed = src.upto(usize::MAX >> 1) as u64;
    let cmax = *src.pick(&[1u128, 10, 1_000_000_000, 1 << 40]);
    let parts = if fam == 3 { 1 } else { 1 + src.upto(2) };
    ctx.note(|| format!("n={n} family {fam} seed={seed} capacities up to {cmax}, asked {parts} times"));
    ctx.label(["many short paths", "few long paths", "star shapes", "one path through everything"][fam]);
    let mut r = Rng::new(&[seed]);
    let (s, t) = {
        let s = r.upto(n as u128 - 1) as usize;
        (s, (s + 1 + r.upto(n as u128 - 2) as usize) % n)
    };
    let mut others: Vec<usize> = (0..n).filter(|&x| x != s && x != t).collect();
    for i in (1..others.len()).rev() {
        let j = r.upto(i as u128) as usize;
        others.swap(i, j);
    }
    let k = r.upto(others.len() as u128) as usize;
    let (a, b) = others.split_at(k);
    let mut d: Dinic<i64> = Dinic::new(n);
    let mut edges = 0;
    for part in 0..parts {
        let mut total = 0u128;
        let paths = match fam { 0 => 1 + n / 6, 1 => 3, 2 => 1 + n / 3, _ => 1 };
        let mut list: Vec<E> = vec![];
        for j in 0..paths {
            let f = r.upto(cmax);
            let walk = |side: &[usize], r: &mut Rng| -> Vec<usize> {
                match fam {
                    1 => {
                        // an own stretch of the side: long, without repetition (paths that share
                        // long stretches would make the instance slow for any search by depth)
                        let l = side.len() / 9;
                        side[l * (3 * part + j)..][..l].to_vec()
                    }
                    3 => side.to_vec(),
                    0 => {
                        let l = r.upto(4) as usize;
                        if side.is_empty() { vec![] } else { (0..l).map(|_| side[r.upto(side.len() as u128 - 1) as usize]).collect() }
                    }
                    _ => if side.is_empty() || r.upto(1) == 0 { vec![] } else { vec![side[r.upto(side.len() as u128 - 1) as usize]] },
                }
            };
            let mut p = vec![s];
            p.extend(walk(a, &mut r));
            let cross = p.len();
            p.extend(walk(b, &mut r));
            p.push(t);
            for i in 1..p.len() {
                let slack = if i == cross { 0 } else { r.upto(2) * r.upto(cmax) };
                list.push((p[i - 1], p[i], f + slack));
            }
            total += f;
        }
        // edges back over the cut, and within the sides
        for _ in 0..if fam == 2 { (list.len() / 4).min(400) } else { list.len() / 4 } {
            let pick = |side: &[usize], z: usize, r: &mut Rng| if side.is_empty() { z } else { side[r.upto(side.len() as u128 - 1) as usize] };
            let (u, v) = match r.upto(2) {
                0 => (pick(b, t, &mut r), pick(a, s, &mut r)),
                1 => (pick(a, s, &mut r), pick(a, s, &mut r)),
                _ => (pick(b, t, &mut r), pick(b, t, &mut r)),
            };
            if fam % 2 == 0 || r.upto(9) == 0 && list.len() < 3000 {
                list.push((u, v, r.upto(cmax)));
            }
        }
        for i in (1..list.len()).rev() {
            let j = r.upto(i as u128) as usize;
            list.swap(i, j);
        }
        list.iter().for_each(|x| d.add_edge(x.0, x.1, x.2 as i64));
        edges += list.len();
        ensure_eq!(d.get_max_flow(s, t) as u128, total, "get_max_flow({s}, {t}) of part {part}, {edges} edges so far");
        ctx.checks += 1;
        ctx.nontrivial_if(total > 0);
    }
    ensure_eq!(d.get_max_flow(s, t), 0, "get_max_flow({s}, {t}) again");
    ctx.checks += 1;
    ctx.label_if(edges > 65_536, "more than 65536 edges");
    Ok(())
}
fn middle(src: &mut Src, ctx: &mut Ctx) -> R {
    planted(src, ctx, 3, 1500)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 300_000 } else { 150_000 };
    planted(src, ctx, 66_000, hi)
}

/// One network asked tens of thousands of times. Either edges come rarely and anywhere, or the
/// network rests (asked again and again) and then grows by a path over new vertices a step.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    struct T {
        n: usize,
        rest: Option<usize>,
        k: usize,
        d: Dinic<i64>,
        e: Vec<E>,
        flow: u128,
    }
    let t = long(
        src,
        ctx,
        120_000,
        |src, ctx| {
            let grows = src.coin();
            let n = if grows { 90 } else { src.size(3, 8) };
            let around = *src.pick(&[65_536usize, 256, 32_768, 128]);
            let rest = (around / src.range(1, 2)).saturating_sub(src.upto(30));
            ctx.note(|| format!("n={n}, s = 0, t = 1; {}", if grows { format!("rests for {rest} steps, then grows") } else { "random edges".into() }));
            T { n, rest: grows.then_some(rest), k: 0, d: Dinic::new(n), e: vec![], flow: 0 }
        },
        |t, src, ctx| {
            t.k += 1;
            let before = t.e.len();
            match t.rest {
                None => if src.prob(1, 1000) && t.e.len() < 120 {
                    t.e.push((src.below(t.n), src.below(t.n), src.upto(1000) as u128));
                },
                Some(r) => if t.k > r && t.k <= r + 40 {
                    let i = 2 + 2 * (t.k - r - 1);
                    let c = 1 + src.upto(9) as u128;
                    t.e.push((0, i, c));
                    t.e.push((i, i + 1, c));
                    t.e.push((i + 1, 1, c));
                },
            }
            let mut want = 0;
            if t.e.len() > before {
                t.e[before..].iter().for_each(|x| t.d.add_edge(x.0, x.1, x.2 as i64));
                let f = augment(t.n, &t.e, 0, 1);
                want = f - t.flow;
                t.flow = f;
            }
            ensure_eq!(t.d.get_max_flow(0, 1) as u128, want, "get_max_flow(0, 1) with {} edges ({} reported before)", t.e.len(), t.flow - want);
            ctx.checks += 1;
            Ok(())
        },
    )?;
    ctx.label_if(t.rest.is_some_and(|r| t.k > r), "grows after a rest");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P13",
        facets: vec![
            Facet::random("history", "networks of 2..14 vertices from four shapes with parallel edges, self-loops and anti-parallel edges, all 12 capacity types, capacities up to the type's maximum, asked between insertions and again at the end; against all cuts (n <= 7) or augmenting paths in u128 with the residual cut as certificate; non-trivial: positive flow below what leaves s and what enters t", 2_000_000, 30_000_000, history),
            Facet::exhaustive("all small networks", "4 vertices, capacities 0..2 on 8 (thorough: 9) arcs, three edge orders, asked half way and at the end; non-trivial: positive flow at both questions", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "20..120 vertices, asked once or twice, against augmenting paths with certificate; non-trivial: positive flow", 2000, 30_000, large) },
            Facet { fuel: 20_000_000_000, ..Facet::random("planted", "3..1500 vertices, networks grown in up to three parts by paths that exactly use up a cut, so that the flow is known; non-trivial: positive flow", 3000, 60_000, middle) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "the same with 66000..150000 (thorough: 300000) vertices, paths of up to 150000 edges; non-trivial: positive flow", 24, 150, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one network asked up to 120000 times, with edges that come rarely or after a long rest; non-trivial: more than 65536 steps", 160, 1600, many) },
        ],
        assumptions: &["s and t differ", "capacities are non-negative", "the total flow fits the capacity type"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P31 recursive closures against the same bodies as ordinary recursive functions.
use engine::*;
use highopt::rec;
use lowopt::rec as low;
use rec::{Capture, Prog};

fn prog(src: &mut Src) -> Prog {
    let n = 1 + src.upto(4);
    let kids = (0..n).map(|_| src.weighted(&[2, 4, 4, 1]) as u8).collect();
    Prog { mul: src.u128(u64::MAX as u128) as u64, kids, rot: src.upto(8), add: src.u128(u64::MAX as u128) as u64 }
}
fn args(src: &mut Src, k: usize) -> Vec<u64> {
    (0..k).map(|_| src.u128(u64::MAX as u128) as u64).collect()
}
fn compare<T: PartialEq + std::fmt::Debug>(got: T, want: T, what: &str) -> R {
    if got != want {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        return Err(Fail::from(format!("{what}: got {}, the ordinary function gives {}", cut(&g), cut(&w))));
    }
    Ok(())
}
fn scenario(src: &mut Src, ctx: &mut Ctx, optimised: bool) -> R {
    let k = src.upto(9);
    let p = prog(src);
    let mut capture = *src.pick(&[Capture::Ref, Capture::Rc, Capture::Boxed, Capture::Inline]);
    if optimised && capture == Capture::Inline {
        // known finding, see `owned`
        capture = Capture::Boxed;
    }
    let (p, budget, outer) = if src.prob(1, 60) {
        (Prog { kids: vec![1], ..p }, 2000 + src.size(0, 18_000) as u64, 1)
    } else {
        (p, src.size(0, 120) as u64, 1 + src.weighted(&[3, 2, 1]))
    };
    let calls: Vec<Vec<u64>> = (0..outer).map(|_| args(src, k)).collect();
    ctx.note(|| format!("{k} arguments, {p:?}, at most {budget} nested calls, state captured as {capture:?}, outermost calls {calls:?}"));
    let (results, log, ncalls) = if optimised {
        let (got, want) = rec::RUN[k](&p, capture, budget, &calls);
        ((got.results, want.results), (got.log, want.log), (got.calls, want.calls))
    } else {
        let p = low::Prog { mul: p.mul, kids: p.kids.clone(), rot: p.rot, add: p.add };
        let c = match capture {
            Capture::Ref => low::Capture::Ref,
            Capture::Rc => low::Capture::Rc,
            Capture::Boxed => low::Capture::Boxed,
            Capture::Inline => low::Capture::Inline,
        };
        let (got, want) = low::RUN[k](&p, c, budget, &calls);
        ((got.results, want.results), (got.log, want.log), (got.calls, want.calls))
    };
    let n = ncalls.1.unwrap();
    compare(results.0, results.1, "results")?;
    ctx.checks += outer as u64;
    if let Some(l) = log.0 {
        compare(ncalls.0, ncalls.1, "number of calls seen by the captured state")?;
        compare(l, log.1.unwrap(), "captured log of calls and results")?;
        ctx.checks += n;
    }
    ctx.label(["no argument", "1 argument", "2 arguments", "3 arguments", "4 arguments", "5 arguments", "6 arguments", "7 arguments", "8 arguments", "9 arguments"][k]);
    ctx.label_if(n > 2000, "over 2000 levels deep");
    ctx.label_if(outer > 1, "called again");
    ctx.nontrivial_if(n >= 5);
    Ok(())
}
fn optimised(src: &mut Src, ctx: &mut Ctx) -> R {
    scenario(src, ctx, true)
}
fn unoptimised(src: &mut Src, ctx: &mut Ctx) -> R {
    scenario(src, ctx, false)
}
fn mixed(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.upto(9);
    let p = prog(src);
    let budget = src.size(0, 60) as u64;
    let a = args(src, k);
    let opt = src.coin();
    ctx.note(|| format!("{k} arguments of different types from {a:?}, {p:?}, at most {budget} nested calls, optimised: {opt}"));
    let (got, want) = if opt {
        rec::MIXED[k](&p, budget, &a)
    } else {
        low::MIXED[k](&low::Prog { mul: p.mul, kids: p.kids.clone(), rot: p.rot, add: p.add }, budget, &a)
    };
    compare(got, want, "results")?;
    ctx.checks += 1;
    ctx.nontrivial_if(k >= 2 && budget >= 3);
    Ok(())
}
/// Far more levels, or far more calls, than the other facets have.
fn heavy(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.upto(9);
    let opt = !src.prob(1, 4);
    let (width, most) = if src.prob(2, 5) { (1, 200_000) } else { (2 + src.upto(6) as u64, if !opt { 4_000_000 } else if src.thorough && src.prob(1, 40) { 1 << 33 } else { 48_000_000 }) };
    // the deepest tree of at most that many calls
    let (mut full, mut calls, mut level) = (1u64, 1u64, 1u64);
    while calls + level * width <= most {
        level *= width;
        calls += level;
        full += 1;
    }
    let depth = full - src.size(0, (full - 1) as usize) as u64;
    let s = rec::Shape { mul: src.u128(u64::MAX as u128) as u64, depth, width };
    let a = args(src, k);
    ctx.note(|| format!("{k} arguments {a:?}, {s:?}, optimised: {opt}"));
    let (got, want) = if opt {
        let (g, w) = rec::HEAVY[k](&s, &a);
        ((g.0, g.1 .0, g.1 .1, g.1 .2), (w.0, w.1 .0, w.1 .1, w.1 .2))
    } else {
        let (g, w) = low::HEAVY[k](&low::Shape { mul: s.mul, depth, width }, &a);
        ((g.0, g.1 .0, g.1 .1, g.1 .2), (w.0, w.1 .0, w.1 .1, w.1 .2))
    };
    compare(got, want, "result, number of calls, levels left over and greatest depth")?;
    ctx.checks += want.1;
    ctx.label_if(want.3 > 65_536, "over 65536 levels deep");
    ctx.label_if(want.1 > 10_000_000, "over 10 million calls");
    ctx.nontrivial_if(want.1 > 65_536);
    Ok(())
}
fn owned_total(_: bool) -> u64 {
    40
}
/// State moved into the closure as it is, in optimised code: the known finding.
fn owned(i: u64, ctx: &mut Ctx) -> R {
    let (n, list) = (i / 2, i % 2 == 1);
    let want = 2 * (n + 1);
    let what = if list { "pushes to a list" } else { "increments a counter" };
    ctx.note(|| format!("a `move` closure that {what} it owns before and after its nested call, called with {n}"));
    let (low, got) = if list { (low::owned_list(n), rec::owned_list(n)) } else { (low::owned_counter(n), rec::owned_counter(n)) };
    ensure_eq!(low, want, "changes seen by the outermost call (unoptimised build)");
    ctx.checks += 2;
    ctx.nontrivial_if(n > 1);
    if got != want {
        return Err(Fail { sig: Some("owned-state-optimised".into()), ..Fail::from(format!("RecursiveFunction over a `move` closure that {what} it owns before and after its nested call, called with {n}: the optimised build ends with {got} changes, expected {want}")) });
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P31",
        facets: vec![
            Facet::random("optimised", "random recursive bodies with 0..9 arguments (0..3 nested calls per level, chosen by the arguments and earlier results; up to 20,000 levels), state captured by reference, in a shared cell or on the heap, one to three outermost calls: results, call counts and the log of the captured state against an ordinary recursive function; compiled with optimisation; non-trivial: at least 5 calls", 800_000, 8_000_000, optimised),
            Facet::random("unoptimised", "the same compiled without optimisation, also with state moved into the closure as it is", 240_000, 2_400_000, unoptimised),
            Facet::random("mixed", "arguments of up to nine different types (owned strings, vectors, boxes, ...) and a vector as result, both builds; non-trivial: at least two arguments and 3 calls", 400_000, 4_000_000, mixed),
            Facet::random("heavy", "regular trees of calls: chains of up to 200,000 levels, or up to 48 million calls (thorough: some of 2^33), a quarter of them unoptimised; result, call count and depth against an ordinary function; non-trivial: over 65,536 calls", 96, 800, heavy),
            Facet::exhaustive("owned", "a counter and a list owned by the closure itself, changed before and after the nested call, depths 0..19, both builds; non-trivial: depth above 1", owned_total, owned),
        ],
        assumptions: &["recursion fits the stack", "in the optimised build, state moved into the closure without indirection is only checked by the facet 'owned' (known finding)"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

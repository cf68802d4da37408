//! P18 prefix function against its definition.
use engine::*;
use harness::strings::*;
use rust_cp::string::kmp::kmp;
use std::fmt::Debug;

fn naive<T: PartialEq>(s: &[T]) -> Vec<usize> {
    (0..s.len()).map(|i| (0..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap()).collect()
}
fn check<T: PartialEq + Debug>(s: &[T], ctx: &mut Ctx) -> R {
    let want = naive(s);
    ensure_eq!(kmp(s), want, "prefix function of {s:?}");
    ctx.checks += s.len() as u64;
    // a fall from a border of two or more to a shorter non-empty one
    ctx.nontrivial_if(want.windows(2).any(|w| w[0] >= 2 && w[1] >= 1 && w[1] <= w[0]));
    Ok(())
}
fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = string(src, ctx);
    let own = src.prob(1, 4);
    ctx.note(|| format!("{s:?}{}", if own { " as elements with equality only" } else { "" }));
    if own {
        check(&s.iter().map(|x| El(x.to_string())).collect::<Vec<_>>(), ctx)
    } else {
        check(&s, ctx)
    }
}
fn total(th: bool) -> u64 {
    if th { count(2, 22) + count(3, 13) } else { count(2, 15) + count(3, 9) }
}
fn exhaustive(i: u64, ctx: &mut Ctx) -> R {
    let two = count(2, 15);
    let th = count(3, 9);
    let s = if i < two {
        nth(2, i)
    } else if i < two + th {
        nth(3, i - two)
    } else if i < count(2, 22) + th {
        nth(2, i - th)
    } else {
        nth(3, i - count(2, 22))
    };
    ctx.note(|| String::from_utf8_lossy(&s).into());
    check(&s, ctx)
}
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 50_000 };
    sized(src, ctx, 500, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} seed={seed}, almost periodic"));
    let mut r = Rng::new(&[seed]);
    let s = big(&mut r, n);
    let got = kmp(&s);
    ensure_eq!(got.len(), n, "length");
    // independent oracle: Z-values by direct comparison per start, then the longest border by sweep
    let z = harness::strings::z_oracle(&s);
    let mut want = vec![0usize; n];
    // start i covers ends i..i+z[i]; the smallest start covering an end gives the longest border
    let mut done = 0;
    for i in 1..n {
        let end = i + z[i];
        for j in done.max(i)..end {
            want[j] = j + 1 - i;
        }
        done = done.max(end);
    }
    for i in 0..n {
        ensure_eq!(got[i], want[i], "value at {i}");
    }
    ctx.checks += n as u64;
    ctx.nontrivial_if(want.iter().any(|&x| x > 100));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P18",
        facets: vec![
            Facet::random("small", "sequences of 0..120 elements: random, periodic, self-similar, Fibonacci-like, with up to two changes, of integers or of a type with equality only; non-trivial: the value falls from two or more to a smaller non-zero one", 6_000_000, 60_000_000, small),
            Facet::exhaustive("all short", "every string over two letters up to length 15 (thorough 22) and over three up to 9 (13); non-trivial as above", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "500..50000 elements, almost periodic, against borders derived from hashed common prefixes; non-trivial: a value above 100", 128, 2000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) elements, almost periodic, against borders derived from hashed common prefixes; non-trivial: a value above 100", 24, 200, huge) },
        ],
        assumptions: &["element equality is an equivalence relation"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P19 Z-function against its definition.
use engine::*;
use harness::strings::*;
use rust_cp::string::z_algorithm::z_function;
use std::fmt::Debug;

fn naive<T: PartialEq>(s: &[T]) -> Vec<usize> {
    (0..s.len()).map(|i| if i == 0 { 0 } else { (0..s.len() - i).take_while(|&k| s[k] == s[i + k]).count() }).collect()
}
fn check<T: PartialEq + Debug>(s: &[T], ctx: &mut Ctx) -> R {
    let want = naive(s);
    ensure_eq!(z_function(s), want, "Z-function of {s:?}");
    ctx.checks += s.len() as u64;
    // a match that starts inside an earlier one, reaches its end and goes beyond
    let mut r = 0;
    let mut l = 0;
    let mut extends = false;
    for i in 1..s.len() {
        extends |= i < r && i + want[i] > r && want[i] > 0 && l > 0;
        if i + want[i] > r {
            r = i + want[i];
            l = i;
        }
    }
    ctx.label_if(extends, "match extends an earlier one");
    ctx.nontrivial_if(want.iter().filter(|&&x| x >= 2).count() >= 2);
    Ok(())
}
fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = string(src, ctx);
    let own = src.prob(1, 4);
    ctx.note(|| format!("{s:?}{}", if own { " as elements with equality only" } else { "" }));
    if own {
        check(&s.iter().map(|x| El(x.to_string())).collect::<Vec<_>>(), ctx)
    } else {
        check(&s, ctx)
    }
}
fn total(th: bool) -> u64 {
    if th { count(2, 22) + count(3, 13) } else { count(2, 15) + count(3, 9) }
}
fn exhaustive(i: u64, ctx: &mut Ctx) -> R {
    let two = count(2, 15);
    let th = count(3, 9);
    let s = if i < two {
        nth(2, i)
    } else if i < two + th {
        nth(3, i - two)
    } else if i < count(2, 22) + th {
        nth(2, i - th)
    } else {
        nth(3, i - count(2, 22))
    };
    ctx.note(|| String::from_utf8_lossy(&s).into());
    check(&s, ctx)
}
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 200_000 } else { 50_000 };
    sized(src, ctx, 500, hi)
}
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let hi = if src.thorough { 800_000 } else { 270_000 };
    sized(src, ctx, 65_000, hi)
}
fn sized(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> R {
    let n = src.size(lo, hi);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("n={n} seed={seed}, almost periodic"));
    let mut r = Rng::new(&[seed]);
    let s = big(&mut r, n);
    let got = z_function(&s);
    let want = z_oracle(&s);
    ensure_eq!(got.len(), n, "length");
    for i in 0..n {
        ensure_eq!(got[i], want[i], "value at {i}");
    }
    ctx.checks += n as u64;
    ctx.nontrivial_if(want.iter().any(|&x| x > 100));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P19",
        facets: vec![
            Facet::random("small", "sequences of 0..120 elements: random, periodic, self-similar, Fibonacci-like, with up to two changes, of integers or of a type with equality only; non-trivial: two values of two or more", 10_000_000, 100_000_000, small),
            Facet::exhaustive("all short", "every string over two letters up to length 15 (thorough 22) and over three up to 9 (13); non-trivial as above", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "500..50000 elements, almost periodic, against hashed common prefixes with binary search; non-trivial: a value above 100", 128, 2000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "65000..270000 (thorough: 800000) elements, almost periodic, against hashed common prefixes with binary search; non-trivial: a value above 100", 24, 200, huge) },
        ],
        assumptions: &["element equality is an equivalence relation"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

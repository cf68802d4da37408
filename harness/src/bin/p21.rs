//! P21 systems of linear congruences against exhaustive search and exact CRT.
use engine::*;
use harness::num;
use rust_cp::math::number_theory::ex_crt;

/// Exact solution in wide arithmetic: (smallest non-negative solution, period).
fn oracle(a: &[i64], b: &[i64], m: &[i64]) -> Option<(i128, i128)> {
    let (mut x, mut l) = (0i128, 1i128);
    for i in 0..a.len() {
        let (a, b, m) = (a[i] as i128, b[i] as i128, m[i] as i128);
        let g = num::gcd(a.rem_euclid(m) as u128, m as u128) as i128;
        if b.rem_euclid(g) != 0 {
            return None;
        }
        let n = m / g;
        // x = r (mod n)
        let r = ((b - b.rem_euclid(g)) / g).rem_euclid(n) * num::inv_mod((a.rem_euclid(m) / g).rem_euclid(n), n) % n;
        let h = num::gcd(l as u128, n as u128) as i128;
        if (r - x).rem_euclid(h) != 0 {
            return None;
        }
        let k = n / h;
        let t = ((r - x) / h).rem_euclid(k) * num::inv_mod((l / h).rem_euclid(k), k) % k;
        x += l * t;
        l *= k;
        x %= l;
    }
    Some((x, l))
}
fn brute(a: &[i64], b: &[i64], m: &[i64]) -> Option<(i128, i128)> {
    let l: i128 = m.iter().fold(1i128, |l, &m| l / num::gcd(l as u128, m as u128) as i128 * m as i128);
    let ok = |x: i128| (0..a.len()).all(|i| (a[i] as i128 * x - b[i] as i128).rem_euclid(m[i] as i128) == 0);
    let first = (0..l).find(|&x| ok(x))?;
    let next = (first + 1..=first + l).find(|&x| ok(x)).unwrap();
    Some((first, next - first))
}
fn compare(a: &[i64], b: &[i64], m: &[i64], want: Option<(i128, i128)>) -> R {
    let got = ex_crt(&a.to_vec(), &b.to_vec(), &m.to_vec());
    ensure_eq!(got.map(|x| (x.0 as i128, x.1 as i128)), want, "ex_crt({a:?}, {b:?}, {m:?})");
    Ok(())
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.weighted(&[2, 2, 6, 6, 3]).max(src.upto(1));
    let hi = *src.pick(&[12usize, 6, 30]);
    let x0 = src.upto(200) as i128;
    let (mut a, mut b, mut m) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let mm = 1 + src.upto(hi - 1) as i64;
        let aa = src.int(-2 * hi as i128, 2 * hi as i128) as i64;
        let bb = if src.prob(3, 4) {
            (aa as i128 * x0).rem_euclid(mm as i128) as i64 + mm * src.int(-2, 2) as i64
        } else {
            src.int(-40, 40) as i64
        };
        a.push(aa);
        b.push(bb);
        m.push(mm);
    }
    ctx.note(|| format!("a = {a:?}, b = {b:?}, m = {m:?}"));
    let want = brute(&a, &b, &m);
    if oracle(&a, &b, &m) != want {
        panic!("oracles disagree: {a:?} {b:?} {m:?}");
    }
    compare(&a, &b, &m, want)?;
    ctx.checks += 1;
    let full = m.iter().fold(1i128, |l, &m| l / num::gcd(l as u128, m as u128) as i128 * m as i128);
    ctx.label_if(want.is_none(), "no solution");
    ctx.label_if(a.iter().any(|x| *x < 0), "negative coefficient");
    ctx.label_if(n == 0, "no congruence");
    ctx.nontrivial_if(n >= 2 && want.map(|w| w.1 < full && w.1 > 1).unwrap_or(true));
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + src.weighted(&[2, 4, 4, 2, 1]);
    let max = i64::MAX as u128;
    let mut l = 1u128;
    let (mut a, mut b, mut m) = (vec![], vec![], vec![]);
    let x0 = src.u128(max);
    let cap = *src.pick(&[max, 1 << 40, 1 << 20]);
    for _ in 0..n {
        // effective modulus p: its lcm with the others stays within i64
        let mut p = match src.weighted(&[3, 2, 2]) {
            0 => 1 + src.u128((max / l).min(cap) - 1),
            1 => {
                let f = num::gcd(l, src.u128(max).max(1));
                f * (1 + src.u128((max / l).min(cap) - 1))
            }
            _ => 1 + src.upto(30) as u128,
        };
        let lcm = |p: u128| l / num::gcd(l, p) * p;
        if p > max || lcm(p) > max {
            p = num::gcd(l, p);
        }
        // the modulus itself may be much larger, if the coefficient shares the factor g
        let g = if src.coin() { 1 } else { 1 + src.u128(max / p - 1) };
        l = lcm(p);
        let mm = (p * g) as i128;
        // coefficient g * unit, shifted by a multiple of the modulus
        let mut unit = 1 + src.u128(p - 1);
        while num::gcd(unit, p) != 1 {
            unit = unit % p + 1;
            if num::gcd(unit, p) != 1 {
                unit /= num::gcd(unit, p);
            }
        }
        let base = (g * unit) as i128 % mm;
        let aa = {
            let lo = (i64::MIN as i128 - base) / mm;
            let hi = (i64::MAX as i128 - base) / mm;
            base + mm * src.int(lo, hi)
        };
        let r = (num::mul_mod(base as u128, x0, mm as u128)) as i128;
        let bb = if src.prob(1, 10) {
            src.int(i64::MIN as i128, i64::MAX as i128)
        } else {
            let lo = (i64::MIN as i128 - r) / mm;
            let hi = (i64::MAX as i128 - r) / mm;
            r + mm * src.int(lo, hi)
        };
        a.push(aa as i64);
        b.push(bb as i64);
        m.push(mm as i64);
    }
    ctx.note(|| format!("a = {a:?}, b = {b:?}, m = {m:?}"));
    let want = oracle(&a, &b, &m);
    compare(&a, &b, &m, want)?;
    ctx.checks += 1;
    ctx.label_if(want.is_none(), "no solution");
    ctx.label_if(a.iter().any(|x| *x < 0), "negative coefficient");
    ctx.label_if(l > 1 << 62, "period above 2^62");
    ctx.label_if(a.iter().any(|x| x.unsigned_abs() > 1 << 62), "coefficient above 2^62");
    ctx.nontrivial_if(n >= 2 && l > 1 << 32);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P21",
        facets: vec![
            Facet::random("small", "systems of 0..4 congruences with moduli up to 30, three quarters consistent with a hidden solution; against trying every number (and the wide-arithmetic oracle of the other part against the same); non-trivial: two or more congruences, unsolvable or with a period that is a proper divisor of the lcm of the moduli", 300_000, 5_000_000, small),
            Facet::random("large", "systems of 1..5 congruences with 64-bit coefficients, right-hand sides and moduli and a period that fits i64; against CRT in wide arithmetic; non-trivial: two or more congruences and a period above 2^32", 1_000_000, 15_000_000, large),
        ],
        assumptions: &["moduli are positive", "the lcm of m[i] / gcd(a[i], m[i]) fits i64"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P29 base-2 logarithm helpers.
use engine::*;
use rust_cp::misc::util::{ceil_lg, lg};

const CHUNK: u64 = 1 << 20;
fn check_lg(n: usize) -> R {
    let k = lg(n);
    let ok = k < 64 && (1u128 << k) <= n as u128 && (n as u128) < (2u128 << k);
    if !ok {
        return Err(Fail::from(format!("lg({n}) is {k}")));
    }
    Ok(())
}
fn ceil(i: u64, ctx: &mut Ctx) -> R {
    let lo = i * CHUNK;
    ctx.note(|| format!("all n in {lo}..{}", lo + CHUNK));
    // smallest k with 2^k >= n, maintained while n grows
    let mut k = 0;
    while (1u64 << k) < lo {
        k += 1;
    }
    for n in lo..lo + CHUNK {
        if n > 1 << k {
            k += 1;
        }
        let got = ceil_lg(n as u32);
        if got != k {
            return Err(Fail::from(format!("ceil_lg({n}): got {got}, expected {k}")));
        }
        if n > 0 {
            check_lg(n as usize)?;
        }
    }
    ctx.checks += 2 * CHUNK;
    ctx.nontrivial_if(i > 0);
    Ok(())
}
fn ceil_total(_: bool) -> u64 {
    (1 << 32) / CHUNK
}
fn floor_total(_: bool) -> u64 {
    64
}
/// The neighbourhood of every power of two.
fn floor(i: u64, ctx: &mut Ctx) -> R {
    let p = 1u128 << i;
    ctx.note(|| format!("numbers around 2^{i}"));
    for d in 0..2000u128 {
        for n in [p + d, p.saturating_sub(d), p + p - 1 - d.min(p - 1)] {
            if n > 0 && n <= usize::MAX as u128 {
                check_lg(n as usize)?;
                ctx.checks += 1;
            }
        }
    }
    ctx.nontrivial_if(i >= 32);
    Ok(())
}
fn random(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.u128(u64::MAX as u128 - 1) as usize + 1;
    ctx.note(|| format!("lg({n})"));
    ctx.checks += 1;
    ctx.nontrivial_if(n > u32::MAX as usize);
    check_lg(n)
}

pub fn property() -> Property {
    Property {
        id: "P29",
        facets: vec![
            Facet { fuel: 20_000_000_000, ..Facet::exhaustive("32-bit", "both helpers on every n below 2^32 (lg from 1), in blocks of 2^20; non-trivial: every block but the first", ceil_total, ceil) },
            Facet::exhaustive("powers", "lg around every 64-bit power of two; non-trivial: 2^32 and above", floor_total, floor),
            Facet::random("64-bit", "lg of random 64-bit numbers over all bit lengths; non-trivial: above 32 bits", 1_000_000, 50_000_000, random),
        ],
        assumptions: &["lg is asked about positive numbers", "usize has 64 bits"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

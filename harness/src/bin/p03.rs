//! P03 sparse table against the left fold of the range.
use engine::*;
use rust_cp::data_structure::sparse_table::SparseTable;

const OPS: [&str; 11] = ["min", "max", "and", "or", "gcd", "first", "last", "rectangular band", "letters by first occurrence", "letters by last occurrence", "set union as 64-bit or"];
fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// Words of distinct letters 1..=15 packed in nibbles, first letter lowest.
fn concat_first(a: u64, b: u64) -> u64 {
    let mut out = 0u64;
    let mut n = 0;
    let mut seen = 0u32;
    for w in [a, b] {
        let mut w = w;
        while w != 0 {
            let l = w & 15;
            w >>= 4;
            if seen >> l & 1 == 0 {
                seen |= 1 << l;
                out |= l << (4 * n);
                n += 1;
            }
        }
    }
    out
}
fn rev(mut w: u64) -> u64 {
    let mut o = 0;
    while w != 0 {
        o = o << 4 | (w & 15);
        w >>= 4;
    }
    o
}
fn concat_last(a: u64, b: u64) -> u64 {
    rev(concat_first(rev(b), rev(a)))
}
fn op(k: usize, a: u64, b: u64) -> u64 {
    match k {
        0 => a.min(b),
        1 => a.max(b),
        2 => a & b,
        3 | 10 => a | b,
        4 => gcd(a, b),
        5 => a,
        6 => b,
        7 => (a >> 32 << 32) | (b & 0xffff_ffff),
        8 => concat_first(a, b),
        _ => concat_last(a, b),
    }
}
fn value(src: &mut Src, k: usize) -> u64 {
    match k {
        0 | 1 | 5 | 6 => src.int(0, u64::MAX as i128) as u64,
        2 => !(1u64 << src.upto(63)),
        3 | 10 => 1u64 << src.upto(63),
        4 => [2u64, 3, 4, 6, 12, 30, 60, 210, 1 << 40, 0][src.upto(9)],
        7 => (src.upto(1000) as u64) << 32 | src.upto(1000) as u64,
        _ => 1 + src.upto(13) as u64,
    }
}

fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.weighted(&[2, 2, 1, 1, 1, 2, 2, 3, 4, 4, 1]);
    let hi = if src.prob(1, 8) { 130 } else { 36 };
    let n = src.size(0, hi);
    let v: Vec<u64> = (0..n).map(|_| value(src, k)).collect();
    let init = src.int(0, u64::MAX as i128) as u64;
    ctx.note(|| format!("op {}, filler {init}, v = {v:?}", OPS[k]));
    ctx.label(OPS[k]);
    let st = SparseTable::from(&v, init, move |a, b| op(k, a, b));
    for l in 0..n {
        let mut want = v[l];
        for r in l + 1..=n {
            if r > l + 1 {
                want = op(k, want, v[r - 1]);
            }
            ensure_eq!(st.get(l, r), want, "get({l}, {r})");
            ctx.checks += 1;
        }
    }
    ctx.label_if(n == 0, "empty");
    ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
    ctx.label_if(n > 1 && (n + 1).is_power_of_two(), "n one below a power of two");
    ctx.nontrivial_if(n >= 3);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = *src.pick(&[8usize, 9, 0, 7]);
    let n = src.size(1000, if src.thorough { 1_000_000 } else { 200_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let mut r = Rng::new(&[seed]);
    ctx.note(|| format!("op {}, n = {n}, values from seed {seed}", OPS[k]));
    ctx.label(OPS[k]);
    ctx.nontrivial_if(true);
    // letters change slowly, so that ends of ranges matter
    let v: Vec<u64> = (0..n)
        .map(|i| match k {
            8 | 9 => 1 + ((i as u64 / (1 + n as u64 / 40)) + (r.upto(20) == 0) as u64 * r.upto(13) as u64) % 14,
            7 => (r.upto(1 << 20) as u64) << 32 | r.upto(1 << 20) as u64,
            _ => r.next() >> 8,
        })
        .collect();
    let st = SparseTable::from(&v, r.next(), move |a, b| op(k, a, b));
    for q in 0..60 {
        let (a, b) = match q % 6 {
            0 => (0, n - 1),
            1 => {
                let c = 1usize << r.upto((n.ilog2()) as u128);
                let a = r.upto((n - c) as u128) as usize;
                (a, a + c - 1)
            }
            2 => {
                let c = (1usize << r.upto((n.ilog2()) as u128)) + 1;
                let c = c.min(n);
                let a = r.upto((n - c) as u128) as usize;
                (a, a + c - 1)
            }
            3 => (r.upto(n as u128 - 1) as usize, n - 1),
            _ => (r.upto(n as u128 - 1) as usize, r.upto(n as u128 - 1) as usize),
        };
        let (l, rr) = (a.min(b), a.max(b) + 1);
        let want = v[l + 1..rr].iter().fold(v[l], |x, &y| op(k, x, y));
        ensure_eq!(st.get(l, rr), want, "get({l}, {rr})");
        ctx.checks += 1;
    }
    Ok(())
}

/// Arrays of millions of elements, lengths around every power of two.
fn huge(i: u64, ctx: &mut Ctx) -> R {
    let k = 21 + (i / 6) as u32;
    let n = (1usize << k) + [0, 1, 5][(i / 2 % 3) as usize] - (i / 2 % 3 == 0) as usize * (i % 2) as usize;
    let ends = i % 2 == 0;
    ctx.note(|| format!("n = {n}, {}", if ends { "ends of the range" } else { "maximum" }));
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[i]);
    let mut ranges = vec![];
    for k in 0..=k {
        for len in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            if (1..=n).contains(&len) {
                for l in [0, 1, (n - len) / 2, n - len] {
                    if l + len <= n {
                        ranges.push((l, l + len));
                    }
                }
            }
        }
    }
    ranges.push((0, n));
    if ends {
        let v: Vec<(u32, u32)> = (0..n as u32).map(|i| (i, i)).collect();
        let st = SparseTable::from(&v, (u32::MAX, u32::MAX), |a, b| (a.0, b.1));
        for &(l, e) in &ranges {
            ensure_eq!(st.get(l, e), (l as u32, e as u32 - 1), "get({l}, {e}) of (first, last)");
            ctx.checks += 1;
        }
    } else {
        let v: Vec<u32> = (0..n).map(|_| r.next() as u32).collect();
        let st = SparseTable::from(&v, u32::MAX, |a, b| a.max(b));
        for &(l, e) in &ranges {
            ensure_eq!(st.get(l, e), *v[l..e].iter().max().unwrap(), "get({l}, {e}) of the maximum");
            ctx.checks += 1;
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P03",
        facets: vec![
            Facet::random("small", "slices of length 0..130 around powers of two, 11 associative idempotent operations (5 non-commutative), random filler; every range of every table compared with the left fold; non-trivial: n >= 3", 160_000, 3_000_000, small),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "1000..200000 elements, 60 ranges (whole, powers of two and one more, suffixes, random) against the fold; all non-trivial", 96, 1500, large) },
            Facet { fuel: 200_000_000_000, ..Facet::exhaustive("huge", "2^21 elements and next to it (thorough: also 2^22 and 2^23), ranges of lengths next to every power of two; all non-trivial", |t| if t { 18 } else { 6 }, huge) },
        ],
        assumptions: &["the operation is associative and idempotent", "0 <= l < r <= n"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

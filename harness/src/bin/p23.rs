//! P23 fixed-modulus integers against exact arithmetic on residues.
use engine::*;
use harness::modint::{all_pairs, history, M};
use rust_cp::misc::modint::{ModInt1000000007, ModInt998244353, StaticModInt};

type History = fn(u32, &mut Src, &mut Ctx) -> R;
macro_rules! list {
    ($($p:literal $h:literal)*) => { [
        $( ($p, $h, history::<StaticModInt<M<$p, $h>>> as History), )*
        (998_244_353, true, history::<ModInt998244353> as History),
        (1_000_000_007, true, history::<ModInt1000000007> as History),
    ] };
}
// prime and composite, all sizes, near powers of two, both ends of the range
const RINGS: [(u32, bool, History); 34] = list!(1 false 2 true 2 false 3 true 4 false 5 true 6 false 7 true 10 false 12 false 97 true 100 false 101 true 255 false 256 false 1000 false
    46341 false 65535 false 65536 false 65537 true 16777216 false 167772161 true 998244353 false 1000000000 false 1073741824 false
    1073741825 false 1500000001 false 2147483629 true 2147483646 false 2147483647 true 2147483647 false 2147483648 false);
type All = fn(u32, &mut Ctx) -> R;
macro_rules! small {
    ($($p:literal)*) => { [ $( all_pairs::<StaticModInt<M<$p, false>>> as All, )* ] };
}
const SMALL: [All; 33] = small!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33);

fn run(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.below(RINGS.len());
    ctx.label_if(RINGS[i].0 == 1, "modulus 1");
    ctx.label_if(RINGS[i].0 > 1 << 30, "modulus above 2^30");
    RINGS[i].2(RINGS[i].0, src, ctx)
}
fn total(_: bool) -> u64 {
    SMALL.len() as u64
}
fn small(i: u64, ctx: &mut Ctx) -> R {
    ctx.note(|| format!("modulus {}: every pair, operation and form", i + 1));
    SMALL[i as usize](i as u32 + 1, ctx)
}

pub fn property() -> Property {
    Property {
        id: "P23",
        facets: vec![
            Facet::exhaustive("small", "for every modulus from 1 to 33, every pair of residues through every operation and operator form, every power up to 2m + 2 and some 64-bit ones, against exact arithmetic; non-trivial: modulus above 2", total, small),
            Facet::random("history", "random sequences of about 13 operations in all forms (also mixed with all twelve integer types) on up to six values modulo one of 34 moduli from 1 to 2^31, each result against exact arithmetic; non-trivial: at least 3 steps, one of which had to reduce", 4_000_000, 80_000_000, run),
        ],
        assumptions: &["the modulus is between 1 and 2^31", "raw() gets canonical representatives"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

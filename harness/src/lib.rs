//! Shared generators and reference models of the property binaries (see src/bin).
//! Compiled without instrumentation; contains no code under test.
pub mod graphs;
pub mod hld;
pub mod lazy;
pub mod modint;
pub mod monoid;
pub mod num;
pub mod strings;
pub mod trees;

use engine::Src;

/// A length in 0..=hi (lo..=hi), biased to small values and to powers of two and their neighbours.
pub fn len(src: &mut Src, lo: usize, hi: usize) -> usize {
    src.size(lo, hi)
}

//! The recursion programs of P31 as a user builds them for speed: optimised, without checks and
//! without instrumentation.
#[path = "../../src/rec.rs"]
pub mod rec;

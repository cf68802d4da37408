//! The recursion programs of P31 compiled without optimisation (see the profiles of the harness).
#[path = "../../src/rec.rs"]
pub mod rec;

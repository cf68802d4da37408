//! Run-time side of the compiler instrumentation (LLVM SanitizerCoverage) of the crate under test
//! and of the property binaries: edge counters as feedback for the mutating generator, constants
//! of executed comparisons as a dictionary for the value generators, and a deterministic step
//! budget (a count of executed comparisons, never a clock) that turns non-termination into an
//! observable outcome. This crate is compiled without the instrumentation.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

struct Regions(std::cell::UnsafeCell<Vec<(usize, usize)>>);
unsafe impl Sync for Regions {}
static REGIONS: Regions = Regions(std::cell::UnsafeCell::new(Vec::new()));

/// Remaining comparisons of the running case. Relaxed, non-atomic update: workers are single
/// threaded except for the few cases that start a helper thread and wait for it.
static FUEL: AtomicI64 = AtomicI64::new(i64::MAX);
pub static CMPS: AtomicU64 = AtomicU64::new(0);

const DICT: usize = 512;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static SEEN: [AtomicU64; DICT] = [Z; DICT];
static RECORD: AtomicBool = AtomicBool::new(false);
static LIST: [AtomicU64; DICT] = [Z; DICT];
static LEN: AtomicUsize = AtomicUsize::new(0);

pub const EXIT_FUEL: i32 = 77;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start < stop {
        (*REGIONS.0.get()).push((start as usize, stop as usize));
    }
}

#[inline(always)]
fn tick() {
    let f = FUEL.load(Relaxed) - 1;
    FUEL.store(f, Relaxed);
    if f <= 0 {
        out_of_fuel();
    }
}

#[cold]
#[inline(never)]
fn out_of_fuel() -> ! {
    eprintln!("ENGINE: step budget of one case used up");
    std::process::exit(EXIT_FUEL)
}

#[inline(always)]
fn constant(c: u64) {
    // 0, 1, 2 and all-ones constants carry no information and are the bulk.
    if c > 2 && RECORD.load(Relaxed) && c < u64::MAX - 2 {
        note_constant(c);
    }
}

#[inline(never)]
fn note_constant(c: u64) {
    let mut h = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 55) as usize;
    for _ in 0..8 {
        let s = SEEN[h].load(Relaxed);
        if s == c {
            return;
        }
        if s == 0 {
            SEEN[h].store(c, Relaxed);
            let l = LEN.load(Relaxed);
            if l < DICT {
                LIST[l].store(c, Relaxed);
                LEN.store(l + 1, Relaxed);
            }
            return;
        }
        h = (h + 1) % DICT;
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_a: u8, _b: u8) {
    tick()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_a: u16, _b: u16) {
    tick()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_a: u32, _b: u32) {
    tick()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_a: u64, _b: u64) {
    tick()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _b: u8) {
    tick();
    constant(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _b: u16) {
    tick();
    constant(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _b: u32) {
    tick();
    constant(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _b: u64) {
    tick();
    constant(a)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    tick();
    if RECORD.load(Relaxed) {
        unsafe {
            let n = *cases as usize;
            for i in 0..n.min(32) {
                constant(*cases.add(2 + i));
            }
        }
    }
}

pub fn set_fuel(n: i64) {
    FUEL.store(n, Relaxed);
}
pub fn fuel_left() -> i64 {
    FUEL.load(Relaxed)
}
pub fn record_constants(on: bool) {
    RECORD.store(on, Relaxed);
}
pub fn constants() -> Vec<u64> {
    (0..LEN.load(Relaxed)).map(|i| LIST[i].load(Relaxed)).collect()
}
pub fn n_constants() -> usize {
    LEN.load(Relaxed)
}
pub fn constant_at(i: usize) -> u64 {
    LIST[i].load(Relaxed)
}

/// Edge-counter feedback.
pub struct Cov {
    virgin: Vec<Vec<u8>>,
    pub edges: usize,
}

fn regions() -> &'static [(usize, usize)] {
    unsafe { &*REGIONS.0.get() }
}

impl Cov {
    pub fn new() -> Cov {
        Cov { virgin: regions().iter().map(|&(a, b)| vec![0; b - a]).collect(), edges: 0 }
    }
    pub fn available() -> bool {
        !regions().is_empty()
    }
    pub fn reset(&self) {
        for &(a, b) in regions() {
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
        }
    }
    /// Folds the counters of the last execution into the map; true if some edge reached a new
    /// hit-count class.
    pub fn merge(&mut self) -> bool {
        let mut new = false;
        for (r, &(a, b)) in regions().iter().enumerate() {
            let n = b - a;
            let cur = unsafe { std::slice::from_raw_parts(a as *const u8, n) };
            let vir = &mut self.virgin[r];
            let mut i = 0;
            while i < n {
                if i + 8 <= n {
                    let w = u64::from_le_bytes(cur[i..i + 8].try_into().unwrap());
                    if w == 0 {
                        i += 8;
                        continue;
                    }
                }
                let end = (i + 8).min(n);
                while i < end {
                    let c = cur[i];
                    if c != 0 {
                        let class = match c {
                            1 => 1u8,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        if vir[i] & class == 0 {
                            if vir[i] == 0 {
                                self.edges += 1;
                            }
                            vir[i] |= class;
                            new = true;
                        }
                    }
                    i += 1;
                }
            }
        }
        new
    }
}

//! A small property-based testing and fuzzing engine without dependencies.
//!
//! * every random choice goes through [`Src`]; a case is its recorded choice sequence;
//! * cases are generated at random (seeded by VERIF_SEED) and, as coverage feedback becomes
//!   available, by mutating sequences that reached new code (see `cov`);
//! * a failing sequence is shrunk and written out; `--replay FILE` runs it again directly;
//! * small finite domains are enumerated completely (`Kind::Exhaustive`);
//! * work is a fixed number of cases split over worker processes; no outcome depends on a clock.

pub mod cov;
pub mod json;
mod parent;
mod shrink;
pub mod src;
mod worker;

pub use src::{Rng, Src};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;

/// Number of worker processes; part of the seed derivation, so it is a constant.
pub const SHARDS: usize = 8;

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Exact signature, for failures that may be listed as known findings.
    pub sig: Option<String>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { msg: msg.into(), sig: None }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr) => { if !$c { return Err($crate::Fail::from(format!("expected: {}", stringify!($c)))); } };
    ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::Fail::from(format!($($a)+))); } };
}
/// `ensure_eq!(actual, expected, "what {}", args)`
#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $($a:tt)+) => {
        match (&$got, &$want) {
            (g, w) => if !(*g == *w) {
                return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($a)+), g, w)));
            }
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub describe: bool,
    pub desc: String,
    /// Print the description as it grows: the case may end the process.
    pub live: bool,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// Comparisons with an oracle made by this case.
    pub checks: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Adds a line to the description of the case (built only for samples and failures).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe && self.desc.len() < 200_000 {
            let line = f();
            if self.live {
                println!("{line}");
            }
            self.desc.push_str(&line);
            self.desc.push('\n');
        }
    }
}

pub type RunFn = fn(&mut Src, &mut Ctx) -> R;
pub type IndexFn = fn(u64, &mut Ctx) -> R;

/// A long history inside one case: `setup`, then up to `most` times `step`, all choices from one
/// seed, so that the case is short to record and shrinks by its number of steps.
pub fn long<T>(
    src: &mut Src,
    ctx: &mut Ctx,
    most: usize,
    setup: impl FnOnce(&mut Src, &mut Ctx) -> T,
    mut step: impl FnMut(&mut T, &mut Src, &mut Ctx) -> R,
) -> Result<T, Fail> {
    let steps = src.uni(0, most as i128) as usize;
    let seed = src.upto(usize::MAX >> 1) as u64;
    let mut inner = Src::inner(seed, src.thorough);
    let mut t = setup(&mut inner, ctx);
    ctx.note(|| format!("then {steps} steps from seed {seed}"));
    ctx.label_if(steps > 256, "more than 256 steps");
    ctx.label_if(steps > 65_536, "more than 65536 steps");
    ctx.nontrivial_if(steps > 65_536);
    // the steps themselves are described by the failure
    let describe = std::mem::take(&mut ctx.describe);
    for k in 0..steps {
        step(&mut t, &mut inner, ctx).map_err(|f| Fail { msg: format!("step {k}: {}", f.msg), ..f })?;
    }
    ctx.describe = describe;
    Ok(t)
}

pub enum Kind {
    Random { quick: u64, thorough: u64, run: RunFn },
    /// All indices 0..total(thorough).
    Exhaustive { total: fn(bool) -> u64, run: IndexFn },
}

pub struct Facet {
    pub name: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub kind: Kind,
    /// Budget of executed comparisons of one case.
    pub fuel: i64,
    /// Runs the shrinker may spend on a failure.
    pub shrink_runs: u64,
    /// Each index runs in a process of its own, started by the parent; a crash whose report contains
    /// the second text is the finding of the first (if it is listed).
    pub lone: Option<(&'static str, &'static str)>,
}
impl Facet {
    pub fn random(name: &'static str, rule: &'static str, quick: u64, thorough: u64, run: RunFn) -> Facet {
        Facet { name, rule, kind: Kind::Random { quick, thorough, run }, fuel: 1_000_000_000, shrink_runs: 6000, lone: None }
    }
    pub fn exhaustive(name: &'static str, rule: &'static str, total: fn(bool) -> u64, run: IndexFn) -> Facet {
        Facet { name, rule, kind: Kind::Exhaustive { total, run }, fuel: 1_000_000_000, shrink_runs: 6000, lone: None }
    }
}

pub struct Property {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: &'static [&'static str],
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub(crate) fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{msg}{at}");
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

static CRASH_ONLY: AtomicBool = AtomicBool::new(false);
/// From here on wrong answers and panics do not count: only what ends the process does.
pub fn count_crashes_only() {
    CRASH_ONLY.store(true, std::sync::atomic::Ordering::Relaxed);
}
pub(crate) fn crash_only() -> bool {
    CRASH_ONLY.load(std::sync::atomic::Ordering::Relaxed)
}
/// The build a pass of a check runs, where it is not the checked one (VERIF_BUILD).
pub(crate) fn build() -> Option<String> {
    std::env::var("VERIF_BUILD").ok().filter(|b| !b.is_empty())
}

pub(crate) fn execute(f: RunFn, src: &mut Src, ctx: &mut Ctx, fuel: i64) -> R {
    cov::set_fuel(fuel);
    let r = match catch(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail::from(format!("panicked: {p}"))),
    };
    if crash_only() { Ok(()) } else { r }
}
pub(crate) fn execute_index(f: IndexFn, i: u64, ctx: &mut Ctx, fuel: i64) -> R {
    cov::set_fuel(fuel);
    let r = match catch(|| f(i, ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail::from(format!("panicked: {p}"))),
    };
    if crash_only() { Ok(()) } else { r }
}

pub(crate) fn hash_choices(c: &[u128]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (c.len() as u64);
    for &v in c {
        for w in [v as u64, (v >> 64) as u64] {
            h = (h ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
        }
    }
    h
}

pub fn main(prop: Property) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker::main(&prop, &args[2..]),
        Some("--one") => worker::one(&prop, &args[2..]),
        // after a build, to see that it starts
        Some("--nothing") => 0,
        Some("--replay") => parent::replay(&prop, &args[2]),
        _ => {
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            parent::main(&prop, thorough)
        }
    };
    std::process::exit(code)
}

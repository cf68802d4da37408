//! One worker process: its share of every facet, single threaded.
use crate::cov::{self, Cov};
use crate::shrink::Shrinker;
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
pub(crate) fn limits() {
    // (the sanitizer maps terabytes of shadow memory)
    if cfg!(miri) || build().is_some_and(|b| b == "asan") {
        return;
    }
    // Address space: a run-away allocation ends this process, not the sandbox. No core files.
    unsafe {
        let lim = [6u64 << 30; 2];
        setrlimit(9, &lim);
        let none = [0u64; 2];
        setrlimit(4, &none);
    }
}
pub(crate) fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(if cfg!(miri) { 64 << 20 } else { 1 << 30 })
        .spawn(f)
        .expect("worker thread")
        .join()
        .unwrap_or_else(|_| {
            eprintln!("ENGINE: internal panic: {}", last_panic());
            std::process::exit(3)
        })
}

pub(crate) fn esc(x: &str) -> String {
    x.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
pub(crate) fn unesc(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub(crate) fn choices_text(c: &[u128]) -> String {
    c.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(" ")
}
pub(crate) fn parse_choices(t: &str) -> Vec<u128> {
    t.split_whitespace().map(|x| u128::from_str_radix(x, 16).expect("choice")).collect()
}

fn mutate(r: &mut Rng, base: &[u128], other: &[u128]) -> Vec<u128> {
    let mut c = base.to_vec();
    let n = 1 + (r.upto(3) * r.upto(1)) as usize;
    for _ in 0..n {
        if c.is_empty() {
            break;
        }
        let i = r.upto(c.len() as u128 - 1) as usize;
        match r.upto(11) {
            0 => c[i] = r.next128() >> (r.upto(127) as u32),
            1 => c[i] = r.upto(16),
            2 => c[i] = c[i].wrapping_add(1),
            3 => c[i] = c[i].wrapping_sub(1),
            4 => c[i] ^= 1 << r.upto(12),
            5 => {
                let k = cov::n_constants();
                if k > 0 {
                    c[i] = (cov::constant_at(r.upto(k as u128 - 1) as usize) as u128 + r.upto(2)).wrapping_sub(1);
                }
            }
            6 => {
                // delete a span
                let k = 1 + r.upto(15) as usize;
                let e = (i + k).min(c.len());
                c.drain(i..e);
            }
            7 => {
                // duplicate a span
                let k = 1 + r.upto(15) as usize;
                let e = (i + k).min(c.len());
                let span: Vec<u128> = c[i..e].to_vec();
                let j = r.upto(c.len() as u128) as usize;
                c.splice(j..j, span);
            }
            8 => {
                // copy one choice over another
                let j = r.upto(c.len() as u128 - 1) as usize;
                c[i] = c[j];
            }
            9 => c.truncate(i),
            10 => {
                // splice with another sequence at the same position
                if i < other.len() {
                    c.truncate(i);
                    c.extend_from_slice(&other[i..]);
                }
            }
            _ => {
                // shuffle-ish: swap two spans' first elements
                let j = r.upto(c.len() as u128 - 1) as usize;
                c.swap(i, j);
            }
        }
    }
    c
}

/// Notes the case about to run, so that it is known if this process dies in it.
fn mark(mut status: &std::fs::File, fi: usize, i: u64) {
    let t = format!("{fi} {i:020}\n");
    if cfg!(miri) {
        use std::io::Seek;
        status.seek(std::io::SeekFrom::Start(0)).unwrap();
        status.write_all(t.as_bytes()).unwrap();
    } else {
        status.write_all_at(t.as_bytes(), 0).unwrap();
    }
}

struct Out {
    f: std::io::BufWriter<std::fs::File>,
}
impl Out {
    fn line(&mut self, l: String) {
        self.f.write_all(l.as_bytes()).unwrap();
        self.f.write_all(b"\n").unwrap();
    }
}

pub fn main(prop: &Property, args: &[String]) -> i32 {
    limits();
    let shard: u64 = args[0].parse().unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let thorough = args[2] == "thorough";
    let dir = args[3].clone();
    let known: Vec<String> = args[4].split('\u{1f}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    // facet index and case number at which to record the choices (after a crash)
    let trace: Option<(usize, u64)> = args.get(5).map(|t| {
        let (a, b) = t.split_once(':').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let prop: &'static Property = unsafe { &*(prop as *const Property) };
    big_stack(move || run_shard(prop, shard, seed, thorough, &dir, &known, trace))
}

fn run_shard(
    prop: &Property,
    shard: u64,
    seed: u64,
    thorough: bool,
    dir: &str,
    known: &[String],
    trace: Option<(usize, u64)>,
) -> i32 {
    let tag = if trace.is_some() { "t" } else { "w" };
    let mut out = Out { f: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{tag}{shard}.txt")).unwrap()) };
    let status = std::fs::File::create(format!("{dir}/{tag}{shard}.status")).unwrap();
    let mut failed = false;
    for (fi, facet) in prop.facets.iter().enumerate() {
        if failed {
            break;
        }
        if facet.lone.is_some() {
            continue;
        }
        let t0 = std::time::Instant::now();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut evals, mut nontrivial, mut checks, mut max_steps) = (0u64, 0u64, 0u64, 0i64);
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut edges = 0;
        let mut corpus: Vec<Vec<u128>> = vec![];
        let mut mutated = 0u64;
        match facet.kind {
            Kind::Exhaustive { total, run } => {
                let total = total(thorough);
                let scale = scale(total);
                let lo = (total as u128 * shard as u128 / SHARDS as u128) as u64;
                let hi = (total as u128 * (shard as u128 + 1) / SHARDS as u128) as u64;
                for i in (lo..hi).step_by(scale as usize) {
                    mark(&status, fi, i);
                    let mut ctx = Ctx::default();
                    let r = execute_index(run, i, &mut ctx, facet.fuel);
                    max_steps = max_steps.max(facet.fuel - cov::fuel_left());
                    evals += 1;
                    checks += ctx.checks;
                    nontrivial += ctx.nontrivial as u64;
                    for l in ctx.labels {
                        *labels.entry(l).or_default() += 1;
                    }
                    if let Err(f) = r {
                        if let Some(s) = f.sig.as_ref().filter(|s| known.contains(s)) {
                            known_hits.entry(s.clone()).or_insert((0, f.msg.clone())).0 += 1;
                            continue;
                        }
                        let mut c = Ctx { describe: true, ..Ctx::default() };
                        let _ = execute_index(run, i, &mut c, facet.fuel);
                        out.line(format!("fail\t{fi}\t{}\t{}\t{}\t{}", esc(&f.msg), f.sig.unwrap_or_default(), esc(&c.desc), choices_text(&[i as u128])));
                        failed = true;
                        break;
                    }
                    if shard == 0 && ctx.nontrivial && samples.len() < 2 {
                        let mut c = Ctx { describe: true, ..Ctx::default() };
                        let _ = execute_index(run, i, &mut c, facet.fuel);
                        samples.push(c.desc);
                    }
                }
            }
            Kind::Random { quick, thorough: th, run } => {
                let total = if thorough { th } else { quick };
                let total = total / scale(total);
                let n = total / SHARDS as u64 + (shard < total % SHARDS as u64) as u64;
                let use_cov = Cov::available();
                let mut cov_map = Cov::new();
                for i in 0..n {
                    mark(&status, fi, i);
                    let mut rng = Rng::new(&[seed, fi as u64 + 1, shard, i]);
                    let mutate_it = use_cov && i % 5 >= 3 && corpus.len() >= 4;
                    let mut src = if mutate_it {
                        mutated += 1;
                        let k = corpus.len() as u128 - 1;
                        // prefer recent additions
                        let a = (k - rng.upto(rng.clone().upto(k).max(1).min(k))) as usize;
                        let b = rng.upto(k) as usize;
                        let c = mutate(&mut rng, &corpus[a], &corpus[b]);
                        Src::mutated(c, rng, thorough)
                    } else {
                        Src::random(rng, thorough)
                    };
                    if trace == Some((fi, i)) {
                        src.trace = Some(std::fs::File::create(format!("{dir}/t{shard}.choices")).unwrap());
                    }
                    let mut ctx = Ctx::default();
                    if use_cov {
                        cov_map.reset();
                        // constants are collected from a prefix and a sample of the cases
                        cov::record_constants(i < 200 || i % 16 == 0);
                    }
                    let r = execute(run, &mut src, &mut ctx, facet.fuel);
                    cov::record_constants(false);
                    max_steps = max_steps.max(facet.fuel - cov::fuel_left());
                    evals += 1;
                    checks += ctx.checks;
                    for &l in &ctx.labels {
                        *labels.entry(l).or_default() += 1;
                    }
                    if ctx.nontrivial {
                        nontrivial += 1;
                        hashes.insert(hash_choices(&src.rec));
                    }
                    if let Err(f) = r {
                        if let Some(s) = f.sig.as_ref().filter(|s| known.contains(s)) {
                            known_hits.entry(s.clone()).or_insert((0, f.msg.clone())).0 += 1;
                            continue;
                        }
                        let rec = std::mem::take(&mut src.rec);
                        let mut test = |c: &[u128]| -> Option<(Vec<u128>, Fail)> {
                            let mut s = Src::replay(c.to_vec(), thorough);
                            let mut x = Ctx::default();
                            match execute(run, &mut s, &mut x, facet.fuel) {
                                Err(f) if f.sig.as_ref().is_none_or(|s| !known.contains(s)) => Some((s.rec, f)),
                                _ => None,
                            }
                        };
                        let mut sh = Shrinker { test: &mut test, best: rec, fail: f, runs: 0, max_runs: facet.shrink_runs, max_choices: 60_000_000, choices: 0 };
                        sh.run();
                        let (best, fail) = (sh.best.clone(), sh.fail.clone());
                        let mut c = Ctx { describe: true, ..Ctx::default() };
                        let _ = execute(run, &mut Src::replay(best.clone(), thorough), &mut c, facet.fuel);
                        out.line(format!("fail\t{fi}\t{}\t{}\t{}\t{}", esc(&fail.msg), fail.sig.unwrap_or_default(), esc(&c.desc), choices_text(&best)));
                        failed = true;
                        break;
                    }
                    if use_cov && cov_map.merge() && src.rec.len() <= 4096 && corpus.len() < 4000 {
                        corpus.push(src.rec.clone());
                    }
                    if shard == 0 && ctx.nontrivial && samples.len() < 2 && src.rec.len() < 400 && i >= 5 {
                        let mut c = Ctx { describe: true, ..Ctx::default() };
                        let _ = execute(run, &mut Src::replay(src.rec.clone(), thorough), &mut c, facet.fuel);
                        samples.push(c.desc);
                    }
                }
                edges = cov_map.edges;
            }
        }
        if std::env::var_os("VERIF_TIMES").is_some() { eprintln!("{} {:?} {evals}", facet.name, t0.elapsed()); }
        out.line(format!("facet\t{fi}\t{evals}\t{nontrivial}\t{checks}\t{max_steps}\t{edges}\t{}\t{mutated}", corpus.len()));
        for (l, c) in labels {
            out.line(format!("label\t{fi}\t{l}\t{c}"));
        }
        for (s, (c, m)) in known_hits {
            out.line(format!("known\t{fi}\t{s}\t{c}\t{}", esc(&m)));
        }
        for s in samples {
            out.line(format!("sample\t{fi}\t{}", esc(&s)));
        }
        if matches!(facet.kind, Kind::Random { .. }) {
            let mut b = Vec::with_capacity(hashes.len() * 8);
            for h in hashes {
                b.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{dir}/{tag}{shard}.h{fi}"), b).unwrap();
        }
    }
    out.line("end".into());
    out.f.flush().unwrap();
    0
}

/// The second pass, over the plain build, runs a part of the cases (VERIF_SCALE), at least a few
/// of every facet.
fn scale(total: u64) -> u64 {
    let s = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    s.min(total / SHARDS as u64).max(1)
}

/// `--one FACET TIER CHOICES-FILE`: runs one case; exit 0 held, 1 failed (message on stdout).
pub fn one(prop: &Property, args: &[String]) -> i32 {
    limits();
    let prop: &'static Property = unsafe { &*(prop as *const Property) };
    let facet = args[0].clone();
    let thorough = args[1] == "thorough";
    let choices = parse_choices(&std::fs::read_to_string(&args[2]).expect("choices file"));
    big_stack(move || {
        let f = prop.facets.iter().find(|f| f.name == facet).expect("facet");
        let mut ctx = Ctx { describe: true, live: true, ..Ctx::default() };
        let r = match f.kind {
            Kind::Random { run, .. } => execute(run, &mut Src::replay(choices, thorough), &mut ctx, f.fuel),
            Kind::Exhaustive { run, .. } => execute_index(run, choices[0] as u64, &mut ctx, f.fuel),
        };
        println!();
        match r {
            Ok(()) => 0,
            Err(f) => {
                println!("FAILED: {}", f.msg);
                1
            }
        }
    })
}

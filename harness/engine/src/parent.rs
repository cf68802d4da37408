//! The check itself: spawns the workers, merges what they covered, reports.
use crate::json;
use crate::shrink::Shrinker;
use crate::worker::{choices_text, parse_choices, unesc};
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Tot {
    evals: u64,
    nontrivial: u64,
    checks: u64,
    max_steps: i64,
    edges: u64,
    corpus: u64,
    mutated: u64,
    labels: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
}
struct Failure {
    facet: usize,
    shard: usize,
    msg: String,
    desc: String,
    choices: Vec<u128>,
}

/// listed signatures of a property: (sig, text)
fn known_list(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("");
            let t = it.next().unwrap_or("");
            if p == format!("property={id}") {
                if let Some(s) = s.strip_prefix("sig=") {
                    v.push((s.to_string(), t.to_string()));
                }
            }
        }
    }
    v
}

enum Died {
    /// the code under test crashed or used up its step budget
    Crash(String),
    /// anything that says nothing about the property
    Error(String),
}
fn classify(st: ExitStatus, stderr: &str) -> Died {
    let tail: String = stderr.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
    if let Some(at) = stderr.find("error: Undefined Behavior") {
        let lines: Vec<&str> = stderr[at..].lines().filter(|l| l.starts_with("error: Und") || l.trim_start().starts_with("--> ")).take(2).collect();
        return Died::Crash(lines.join(" ").chars().take(500).collect());
    }
    if stderr.contains("memory allocation of") || stderr.contains("capacity overflow") {
        return Died::Error(format!("worker ran out of memory: {tail}"));
    }
    if crash_only() && (st.code() == Some(cov::EXIT_FUEL) || stderr.contains("overflowed its stack") || stderr.contains("AddressSanitizer: stack-overflow")) {
        return Died::Error("a case ran on for too long or too deep (not decided here)".into());
    }
    if let Some(at) = stderr.find("ERROR: AddressSanitizer") {
        return Died::Crash(stderr[at..].lines().take(6).collect::<Vec<_>>().join(" ").chars().take(700).collect());
    }
    if st.code() == Some(cov::EXIT_FUEL) {
        return Died::Crash("the case did not finish within its budget of executed comparisons (runs on without end, or far too much work)".into());
    }
    if stderr.contains("overflowed its stack") {
        return Died::Crash("stack overflow (unbounded or far too deep recursion)".into());
    }
    match st.signal() {
        Some(s @ (4 | 6 | 7 | 8 | 11)) => Died::Crash(format!("the process crashed with signal {s}: {tail}")),
        Some(s) => Died::Error(format!("worker was ended by signal {s}")),
        None => Died::Error(format!("worker exited with {:?}: {tail}", st.code())),
    }
}

/// This program, or this program under the launcher of VERIF_LAUNCH (an interpreter).
fn myself() -> Command {
    match std::env::var("VERIF_LAUNCH") {
        Ok(l) => {
            let mut it = l.split_whitespace();
            let mut c = Command::new(it.next().expect("launcher"));
            c.args(it);
            c
        }
        Err(_) => Command::new(std::env::current_exe().unwrap()),
    }
}

fn spawn(shard: usize, seed: u64, tier: &str, dir: &str, known: &str, trace: Option<String>) -> Child {
    let tag = if trace.is_some() { "t" } else { "w" };
    let err = std::fs::File::create(format!("{dir}/{tag}{shard}.err")).unwrap();
    let mut c = myself();
    c.arg("--worker").arg(shard.to_string()).arg(seed.to_string()).arg(tier).arg(dir).arg(known);
    if let Some(t) = trace {
        c.arg(t);
    }
    c.env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    c.spawn().expect("spawn worker")
}

fn wait(ch: &mut Child, deadline: Instant) -> Option<ExitStatus> {
    let mut pause = 1;
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if Instant::now() > deadline {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(20);
    }
}

/// Runs one case in a process of its own: Some(failure) if it fails or crashes.
fn run_one(facet: &str, tier: &str, choices: &[u128], dir: &str, deadline: Instant) -> Option<(Fail, String)> {
    let file = format!("{dir}/one.choices");
    std::fs::write(&file, choices_text(choices)).unwrap();
    let outp = format!("{dir}/one.out");
    let errp = format!("{dir}/one.err");
    let mut ch = myself()
        .args(["--one", facet, tier, &file])
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&outp).unwrap())
        .stderr(std::fs::File::create(&errp).unwrap())
        .spawn()
        .unwrap();
    let st = wait(&mut ch, deadline)?;
    let out = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).into_owned();
    match st.code() {
        Some(0) => None,
        Some(1) if !err.contains("error: Undefined Behavior") => {
            let (d, m) = out.rsplit_once("FAILED: ").unwrap_or(("", &out));
            Some((Fail::from(m.trim().to_string()), d.to_string()))
        }
        _ => match classify(st, &err) {
            Died::Crash(m) => Some((Fail::from(m), out)),
            Died::Error(_) => None,
        },
    }
}

pub fn main(prop: &Property, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    // A further pass of a check over another build (e.g. "plain": without overflow checks and
    // debug assertions, as in a contest); "asan" is a first pass.
    let build = build();
    let further = build.clone().filter(|b| b != "asan");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let limit: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
    let deadline = t0 + Duration::from_secs(limit);
    let worker_seed = if further.is_some() { seed ^ 0x706c_6169_6e00_0000 } else { seed };
    let dir = format!("{}/harness/target/run/{}-{}", verif_dir(), prop.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let known = known_list(prop.id);
    let known_arg = known.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join("\u{1f}");
    let mut kids: Vec<Child> = (0..SHARDS).map(|s| spawn(s, worker_seed, tier, &dir, &known_arg, None)).collect();
    let mut crashes: Vec<(usize, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    for (s, ch) in kids.iter_mut().enumerate() {
        match wait(ch, deadline) {
            None => errors.push(format!("worker {s} was still running after {limit} s (inconclusive)")),
            Some(st) if st.success() => {}
            Some(st) => {
                let err = String::from_utf8_lossy(&std::fs::read(format!("{dir}/w{s}.err")).unwrap_or_default()).into_owned();
                match classify(st, &err) {
                    Died::Crash(m) => crashes.push((s, m)),
                    Died::Error(m) => errors.push(m),
                }
            }
        }
    }
    let mut tot: Vec<Tot> = prop.facets.iter().map(|_| Tot::default()).collect();
    let mut fails: Vec<Failure> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for s in 0..SHARDS {
        let text = String::from_utf8_lossy(&std::fs::read(format!("{dir}/w{s}.txt")).unwrap_or_default()).into_owned();
        let complete = text.ends_with("end\n");
        if !complete && errors.is_empty() && !crashes.iter().any(|c| c.0 == s) {
            errors.push(format!("worker {s} left no complete result"));
        }
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            match f[0] {
                "facet" if f.len() == 9 => {
                    let t = &mut tot[num(1) as usize];
                    t.evals += num(2);
                    t.nontrivial += num(3);
                    t.checks += num(4);
                    t.max_steps = t.max_steps.max(f[5].parse().unwrap_or(0));
                    t.edges = t.edges.max(num(6));
                    t.corpus += num(7);
                    t.mutated += num(8);
                }
                "label" if f.len() == 4 => *tot[num(1) as usize].labels.entry(f[2].into()).or_default() += num(3),
                "sample" if f.len() == 3 => tot[num(1) as usize].samples.push(unesc(f[2])),
                "known" if f.len() == 5 => {
                    let e = known_hits.entry(f[2].into()).or_insert((0, unesc(f[4])));
                    e.0 += num(3);
                }
                "fail" if f.len() == 6 => fails.push(Failure {
                    facet: num(1) as usize,
                    shard: s,
                    msg: unesc(f[2]),
                    desc: unesc(f[4]),
                    choices: parse_choices(f[5]),
                }),
                _ => {}
            }
        }
        for (fi, t) in tot.iter_mut().enumerate() {
            if let Ok(b) = std::fs::read(format!("{dir}/w{s}.h{fi}")) {
                t.hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    // A crash leaves no result: run the shard again up to the same case, recording its choices.
    if fails.is_empty() {
        for (s, why) in &crashes {
            let st = String::from_utf8_lossy(&std::fs::read(format!("{dir}/w{s}.status")).unwrap_or_default()).into_owned();
            let mut it = st.split_whitespace();
            let (fi, case): (usize, u64) = match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok())) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    errors.push(format!("worker {s} crashed outside any case: {why}"));
                    continue;
                }
            };
            let facet = &prop.facets[fi];
            let choices = match facet.kind {
                Kind::Exhaustive { .. } => vec![case as u128],
                Kind::Random { .. } => {
                    let mut ch = spawn(*s, worker_seed, tier, &dir, &known_arg, Some(format!("{fi}:{case}")));
                    let _ = wait(&mut ch, deadline);
                    std::fs::read_to_string(format!("{dir}/t{s}.choices"))
                        .unwrap_or_default()
                        .split_whitespace()
                        .filter_map(|x| x.parse().ok())
                        .collect()
                }
            };
            match run_one(facet.name, tier, &choices, &dir, deadline) {
                Some((f, d)) => {
                    let (mut best, mut fail, mut desc) = (choices, f, d);
                    if let Kind::Random { .. } = facet.kind {
                        // every run is a process of its own, and slow under an interpreter
                        let until = deadline.min(Instant::now() + Duration::from_secs(60));
                        let max_runs = if std::env::var_os("VERIF_LAUNCH").is_some() { 16 } else { 120 };
                        let mut test = |c: &[u128]| {
                            if Instant::now() > until {
                                return None;
                            }
                            run_one(facet.name, tier, c, &dir, until).map(|(f, _)| (c.to_vec(), f))
                        };
                        let mut sh = Shrinker { test: &mut test, best: best.clone(), fail: fail.clone(), runs: 0, max_runs, max_choices: 20_000_000, choices: 0 };
                        sh.run();
                        if sh.best != best {
                            best = sh.best.clone();
                            fail = sh.fail.clone();
                            desc = run_one(facet.name, tier, &best, &dir, deadline).map(|x| x.1).unwrap_or_default();
                        }
                    }
                    fails.push(Failure { facet: fi, shard: *s, msg: fail.msg, desc, choices: best });
                    break;
                }
                None => errors.push(format!("worker {s} ended in facet {} ({why}), but the case alone does not", facet.name)),
            }
        }
    }
    for (fi, facet) in prop.facets.iter().enumerate() {
        let (Some((sig, at)), Kind::Exhaustive { total, .. }) = (facet.lone, &facet.kind) else { continue };
        if !fails.is_empty() {
            break;
        }
        for i in 0..total(thorough) {
            tot[fi].evals += 1;
            tot[fi].nontrivial += 1;
            let Some((f, d)) = run_one(facet.name, tier, &[i as u128], &dir, deadline) else { continue };
            if f.msg.contains(at) && known.iter().any(|k| k.0 == sig) {
                known_hits.entry(sig.into()).or_insert((0, f.msg)).0 += 1;
            } else {
                fails.push(Failure { facet: fi, shard: 0, msg: f.msg, desc: d, choices: vec![i as u128] });
                break;
            }
        }
    }
    fails.sort_by_key(|f| (f.facet, f.shard));
    let mut violation = None;
    if let Some(f) = fails.first() {
        let rdir = format!("{}/replay", verif_dir());
        std::fs::create_dir_all(&rdir).unwrap();
        let path = format!("{rdir}/{}-{}{}.json", prop.id, prop.facets[f.facet].name, build.as_ref().map(|b| format!("-{b}")).unwrap_or_default()).replace(' ', "-");
        let body = format!(
            "{{\n \"property\": \"{}\",\n \"facet\": \"{}\",\n \"tier\": \"{tier}\",\n \"build\": \"{}\",\n \"seed\": {seed},\n \"message\": {},\n \"case\": {},\n \"choices\": \"{}\"\n}}\n",
            prop.id, prop.facets[f.facet].name, build.as_deref().unwrap_or("checked"), json::s(&f.msg), json::s(&f.desc), choices_text(&f.choices)
        );
        std::fs::write(&path, body).unwrap();
        violation = Some((path, f));
    }
    // evidence
    let mut rules = vec![];
    let mut samples = vec![];
    let mut facets = vec![];
    let (mut evals, mut distinct) = (0, 0);
    for (f, t) in prop.facets.iter().zip(&tot) {
        let exhaustive = matches!(f.kind, Kind::Exhaustive { .. });
        let d = if exhaustive { t.nontrivial } else { t.hashes.len() as u64 };
        evals += t.evals;
        distinct += d;
        rules.push(format!("[{}] {}", f.name, f.rule));
        for s in &t.samples {
            let mut s = s.trim_end().to_string();
            if s.len() > 900 {
                let cut = (0..=900).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                s.truncate(cut);
                s.push_str(" ...");
            }
            samples.push(json::s(&format!("[{}] {}", f.name, s)));
        }
        facets.push(format!(
            "   {}: {{\"kind\": \"{}\", \"evaluations\": {}, \"distinct_nontrivial\": {d}, \"oracle_comparisons\": {}, \"mutated_from_corpus\": {}, \"corpus\": {}, \"edges\": {}, \"max_steps_of_a_case\": {}, \"labels\": {{{}}}}}",
            json::s(f.name),
            if exhaustive { "exhaustive" } else { "random" },
            t.evals, t.checks, t.mutated, t.corpus, t.edges, t.max_steps,
            t.labels.iter().map(|(k, v)| format!("{}: {v}", json::s(k))).collect::<Vec<_>>().join(", ")
        ));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"samples\": {},\n  \"facets\": {{\n{}\n  }},\n  \"known_findings_hit\": {{{}}},\n  \"workers\": {SHARDS},\n  \"errors\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        prop.id,
        json::s(&rules.join(" ")),
        json::list(samples),
        facets.join(",\n"),
        known_hits.iter().map(|(k, v)| format!("{}: {}", json::s(k), v.0)).collect::<Vec<_>>().join(", "),
        json::list(errors.iter().map(|e| json::s(e))),
        json::list(prop.assumptions.iter().map(|a| json::s(a))),
        violation.is_some() as u32
    );
    let evdir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&evdir).unwrap();
    let evfile = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{evdir}/{}.json", prop.id));
    match std::fs::read_to_string(&evfile).ok().filter(|_| further.is_some()) {
        // into the evidence of the first pass
        Some(old) if old.contains("  \"workers\":") => {
            let part = format!(
                "  \"{}_build\": {{\"evaluations\": {evals}, \"distinct_nontrivial\": {distinct}, \"wall_s\": {wall:.2}, \"errors\": {}, \"facets\": {{\n{}\n  }}}},\n  \"workers\":",
                further.as_deref().unwrap_or(""),
                json::list(errors.iter().map(|e| json::s(e))),
                facets.join(",\n")
            );
            let mut new = old.replacen("  \"workers\":", &part, 1);
            if violation.is_some() {
                new = new.replace("\"violations\": 0\n", "\"violations\": 1\n");
            }
            std::fs::write(&evfile, new).unwrap();
        }
        _ => std::fs::write(&evfile, ev).unwrap(),
    }
    let _ = std::fs::remove_dir_all(&dir);
    for (sig, text) in &known {
        if let Some((n, m)) = known_hits.get(sig) {
            println!("KNOWN-FINDING: property={} {text} [sig={sig}, {n} cases, e.g. {}]", prop.id, m.lines().next().unwrap_or(""));
        }
    }
    println!("{} {tier}{} seed={seed}: {evals} cases, {distinct} distinct non-trivial, {wall:.1} s", prop.id, build.as_ref().map(|b| format!(" ({b} build)")).unwrap_or_default());
    for (f, t) in prop.facets.iter().zip(&tot) {
        println!("  {:<28} {:>10} cases {:>8} edges {:>6} corpus  max steps {}", f.name, t.evals, t.edges, t.corpus, t.max_steps);
    }
    if let Some((path, f)) = violation {
        println!("facet {}: {}", prop.facets[f.facet].name, f.msg);
        for l in f.desc.lines().take(60) {
            println!("  | {}", l.chars().take(400).collect::<String>());
        }
        println!("VIOLATION property={} replay={path}", prop.id);
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        return 3;
    }
    0
}

pub fn replay(prop: &Property, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let facet = json::get_str(&text, "facet").expect("facet");
    let tier = json::get_str(&text, "tier").expect("tier");
    let choices = parse_choices(&json::get_str(&text, "choices").expect("choices"));
    let dir = format!("{}/harness/target/run/replay-{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let r = run_one(&facet, &tier, &choices, &dir, Instant::now() + Duration::from_secs(600));
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some((f, d)) => {
            println!("{d}\n{}", f.msg);
            println!("VIOLATION property={} replay={path}", prop.id);
            1
        }
        None => {
            println!("replayed {path}: the property held");
            0
        }
    }
}

//! P34 debug printing: generated programs compiled by rustc against the crate in both builds.
use engine::*;
use std::path::{Path, PathBuf};
use std::process::Command;

fn scratch() -> PathBuf {
    let d = std::env::var("VERIF_DIR").expect("VERIF_DIR");
    Path::new(&d).join("harness/target/p34")
}
const BUILDS: [(&str, &[&str]); 2] = [("debug", &["-Copt-level=0", "-Cdebug-assertions=on"]), ("release", &["-Copt-level=3"])];
fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.args(["--cap-lints=allow", "-Cdebuginfo=0"]);
    c
}
/// The crate under test in both builds.
fn build_crate() {
    let dir = scratch();
    std::fs::create_dir_all(&dir).unwrap();
    for (name, flags) in BUILDS {
        let own = dir.join(format!("{name}.{}.rlib", std::process::id()));
        let out = rustc().args(["--edition=2021", "--crate-type=rlib", "--crate-name=rust_cp", "/repo/src/lib.rs", "-o"]).arg(&own).args(flags).output().expect("rustc");
        if !out.status.success() {
            println!("{}", String::from_utf8_lossy(&out.stderr));
            println!("ERROR: the crate does not build in the {name} build");
            std::process::exit(2);
        }
        std::fs::rename(&own, dir.join(format!("librust_cp_{name}.rlib"))).unwrap();
    }
}

/// An expression, what it prints as, and whether evaluating it counts (calls `next`).
struct Expr {
    text: String,
    value: String,
    counts: bool,
}
fn pure(text: impl Into<String>, value: impl Into<String>) -> Expr {
    Expr { text: text.into(), value: value.into(), counts: false }
}
/// Variables in scope of every fragment.
struct Vars {
    a: i64,
    b: i64,
    v: Vec<i64>,
    s: String,
}
const HEAD: &str = "#[derive(Debug, Clone, PartialEq)]\nstruct P { x: i64, y: Vec<i64> }\nfn next(c: &std::cell::Cell<i64>) -> i64 { c.set(c.get() * 2 + 1); c.get() }\nfn twice(x: i64) -> i64 { x * 2 }\n";

fn expr(src: &mut Src, x: &Vars, counter: &mut i64) -> Expr {
    let (a, b, v) = (x.a, x.b, &x.v);
    let n = v.len();
    let i = src.below(n);
    match src.weighted(&[6, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 4, 2, 2, 3, 2, 2, 2]) {
        0 => pure("a", a.to_string()),
        1 => pure("a + b", (a + b).to_string()),
        2 => pure("&v", format!("{v:?}")),
        3 => pure(format!("v[{i}]"), v[i].to_string()),
        4 => pure("s.len()", x.s.len().to_string()),
        5 => pure("&s", format!("{:?}", x.s)),
        6 => pure("(a, b)", format!("{:?}", (a, b))),
        7 => pure("twice(a)", (a * 2).to_string()),
        8 => pure("42", "42"),
        9 => pure("\"te\\nxt\"", "\"te\\nxt\""),
        10 => pure("vec![a, b, a]", format!("{:?}", vec![a, b, a])),
        11 => pure("std::cmp::max(a, b)", a.max(b).to_string()),
        12 => pure("if a > b { a } else { b }", a.max(b).to_string()),
        13 => pure("v.iter().map(|x| x * 2).collect::<Vec<i64>>()", format!("{:?}", v.iter().map(|x| x * 2).collect::<Vec<_>>())),
        14 => pure("Some(a)", format!("Some({a})")),
        15 => pure("&v[1..]", format!("{:?}", &v[1..])),
        16 => pure("P { x: a, y: v.clone() }", format!("P {{ x: {a}, y: {v:?} }}")),
        17 => pure("a as f64 / 2.0", format!("{:?}", a as f64 / 2.0)),
        18 => pure("'c'", "'c'"),
        19 => {
            *counter = *counter * 2 + 1;
            Expr { text: "next(&c)".into(), value: counter.to_string(), counts: true }
        }
        20 => pure("-a", (-a).to_string()),
        21 => pure("a < b", (a < b).to_string()),
        // owned values, used again afterwards
        22 => pure("s", format!("{:?}", x.s)),
        // references into values that live for the expression only
        23 => pure("v.clone().as_slice()", format!("{v:?}")),
        24 => pure("format!(\"{}-{}\", a, b).as_str()", format!("\"{a}-{b}\"")),
        _ => pure("v", format!("{v:?}")),
    }
}

struct Line {
    number: usize,
    items: Vec<Expr>,
}
struct Program {
    text: String,
    stderr: Vec<Line>,
    stdout: String,
}
fn generate(src: &mut Src, ctx: &mut Ctx) -> Program {
    let mut p = Program { text: String::new(), stderr: vec![], stdout: String::new() };
    // how the program names the macro
    let style = src.below(4);
    p.text.push_str(["", "use rust_cp::de;\n", "#[macro_use]\nextern crate rust_cp;\n", "use rust_cp::*;\n"][style]);
    let name = ["rust_cp::de", "de", "de", "de"][style];
    let single = ["rust_cp::debug_single", "rust_cp::debug_single", "debug_single", "debug_single"][style];
    ctx.label(["crate path", "use", "macro_use", "glob use"][style]);
    p.text.push_str(HEAD);
    let mut mains = vec![];
    let mut k = 0;
    loop {
        let vars = Vars {
            a: src.int(-1000, 1000) as i64,
            b: src.int(-1000, 1000) as i64,
            v: (0..1 + src.upto(3)).map(|_| src.int(-50, 50) as i64).collect(),
            s: (*src.pick(&["abc", "", "two words", "quo\\\"te", "{}", "日本"])).replace("\\\"", "\""),
        };
        let place = src.below(7);
        let nested = src.coin();
        p.text.push_str(&format!(
            "{}fn t{k}() {{\n{}let c = std::cell::Cell::new(0i64); let d = c.clone(); let (a, b) = ({}i64, {}i64); let v: Vec<i64> = vec!{:?}; let s = String::from({:?});\n",
            if nested { format!("mod m{k} {{ use super::*; pub ") } else { String::new() },
            if place == 0 { "\n" } else { "" },
            vars.a, vars.b, vars.v, vars.s
        ));
        let mut counter = 0;
        let mut single_counter = 0;
        let calls = 1 + src.weighted(&[3, 2, 1]);
        for _ in 0..calls {
            if src.prob(1, 6) {
                // the single-value macro passes its value on
                let mut e = expr(src, &vars, &mut counter.clone());
                if e.counts {
                    // evaluated in both builds, so it has a counter of its own
                    single_counter = single_counter * 2 + 1;
                    e = pure("next(&d)", single_counter.to_string());
                } else if ["s", "v"].contains(&e.text.as_str()) {
                    e.text.push_str(".clone()");
                } else if e.text.ends_with("as_slice()") || e.text.ends_with("as_str()") {
                    // (what is passed on has to outlive the expression)
                    e.text.push_str(".to_owned()");
                }
                let line = p.text.matches('\n').count() + 1;
                let comma = if src.coin() { "," } else { "" };
                p.text.push_str(&format!("eprint!(\"#{{}}\", line!()); let r = {single}!({}{comma}); eprintln!(); println!(\"{{:?}}\", r);\n", e.text));
                p.stdout.push_str(&format!("{}\n", e.value));
                p.stderr.push(Line { number: line, items: vec![e] });
                ctx.label("single");
                continue;
            }
            let n = src.weighted(&[2, 4, 3, 1, 1]);
            let comma = src.prob(1, 4) && n > 0;
            let loops = if place == 1 { src.upto(3) } else { 1 };
            // the same source text, evaluated once per iteration
            let mut items: Vec<Vec<Expr>> = vec![];
            let mut first = vec![];
            for _ in 0..n {
                let before = counter;
                let e = expr(src, &vars, &mut counter);
                if place == 1 && e.counts {
                    // keep loop bodies free of the counter
                    counter = before;
                    first.push(pure("a", vars.a.to_string()));
                } else {
                    first.push(e);
                }
            }
            for _ in 0..loops {
                items.push(first.iter().map(|e| pure(e.text.clone(), e.value.clone())).collect());
            }
            let list = first.iter().map(|e| e.text.clone()).collect::<Vec<_>>().join(", ");
            let call = format!("{name}!({list}{})", if comma { "," } else { "" });
            ctx.label_if(n == 0, "no argument");
            ctx.label_if(n > 1, "several arguments");
            let line = p.text.matches('\n').count() + 1;
            let (text, offset) = match place {
                1 => (format!("for _ in 0..{loops} {{ {call}; }}\n"), 0),
                2 => (format!("if a >= i64::MIN {{\n{call};\n}}\n"), 1),
                3 => (format!("let f = || {{ {call}; }}; f();\n"), 0),
                4 => (format!("match a {{ _ => {{ {call} }} }}\n"), 0),
                5 => (format!("{{ {call}; }}\n"), 0),
                6 => (format!("fn g(c: &std::cell::Cell<i64>, a: i64, b: i64, v: Vec<i64>, s: String) {{ let c = c.clone(); let _ = (&c, a, b, &v, &s); {call}; }} {{ c.set(0); g(&c, a, b, v.clone(), s.clone()); }}\n"), 0),
                _ => (format!("{call};\n"), 0),
            };
            if place == 6 || place == 3 {
                // each evaluation starts its own scope
                p.text.push_str(&format!("{{\n{text}}}\n"));
            } else {
                p.text.push_str(&text);
            }
            let shift = (place == 6 || place == 3) as usize;
            for it in items {
                p.stderr.push(Line { number: line + offset + shift, items: it });
            }
            if place == 6 {
                counter = 0;
            }
        }
        p.text.push_str(&format!("assert_eq!(d.get(), {single_counter});\n"));
        // the values again, after printing
        p.text.push_str("println!(\"{} {} {:?} {:?}\", a, b, v, s);\n");
        if place != 6 {
            p.text.push_str(&format!("if cfg!(debug_assertions) {{ assert_eq!(c.get(), {counter}); }}\n"));
        }
        p.text.push_str(if nested { "}}\n" } else { "}\n" });
        p.stdout.push_str(&format!("{} {} {:?} {:?}\n", vars.a, vars.b, vars.v, vars.s));
        mains.push(if nested { format!("m{k}::t{k}();") } else { format!("t{k}();") });
        k += 1;
        if !src.more(8) {
            break;
        }
    }
    p.text.push_str(&format!("fn main() {{ {} }}\n", mains.join(" ")));
    p
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// The line number first, then each source text followed by its value, in order.
fn check_line(got: &str, want: &Line) -> Result<(), String> {
    let digits = got.trim_start_matches(|c: char| !c.is_ascii_digit() && !c.is_alphanumeric());
    let number: String = digits.chars().take_while(|c| c.is_ascii_digit()).collect();
    if number != want.number.to_string() {
        return Err(format!("does not start with line number {}", want.number));
    }
    let mut rest = squeeze(&digits[number.len()..]);
    for e in &want.items {
        for part in [&e.text, &e.value] {
            let part = squeeze(part);
            let at = match rest.find(&part) {
                Some(at) if rest[..at].chars().all(|c| "=:,;#|->~".contains(c)) => at,
                _ => return Err(format!("expected {:?} = {:?} next, but the rest is {rest:?}", e.text, e.value)),
            };
            rest = rest[at + part.len()..].to_string();
        }
    }
    if rest.chars().any(|c| c.is_alphanumeric()) {
        return Err(format!("has more than the listed expressions: {rest:?}"));
    }
    Ok(())
}
fn scenario(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = generate(src, ctx);
    let edition = *src.pick(&["2021", "2018", "2024"]);
    ctx.note(|| format!("edition {edition}\n{}", p.text));
    ctx.nontrivial_if(p.stderr.iter().any(|l| l.items.len() >= 2));
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = scratch().join(format!("run.{}.{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    let r = compile_and_run(&p, edition, &dir, ctx);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn compile_and_run(p: &Program, edition: &str, dir: &Path, ctx: &mut Ctx) -> R {
    std::fs::write(dir.join("main.rs"), &p.text).unwrap();
    for (name, flags) in BUILDS {
        let lib = scratch().join(format!("librust_cp_{name}.rlib"));
        let exe = dir.join(name);
        let out = rustc()
            .arg(format!("--edition={edition}"))
            .arg(format!("--extern=rust_cp={}", lib.display()))
            .args(flags)
            .arg("-o")
            .arg(&exe)
            .arg(dir.join("main.rs"))
            .output()
            .expect("rustc");
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        if !out.status.success() {
            if out.status.code() != Some(1) || !err.contains("error") || err.contains("linking with") {
                eprintln!("ENGINE: rustc failed: {err}");
                std::process::exit(3);
            }
            let first: String = err.lines().filter(|l| !l.trim().is_empty()).take(8).collect::<Vec<_>>().join(" / ");
            return Err(Fail::from(format!("the program does not compile in the {name} build: {first}")));
        }
        let out = Command::new(&exe).output().expect("program");
        let (stdout, stderr) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
        ensure!(out.status.success(), "the program fails in the {name} build: {stderr}");
        ensure_eq!(stdout, p.stdout, "standard output in the {name} build");
        ctx.checks += 1;
        if name == "debug" {
            let lines: Vec<&str> = stderr.lines().collect();
            for (i, want) in p.stderr.iter().enumerate() {
                let got = lines.get(i).copied().unwrap_or("");
                if let Err(e) = check_line(got, want) {
                    return Err(Fail::from(format!("line {} of standard error in the debug build: {got:?} {e}", i + 1)));
                }
                ctx.checks += 1;
            }
            ensure_eq!(lines.len(), p.stderr.len(), "lines on standard error in the debug build");
        }
    }
    Ok(())
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), None | Some("--replay")) {
        build_crate();
    }
    engine::main(Property {
        id: "P34",
        facets: vec![Facet {
            shrink_runs: 120,
            ..Facet::random("programs", "generated programs of about 9 functions each, with macro calls of 0..4 expressions of 26 kinds (places, calls, owned values used again, blocks, side effects, ...) in seven kinds of places, the macro named in four ways, three editions; compiled by rustc against the crate and run in both builds: compiles, same standard output, and in the debug build exactly the expected lines on standard error and exactly one evaluation each; non-trivial: a call with two or more expressions", 240, 4000, scenario)
        }],
        assumptions: &["apart from the count checked in the debug build, results do not depend on side effects of the printed expressions", "values print on one line; one thread prints"],
    })
}

//! P30 the whitespace-separated reader against the token list the text was made from.
use engine::*;
use rust_cp::misc::input::In;
use std::fmt::Debug;
use std::str::FromStr;

/// All Unicode whitespace.
const SPACES: [char; 25] = [
    ' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
/// Not whitespace, although some look or sound like it.
const CHARS: [char; 30] = [
    'a', 'Z', '0', '-', '+', '.', ',', '_', '"', '\\', '/', '\0', '\u{1}', '\u{1b}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{180e}', '\u{200b}', '\u{200d}', '\u{2060}',
    '\u{feff}', 'é', 'ß', '日', '\u{301}', '😀', '\u{10ffff}', '\u{2800}', '\u{fffd}',
];
fn spaces(src: &mut Src, min: usize) -> String {
    let n = min + src.weighted(&[6, 2, 1, 1]);
    (0..n)
        .map(|_| {
            if src.prob(1, 3) {
                *src.pick(&SPACES)
            } else {
                *src.pick(&[' ', '\n', '\r', '\t'])
            }
        })
        .collect()
}
fn token(src: &mut Src) -> String {
    macro_rules! num {
        ($t:ty) => {{
            let v = src.int(<$t>::MIN as i128, (<$t>::MAX as u128).min(i128::MAX as u128) as i128);
            v.to_string()
        }};
    }
    match src.weighted(&[3, 3, 3, 3, 2, 2, 1, 1, 1, 2, 2, 1]) {
        0 => num!(i32),
        1 => num!(i64),
        2 => num!(usize),
        3 => {
            let n = 1 + src.size(0, 12);
            (0..n).map(|_| *src.pick(&CHARS)).collect()
        }
        4 => num!(i8),
        5 => num!(u8),
        6 => num!(i128),
        7 => format!("{:?}", src.int(-1_000_000, 1_000_000) as f64 / 64.0),
        8 => src.pick(&["true", "false", "NaN", "inf", "-0", "+5", "007", "1e9", "0x10", "1_000", "--1", "-", "+", "x", "2147483648", "-2147483649", "18446744073709551616", "9223372036854775808", "256", "-129"]).to_string(),
        9 => (1 + src.upto(20) as u64).to_string(),
        10 => {
            let n = 1 + src.size(0, 300);
            (0..n).map(|_| (b'a' + src.upto(25) as u8) as char).collect()
        }
        _ => src.pick(&CHARS).to_string(),
    }
}
/// What reading `tokens[pos]` as T must give: its parse, or a panic.
fn same<T: FromStr + Debug>(got: Result<T, String>, tok: Option<&String>, show: &str, eq: impl Fn(&T, &T) -> bool) -> Result<bool, Fail> {
    let want = tok.and_then(|t| t.parse::<T>().ok());
    match (got, want) {
        (Ok(g), Some(w)) => {
            if !eq(&g, &w) {
                return Err(Fail::from(format!("{show} of token {tok:?}: got {g:?}, expected {w:?}")));
            }
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (Ok(g), None) => Err(Fail::from(format!("{show} of {tok:?} (missing or malformed) gives {g:?} instead of panicking"))),
        (Err(e), Some(w)) => Err(Fail::from(format!("{show} of token {tok:?}: panicked ({e}), expected {w:?}"))),
    }
}

fn scenario(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 14);
    let mut text = spaces(src, 0);
    let mut tokens = vec![];
    for i in 0..n {
        let t = token(src);
        text.push_str(&t);
        tokens.push(t);
        text.push_str(&spaces(src, (i + 1 < n) as usize));
    }
    ctx.note(|| format!("text {text:?}"));
    let mut input = In::new(&text);
    let mut pos = 0;
    let (mut kinds, mut steps) = (0u32, 0);
    let max_steps = n + 4;
    loop {
        let tok = tokens.get(pos);
        steps += 1;
        // a fitting kind of read most of the time
        let mut kind = src.below(22);
        let mut opt = src.prob(1, 3);
        if src.prob(3, 4) {
            if let Some(t) = tok {
                let fits: &[usize] = if t.parse::<u8>().is_ok() {
                    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19]
                } else if t.parse::<i32>().is_ok() {
                    &[0, 1, 3, 4, 6, 9, 13, 14, 15, 16]
                } else if t.parse::<i64>().is_ok() {
                    &[1, 4, 6, 9, 14, 15]
                } else if t.parse::<usize>().is_ok() {
                    &[2, 5, 7, 9, 16]
                } else {
                    &[9, 13, 14, 15]
                };
                kind = *src.pick(fits);
            } else {
                opt = true;
            }
        }
        kinds |= 1 << kind;
        macro_rules! typed {
            ($t:ty) => { typed!($t, |a: &$t, b: &$t| a == b) };
            ($t:ty, $eq:expr) => {{
                if opt {
                    let show = format!("checked_read::<{}>", stringify!($t));
                    ctx.note(|| show.clone());
                    if tok.is_none() {
                        match catch(|| input.checked_read::<$t>()) {
                            Ok(None) => {}
                            x => return Err(Fail::from(format!("{show} with no token left gives {x:?}, expected None"))),
                        }
                        ctx.label("optional read at the end");
                        ctx.checks += 1;
                        if steps >= max_steps { break }
                        continue;
                    }
                    let got = match catch(|| input.checked_read::<$t>()) {
                        Ok(Some(v)) => Ok(v),
                        Ok(None) => return Err(Fail::from(format!("{show} of token {tok:?} gives None"))),
                        Err(e) => Err(e),
                    };
                    same(got, tok, &show, $eq)?
                } else {
                    let show = format!("read::<{}>", stringify!($t));
                    ctx.note(|| show.clone());
                    same(catch(|| input.read::<$t>()), tok, &show, $eq)?
                }
            }};
        }
        macro_rules! vec {
            ($t:ty) => {{
                let k = src.size(0, n + 1 - pos.min(n));
                ctx.note(|| format!("vec::<{}>({k})", stringify!($t)));
                let got = catch(|| input.vec::<$t>(k));
                let want: Option<Vec<$t>> = if pos + k <= n { tokens[pos..pos + k].iter().map(|t| t.parse().ok()).collect() } else { None };
                match (got, want) {
                    (Ok(g), Some(w)) => {
                        ensure_eq!(g, w, "vec::<{}>({k}) of tokens {:?}", stringify!($t), &tokens[pos..pos + k]);
                        ctx.label_if(k >= 2, "vector read");
                        pos += k;
                        ctx.checks += 1;
                        if steps >= max_steps { break }
                        continue;
                    }
                    (Err(_), None) => false,
                    (Ok(g), None) => return Err(Fail::from(format!("vec::<{}>({k}) of {:?} (too short or malformed) gives {g:?}", stringify!($t), &tokens[pos.min(n)..]))),
                    (Err(e), Some(w)) => return Err(Fail::from(format!("vec::<{}>({k}): panicked ({e}), expected {w:?}", stringify!($t)))),
                }
            }};
        }
        let ok = match kind {
            0 => typed!(i32),
            1 => typed!(i64),
            2 => typed!(usize),
            3 => { ctx.note(|| "i32()".into()); same(catch(|| input.i32()), tok, "i32()", |a, b| a == b)? }
            4 => { ctx.note(|| "i64()".into()); same(catch(|| input.i64()), tok, "i64()", |a, b| a == b)? }
            5 => { ctx.note(|| "usize()".into()); same(catch(|| input.usize()), tok, "usize()", |a, b| a == b)? }
            6 => typed!(i128),
            7 => typed!(u64),
            8 => typed!(u8),
            9 => typed!(String),
            10 => typed!(i8),
            11 => typed!(char),
            12 => typed!(bool),
            13 => {
                ctx.note(|| "bytes()".into());
                match (catch(|| input.bytes()), tok) {
                    (Ok(b), Some(t)) => { ensure_eq!(b, t.as_bytes().to_vec(), "bytes() of token {t:?}"); true }
                    (Err(_), None) => false,
                    x => return Err(Fail::from(format!("bytes() gives {x:?}"))),
                }
            }
            14 => {
                ctx.note(|| "chars()".into());
                match (catch(|| input.chars()), tok) {
                    (Ok(b), Some(t)) => { ensure_eq!(b.iter().collect::<String>(), *t, "chars() of token {t:?}"); true }
                    (Err(_), None) => false,
                    x => return Err(Fail::from(format!("chars() gives {x:?}"))),
                }
            }
            15 => vec!(String),
            16 => typed!(f64, |a, b| a.to_bits() == b.to_bits()),
            17 => vec!(i64),
            18 => vec!(usize),
            19 => vec!(i32),
            20 => vec!(u8),
            _ => typed!(u128),
        };
        ctx.checks += 1;
        if !ok {
            ctx.label("refused by a panic");
            ctx.label_if(tok.is_some(), "malformed token refused");
            break;
        }
        pos += 1;
        if steps >= max_steps {
            break;
        }
    }
    ctx.label_if(pos == n, "read to the end");
    ctx.nontrivial_if(pos >= 3 && kinds.count_ones() >= 3);
    Ok(())
}
/// All texts over a small alphabet of token characters and spaces.
const ALPHA: [char; 5] = ['7', '-', ' ', '\n', '\u{3000}'];
fn small_total(t: bool) -> u64 {
    let len = if t { 9 } else { 8 };
    (0..=len).map(|k| 5u64.pow(k)).sum()
}
fn small(mut i: u64, ctx: &mut Ctx) -> R {
    let mut len = 0;
    while i >= 5u64.pow(len) {
        i -= 5u64.pow(len);
        len += 1;
    }
    let text: String = (0..len).map(|k| ALPHA[(i / 5u64.pow(k) % 5) as usize]).collect();
    ctx.note(|| format!("text {text:?}"));
    // tokens by hand
    let mut tokens = vec![String::new()];
    for c in text.chars() {
        if c == '7' || c == '-' {
            tokens.last_mut().unwrap().push(c);
        } else {
            tokens.push(String::new());
        }
    }
    tokens.retain(|t| !t.is_empty());
    let mut input = In::new(&text);
    for t in &tokens {
        ensure_eq!(input.checked_read::<String>(), Some(t.clone()), "next token of {text:?}");
    }
    for _ in 0..2 {
        ensure_eq!(input.checked_read::<String>(), None, "after the last token of {text:?}");
    }
    let mut input = In::new(&text);
    let all: Vec<String> = input.vec(tokens.len());
    ensure_eq!(all, tokens, "vec of all tokens of {text:?}");
    let mut input = In::new(&text);
    for (k, t) in tokens.iter().enumerate() {
        if k % 2 == 0 {
            ensure_eq!(input.bytes(), t.as_bytes().to_vec(), "bytes of token {k} of {text:?}");
        } else {
            ensure_eq!(input.chars(), t.chars().collect::<Vec<_>>(), "chars of token {k} of {text:?}");
        }
    }
    ensure!(input.checked_read::<i64>().is_none(), "after the last token of {text:?} there is another");
    ctx.checks += 3 * tokens.len() as u64 + 3;
    ctx.nontrivial_if(tokens.len() >= 2);
    Ok(())
}

/// Long inputs: tens of thousands of tokens, long words, long runs of whitespace.
fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(100, if src.thorough { 600_000 } else { 150_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let lines = src.upto(2);
    ctx.note(|| format!("{n} tokens, layout {lines}, seed {seed}"));
    let mut r = Rng::new(&[seed]);
    let mut text = String::new();
    let mut tokens: Vec<String> = Vec::with_capacity(n);
    let mut nums: Vec<Option<i64>> = Vec::with_capacity(n);
    for i in 0..n {
        let t = match r.upto(40) {
            0 => (0..1 + r.upto(30)).map(|_| CHARS[r.upto(29) as usize]).collect(),
            1 if r.upto(n as u128 / 3) == 0 => (0..66_000 + r.upto(9000)).map(|_| (b'a' + r.upto(25) as u8) as char).collect(),
            2 if r.upto(n as u128 / 30) == 0 => (0..1u128 << r.upto(16)).map(|_| CHARS[r.upto(29) as usize]).collect(),
            x => {
                let v = (r.next() as i64) >> (x + 23);
                v.to_string()
            }
        };
        nums.push(t.parse().ok());
        text.push_str(&t);
        tokens.push(t);
        match lines {
            0 => text.push('\n'),
            1 => text.push_str(if i % 10 == 9 { "\r\n" } else { " " }),
            _ => (0..1 + r.upto(2)).for_each(|_| text.push(SPACES[r.upto(24) as usize])),
        }
        if r.upto(n as u128) == 0 {
            text.extend(std::iter::repeat(' ').take(66_000));
        }
    }
    let mut input = In::new(&text);
    let mut pos = 0;
    while pos < n {
        // a run of numbers as a vector, or single reads
        let run = nums[pos..].iter().take_while(|x| x.is_some()).count();
        match r.upto(5) {
            0 | 1 if run > 0 => {
                let k = if r.upto(3) == 0 { run } else { r.upto(run as u128) as usize };
                let got: Vec<i64> = input.vec(k);
                ensure_eq!(got.len(), k, "length of vec({k}) at token {pos}");
                for j in 0..k {
                    ensure_eq!(got[j], nums[pos + j].unwrap(), "element {j} of vec({k}) at token {pos}");
                }
                pos += k;
            }
            2 => {
                let k = r.upto((n - pos).min(2000) as u128) as usize;
                let got: Vec<String> = input.vec(k);
                ensure_eq!(got, tokens[pos..pos + k].to_vec(), "vec::<String>({k}) at token {pos}");
                pos += k;
            }
            3 => {
                ensure_eq!(input.bytes(), tokens[pos].as_bytes().to_vec(), "bytes of token {pos}");
                pos += 1;
            }
            4 => {
                ensure_eq!(input.chars().into_iter().collect::<String>(), tokens[pos], "chars of token {pos}");
                pos += 1;
            }
            _ => match nums[pos] {
                Some(x) => {
                    ensure_eq!(input.checked_read::<i64>(), Some(x), "token {pos}");
                    pos += 1;
                }
                None => {
                    ensure_eq!(input.checked_read::<String>(), Some(tokens[pos].clone()), "token {pos}");
                    pos += 1;
                }
            },
        }
        ctx.checks += 1;
    }
    ensure_eq!(input.checked_read::<String>(), None, "after the last token");
    let mut input = In::new(&text);
    let all: Vec<String> = input.vec(n);
    ensure!(all == tokens, "vec of all {n} tokens: differs first at {:?}", (0..n.min(all.len())).find(|&i| all[i] != tokens[i]));
    ctx.nontrivial_if(true);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P30",
        facets: vec![
            Facet::exhaustive("small", "every text of up to 8 (9 thorough) characters over two token characters and three kinds of whitespace, read as strings, bytes, characters and a vector; non-trivial: two or more tokens", small_total, small),
            Facet::random("mixed", "texts of up to 14 tokens (numbers of all types and their limits, malformed numbers, arbitrary Unicode without whitespace, long words) separated and surrounded by any Unicode whitespace, consumed by a random mixture of reads, most of them fitting, up to the first refusal; non-trivial: at least 3 tokens read through at least 3 kinds of read", 3_000_000, 40_000_000, scenario),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "100..150000 (thorough: 600000) tokens in three layouts, words of more than 65,536 letters and of as many arbitrary characters, runs of as many spaces, read as vectors of up to all tokens and one by one; all non-trivial", 160, 2000, large) },
        ],
        assumptions: &["whitespace is Unicode White_Space", "after a read has panicked the reader is not used any more"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

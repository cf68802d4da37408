//! P17 Aho-Corasick against comparing every pattern at every position.
use engine::*;
use rust_cp::string::aho_corasick::AhoCorasick;

fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).escape_debug().to_string()
}
/// Ids of the patterns ending at each position, ascending.
fn ending(pats: &[Vec<u8>], text: &[u8]) -> Vec<Vec<usize>> {
    (0..text.len())
        .map(|i| (0..pats.len()).filter(|&k| text[..=i].ends_with(&pats[k])).collect())
        .collect()
}
fn compare<const O: u8, const N: usize>(a: &AhoCorasick<O, N>, pats: &[Vec<u8>], text: &[u8], ctx: &mut Ctx) -> R {
    let want = ending(pats, text);
    let mut got = a.find_all(text);
    got.iter_mut().for_each(|v| v.sort());
    ensure_eq!(got, want, "find_all(\"{}\") (ids sorted per position)", show(text));
    let mut cnt = vec![0; pats.len()];
    want.iter().flatten().for_each(|&k| cnt[k] += 1);
    ensure_eq!(a.find_cnt(text), cnt, "find_cnt(\"{}\")", show(text));
    let one = a.find(text);
    ensure_eq!(one.len(), text.len(), "length of find(\"{}\")", show(text));
    for i in 0..text.len() {
        let longest = want[i].iter().map(|&k| pats[k].len()).max();
        match one[i] {
            None => ensure!(longest.is_none(), "find(\"{}\")[{i}] is None, but patterns {:?} end there", show(text), want[i]),
            Some(k) => ensure!(
                want[i].contains(&k) && Some(pats[k].len()) == longest,
                "find(\"{}\")[{i}] is pattern {k}, the longest ending there has length {longest:?}, all ending there: {:?}", show(text), want[i]
            ),
        }
    }
    ctx.checks += 3 * text.len() as u64;
    let several = want.iter().any(|v| v.len() > 1);
    ctx.label_if(several, "several patterns end at one position");
    // the longest prefix of a pattern ending here is not a pattern, but something shorter is
    let hidden = (0..text.len()).any(|i| {
        let state = (0..=i + 1).rev().find(|&l| pats.iter().any(|p| p.starts_with(&text[i + 1 - l..=i]))).unwrap_or(0);
        !want[i].is_empty() && want[i].iter().all(|&k| pats[k].len() < state)
    });
    ctx.label_if(hidden, "match inside a longer partial match");
    ctx.nontrivial_if(several || hidden);
    Ok(())
}

fn run<const O: u8, const N: usize>(src: &mut Src, ctx: &mut Ctx, name: &'static str) -> R {
    ctx.label(name);
    // a few letters of the alphabet, its ends included
    let k = 1 + src.weighted(&[1, 5, 3, 1]).min(N - 1);
    let mut letters: Vec<u8> = vec![];
    for j in 0..k {
        let l = match j {
            0 => 0,
            1 => N - 1,
            _ => src.below(N),
        };
        letters.push(O + l as u8);
    }
    let base: Vec<u8> = (0..src.size(0, 24)).map(|_| *src.pick(&letters)).collect();
    let np = src.size(0, 9);
    let mut pats: Vec<Vec<u8>> = vec![];
    for _ in 0..np {
        let p = match src.weighted(&[3, 4, 1, 1]) {
            1 if !base.is_empty() => {
                let l = src.below(base.len());
                let len = 1 + src.upto(7.min(base.len() - l - 1));
                base[l..l + len].to_vec()
            }
            2 if !pats.is_empty() => src.pick(&pats).clone(),
            3 if !pats.is_empty() => {
                // extend an earlier pattern on either side
                let mut p = src.pick(&pats).clone();
                let c = *src.pick(&letters);
                if src.coin() { p.push(c) } else { p.insert(0, c) }
                p
            }
            _ => {
                let len = 1 + src.weighted(&[4, 4, 3, 2, 1, 1]);
                (0..len).map(|_| *src.pick(&letters)).collect()
            }
        };
        pats.push(p);
    }
    let by_insert = src.coin();
    ctx.note(|| format!("{name}: patterns {:?}, {}", pats.iter().map(|p| show(p)).collect::<Vec<_>>(), if by_insert { "inserted in some order" } else { "from()" }));
    let a: AhoCorasick<O, N> = if by_insert {
        let mut a = AhoCorasick::new(np);
        for i in src.perm(np) {
            ctx.note(|| format!("insert pattern {i}"));
            a.insert(&pats[i], i);
        }
        a.build();
        a
    } else {
        AhoCorasick::from(&pats.iter().map(|p| &p[..]).collect::<Vec<_>>())
    };
    let dup = (0..np).any(|i| pats[..i].contains(&pats[i]));
    ctx.label_if(dup, "repeated patterns");
    ctx.label_if(np == 0, "no patterns");
    for _ in 0..1 + src.upto(1) {
        let mut text = vec![];
        while src.more(8) {
            match src.weighted(&[3, 3, 2]) {
                1 if np > 0 => text.extend_from_slice(&src.pick(&pats)[..]),
                2 if !base.is_empty() => {
                    let l = src.below(base.len());
                    text.extend_from_slice(&base[l..]);
                }
                _ => text.push(*src.pick(&letters)),
            }
        }
        text.truncate(80);
        ctx.note(|| format!("text \"{}\"", show(&text)));
        compare(&a, &pats, &text, ctx)?;
    }
    Ok(())
}
fn small(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[5, 1, 2, 1, 1, 1]) {
        0 => run::<b'a', 26>(src, ctx, "alphabet a-z"),
        1 => run::<b'a', 1>(src, ctx, "one letter"),
        2 => run::<b'0', 2>(src, ctx, "alphabet 0-1"),
        3 => run::<b'0', 10>(src, ctx, "alphabet 0-9"),
        4 => run::<0, 256>(src, ctx, "all bytes"),
        _ => run::<b'A', 58>(src, ctx, "alphabet A-z"),
    }
}

/// All sets of up to three patterns of length up to 3 over two letters, on a text that contains
/// every word of length 4 (a de Bruijn sequence, twice).
fn words() -> Vec<Vec<u8>> {
    let mut w = vec![];
    for len in 1..=3u32 {
        for x in 0..1u32 << len {
            w.push((0..len).map(|i| b'a' + (x >> i & 1) as u8).collect());
        }
    }
    w
}
fn total(th: bool) -> u64 {
    15u64.pow(if th { 4 } else { 3 })
}
fn exhaustive(mut i: u64, ctx: &mut Ctx) -> R {
    let w = words();
    let mut pats = vec![];
    while i > 0 {
        if i % 15 > 0 {
            pats.push(w[(i % 15 - 1) as usize].clone());
        }
        i /= 15;
    }
    ctx.note(|| format!("patterns {:?}", pats.iter().map(|p| show(p)).collect::<Vec<_>>()));
    let a: AhoCorasick<b'a', 2> = AhoCorasick::from(&pats.iter().map(|p| &p[..]).collect::<Vec<_>>());
    compare(&a, &pats, b"aaaabaabbababbbbaaaabaabbababbbb", ctx)
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let np = src.size(10, 300);
    let tl = src.size(100, if src.thorough { 60_000 } else { 6000 });
    let k = 1 + src.upto(3) as u128;
    let maxlen = *src.pick(&[6u128, 30, 100]);
    let seed = src.upto(usize::MAX >> 1) as u64;
    ctx.note(|| format!("{np} patterns of length up to {maxlen}, text of length {tl}, {k} letters, seed {seed}"));
    let mut r = Rng::new(&[seed]);
    let mut text: Vec<u8> = (0..tl).map(|_| b'a' + r.upto(k - 1) as u8).collect();
    let period = 1 + r.upto(9) as usize;
    if r.upto(1) == 0 {
        for i in period..tl {
            if r.upto(60) > 0 {
                text[i] = text[i - period];
            }
        }
    }
    let mut pats: Vec<Vec<u8>> = vec![];
    for i in 0..np {
        let len = (1 + r.upto(maxlen - 1) as usize).min(tl);
        let l = r.upto((tl - len) as u128) as usize;
        let mut p = text[l..l + len].to_vec();
        if r.upto(3) == 0 {
            let j = r.upto(len as u128 - 1) as usize;
            p[j] = b'a' + r.upto(k) as u8;
        }
        if i > 0 && r.upto(20) == 0 {
            p = pats[i - 1].clone();
        }
        pats.push(p);
    }
    let a: AhoCorasick = AhoCorasick::from(&pats.iter().map(|p| &p[..]).collect::<Vec<_>>());
    let want = ending(&pats, &text);
    let mut got = a.find_all(&text);
    got.iter_mut().for_each(|v| v.sort());
    for i in 0..tl {
        ensure_eq!(got[i], want[i], "patterns ending at {i}");
    }
    let mut cnt = vec![0; np];
    want.iter().flatten().for_each(|&k| cnt[k] += 1);
    ensure_eq!(a.find_cnt(&text), cnt, "find_cnt");
    let one = a.find(&text);
    for i in 0..tl {
        let longest = want[i].iter().map(|&k| pats[k].len()).max();
        ensure!(one[i].map(|k| pats[k].len()) == longest && one[i].map(|k| want[i].contains(&k)).unwrap_or(true), "find()[{i}] is {:?}, ending there: {:?}", one[i], want[i]);
    }
    ctx.checks += 3 * tl as u64;
    ctx.nontrivial_if(want.iter().any(|v| v.len() > 1));
    Ok(())
}

/// Tens of thousands of patterns, trie nodes and text positions. The lengths are few, so that all
/// occurrences follow from a table of the patterns by hash (and a comparison).
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    use std::collections::BTreeMap;
    let fam = src.upto(3);
    let tl = src.size(66_000, if src.thorough { 400_000 } else { 140_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let k = *src.pick(&[26u128, 2, 4]);
    let lens: Vec<usize> = match fam {
        0 => vec![1, 2, 3, 4, 5, 6, 8, 11],
        1 => vec![2, 7, 60, 400],
        2 => vec![3, 5, 66_000, 70_000.min(tl)],
        _ => vec![4, 5],
    };
    let nodes = match fam { 0 => 250_000, 3 => 700_000, _ => 200_000 };
    ctx.note(|| format!("lengths {lens:?}, total {nodes}, text of length {tl}, {k} letters, seed {seed}"));
    ctx.label(["many short patterns", "medium lengths", "very long patterns", "above 65536 patterns"][fam]);
    let mut r = Rng::new(&[seed]);
    let text: Vec<u8> = (0..tl).map(|_| b'a' + r.upto(k - 1) as u8).collect();
    let mut pats: Vec<Vec<u8>> = vec![];
    let mut sum = 0;
    while sum < nodes {
        let len = lens[r.upto(lens.len() as u128 - 1) as usize].min(tl);
        let mut p: Vec<u8> = if fam == 3 {
            (0..len).map(|_| b'a' + r.upto(k - 1) as u8).collect()
        } else {
            let l = r.upto((tl - len) as u128) as usize;
            text[l..l + len].to_vec()
        };
        if r.upto(9) == 0 {
            let j = r.upto(len as u128 - 1) as usize;
            p[j] = b'a' + r.upto(25) as u8;
        }
        sum += len;
        pats.push(p);
    }
    // few repetitions, so that the occurrences stay in proportion
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    pats.retain(|p| {
        let c = seen.entry(p.clone()).or_insert(0);
        *c += 1;
        *c <= 2
    });
    drop(seen);
    let np = pats.len();
    let a: AhoCorasick = AhoCorasick::from(&pats.iter().map(|p| &p[..]).collect::<Vec<_>>());
    let mut want: Vec<Vec<usize>> = vec![vec![]; tl];
    for (j, &len) in lens.iter().enumerate() {
        if lens[..j].contains(&len) {
            continue;
        }
        let mut table: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        const B: u64 = 0x9E37_79B9_7F4A_7C15;
        let h = |w: &[u8]| w.iter().fold(0u64, |x, &c| x.wrapping_mul(B).wrapping_add(c as u64 * 0xD1B5_4A32));
        for i in (0..np).filter(|&i| pats[i].len() == len) {
            table.entry(h(&pats[i])).or_default().push(i);
        }
        if table.is_empty() || len > tl {
            continue;
        }
        let top = (1..len).fold(1u64, |x, _| x.wrapping_mul(B));
        let mut cur = h(&text[..len]);
        for end in len - 1..tl {
            if let Some(c) = table.get(&cur) {
                want[end].extend(c.iter().copied().filter(|&i| pats[i] == text[end + 1 - len..=end]));
            }
            if end + 1 < tl {
                cur = cur.wrapping_sub((text[end + 1 - len] as u64 * 0xD1B5_4A32).wrapping_mul(top)).wrapping_mul(B).wrapping_add(text[end + 1] as u64 * 0xD1B5_4A32);
            }
        }
    }
    want.iter_mut().for_each(|v| v.sort());
    let mut got = a.find_all(&text);
    got.iter_mut().for_each(|v| v.sort());
    ensure_eq!(got.len(), tl, "length of find_all");
    for i in 0..tl {
        ensure_eq!(got[i], want[i], "patterns ending at {i}");
    }
    let mut cnt = vec![0; np];
    want.iter().flatten().for_each(|&k| cnt[k] += 1);
    let c = a.find_cnt(&text);
    ensure_eq!(c.len(), np, "length of find_cnt");
    for i in 0..np {
        ensure_eq!(c[i], cnt[i], "find_cnt: pattern {i}");
    }
    let one = a.find(&text);
    ensure_eq!(one.len(), tl, "length of find");
    for i in 0..tl {
        let longest = want[i].iter().map(|&k| pats[k].len()).max();
        ensure!(one[i].map(|k| pats[k].len()) == longest && one[i].map(|k| want[i].contains(&k)).unwrap_or(true), "find()[{i}] is {:?}, ending there: {:?}", one[i], want[i]);
    }
    ctx.checks += 3 * tl as u64;
    ctx.nontrivial_if(want.iter().any(|v| v.len() > 1));
    Ok(())
}

/// One automaton asked tens of thousands of times.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    long(
        src,
        ctx,
        80_000,
        |src, ctx| {
            let w = |src: &mut Src| -> Vec<u8> { (0..1 + src.upto(3)).map(|_| b'a' + src.upto(1) as u8).collect() };
            let pats: Vec<Vec<u8>> = (0..1 + src.upto(5)).map(|_| w(src)).collect();
            ctx.note(|| format!("patterns {:?}", pats.iter().map(|p| show(p)).collect::<Vec<_>>()));
            let a = <AhoCorasick>::from(&pats.iter().map(|p| &p[..]).collect::<Vec<_>>());
            (a, pats)
        },
        |(a, pats), src, ctx| {
            let text: Vec<u8> = (0..src.upto(5)).map(|_| b'a' + src.upto(1) as u8).collect();
            compare(a, pats, &text, ctx)
        },
    )?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P17",
        facets: vec![
            Facet::random("small", "0..9 patterns over 1..4 letters of six alphabets: factors of a common word, extensions and copies of each other; built by from() or by insertions in any order; texts made of patterns, letters and the common word; non-trivial: a position where several patterns end, or a match inside a longer partial match", 1_600_000, 16_000_000, small),
            Facet::exhaustive("all small sets", "every list of up to three (thorough: four) patterns of length up to 3 over two letters, on a text with every word of length 4; non-trivial as above", total, exhaustive),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "10..300 patterns of length up to 100, texts of up to 6000 letters, random and almost periodic; non-trivial: a position where several patterns end", 300, 5000, large) },
            Facet { fuel: 200_000_000_000, shrink_runs: 60, ..Facet::random("huge", "texts of 66000..140000 (thorough: 400000) letters, up to 170,000 patterns or patterns of up to 70,000 letters, tries of more than 65,536 nodes; against a table of the patterns by hash and comparison; non-trivial: a position where several patterns end", 16, 100, huge) },
            Facet { fuel: 200_000_000_000, shrink_runs: 100, ..Facet::random("long", "one automaton over up to 6 short patterns asked up to 80000 times, three ways; non-trivial: more than 65536 steps", 32, 320, many) },
        ],
        assumptions: &["patterns are non-empty, patterns and texts are over the configured alphabet, build() follows all insertions"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! P02 min-heap against a sorted multiset.
use engine::*;
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;

/// Ordered by key only: equal keys with different ids are different items.
#[derive(Clone, Debug)]
struct Item {
    key: i64,
    id: u64,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.key.cmp(&o.key)
    }
}
/// Sorted by (key, id).
type Model = Vec<(i64, u64)>;
fn add(m: &mut Model, k: i64, id: u64) {
    let p = m.partition_point(|x| *x < (k, id));
    m.insert(p, (k, id));
}
fn take(m: &mut Model, it: &Item, what: &str) -> R {
    ensure!(!m.is_empty(), "{what} delivered {it:?} from an empty heap");
    ensure_eq!(it.key, m[0].0, "key delivered by {what}");
    match m.iter().position(|x| *x == (it.key, it.id)) {
        Some(p) => {
            m.remove(p);
            Ok(())
        }
        None => Err(format!("{what} delivered {it:?}, which is not in the heap").into()),
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut h: Vec<MinHeap<Item>> = vec![];
    for _ in 0..2 {
        h.push(if src.coin() { MinHeap::with_capacity(src.size(0, 64)) } else { MinHeap::new() });
    }
    let mut m: [Model; 2] = [vec![], vec![]];
    let mean = *src.pick(&[6usize, 20, 60, 150]);
    let range = *src.pick(&[3i128, 20, 1 << 40, i64::MAX as i128]);
    let push_bias = *src.pick(&[6u32, 3, 12]);
    let mut id = 0;
    let (mut dup_pop, mut appended, mut pops) = (false, false, 0);
    while src.more(mean) {
        let a = src.weighted(&[3, 1]);
        let op = src.weighted(&[push_bias, 4, 2, 1, 1, 1, 1]);
        match op {
            0 => {
                let k = src.int(-range, range) as i64;
                id += 1;
                ctx.note(|| format!("h{a}.push(key {k}, id {id})"));
                h[a].push(Item { key: k, id });
                add(&mut m[a], k, id);
            }
            1 => {
                ctx.note(|| format!("h{a}.pop()"));
                dup_pop |= m[a].len() > 1 && m[a][0].0 == m[a][1].0;
                match h[a].pop() {
                    None => ensure!(m[a].is_empty(), "pop() gave nothing, the heap should hold {:?}", m[a]),
                    Some(it) => {
                        take(&mut m[a], &it, "pop()")?;
                        pops += 1;
                    }
                }
            }
            2 => {
                ctx.note(|| format!("h{a}.peek()"));
                match h[a].peek() {
                    None => ensure!(m[a].is_empty(), "peek() gave nothing, the heap should hold {:?}", m[a]),
                    Some(it) => take(&mut m[a].clone(), it, "peek()")?,
                }
            }
            3 => {
                ctx.note(|| format!("h{a}.len(), is_empty()"));
                ensure_eq!(h[a].len(), m[a].len(), "len()");
                ensure_eq!(h[a].is_empty(), m[a].is_empty(), "is_empty()");
            }
            4 => {
                ctx.note(|| format!("h{a}.append(h{})", 1 - a));
                let (x, y) = h.split_at_mut(1);
                let (x, y) = if a == 0 { (&mut x[0], &mut y[0]) } else { (&mut y[0], &mut x[0]) };
                x.append(y);
                appended |= !m[0].is_empty() && !m[1].is_empty();
                let mv = std::mem::take(&mut m[1 - a]);
                for (k, i) in mv {
                    add(&mut m[a], k, i);
                }
                ensure_eq!(h[1 - a].len(), 0, "len() of the appended heap");
                ensure!(h[1 - a].is_empty(), "the appended heap is not empty");
            }
            5 => {
                if src.prob(1, 3) {
                    ctx.note(|| format!("h{a}.clear()"));
                    h[a].clear();
                    m[a].clear();
                    ensure!(h[a].is_empty(), "not empty after clear()");
                }
            }
            _ => {
                ctx.note(|| format!("h{a} = MinHeap::new(), old one into_sorted_vec()"));
                let old = std::mem::replace(&mut h[a], MinHeap::new());
                sorted(old, std::mem::take(&mut m[a]))?;
                ctx.label("sorted mid-history");
            }
        }
        ensure_eq!(h[a].len(), m[a].len(), "len() after the step");
        ctx.checks += 2;
    }
    ctx.note(|| "drain h0, h1.into_sorted_vec()".into());
    let mut h0 = h.remove(0);
    let h1 = h.remove(0);
    let big = m[0].len();
    while let Some(it) = h0.pop() {
        take(&mut m[0], &it, "pop()")?;
        ctx.checks += 1;
    }
    ensure!(m[0].is_empty(), "drained heap lost {:?}", m[0]);
    let [_, m1] = m;
    ctx.label_if(m1.len() > 1, "sorts more than one item");
    sorted(h1, m1)?;
    ctx.label_if(dup_pop, "pop among equal keys");
    ctx.label_if(appended, "append of two non-empty heaps");
    ctx.label_if(big >= 8, "drains 8 or more");
    ctx.nontrivial_if(pops >= 2 && big >= 2);
    Ok(())
}
fn sorted(h: MinHeap<Item>, m: Model) -> R {
    let v = h.into_sorted_vec();
    ensure_eq!(v.len(), m.len(), "length of into_sorted_vec()");
    let keys: Vec<i64> = v.iter().map(|i| i.key).collect();
    let mut want: Vec<i64> = m.iter().map(|x| x.0).collect();
    want.reverse();
    ensure_eq!(keys, want, "keys of into_sorted_vec() (reverse pop order)");
    let mut got: Vec<(i64, u64)> = v.iter().map(|i| (i.key, i.id)).collect();
    got.sort();
    ensure_eq!(got, m, "items of into_sorted_vec()");
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(500, if src.thorough { 500_000 } else { 100_000 });
    let seed = src.upto(usize::MAX >> 1) as u64;
    let range = *src.pick(&[10u128, 100_000, u64::MAX as u128]);
    let interleave = src.coin();
    let sort = src.prob(1, 4);
    // part of the items go to a second heap, which is appended (either way round) now and then
    let other_share = *src.pick(&[0u128, 1, 10, 50, 99]);
    let joins = src.uni(1, 3) as usize;
    let swap = src.coin();
    ctx.note(|| format!("{n} pushes of keys 0..={range} from seed {seed}, {other_share} % to a second heap, appended {joins} times (swapped: {swap}), interleaved pops: {interleave}, ends in into_sorted_vec: {sort}"));
    ctx.label_if(other_share > 0, "second heap");
    ctx.nontrivial_if(true);
    let mut r = Rng::new(&[seed]);
    let mut h: MinHeap<(u64, String)> = if src.coin() { MinHeap::new() } else { MinHeap::with_capacity(src.size(0, n)) };
    let mut g: MinHeap<(u64, String)> = MinHeap::new();
    let (mut in_g, mut apart) = (0, std::collections::BTreeMap::<(u64, String), usize>::new());
    let mut m = std::collections::BTreeMap::<(u64, String), usize>::new();
    for i in 0..n {
        let k = (r.upto(range) as u64, format!("{}", r.upto(3)));
        if r.upto(99) < other_share {
            g.push(k.clone());
            *apart.entry(k).or_default() += 1;
            in_g += 1;
        } else {
            h.push(k.clone());
            *m.entry(k).or_default() += 1;
        }
        if interleave && i % 3 == 2 {
            pop_check(&mut h, &mut m)?;
        }
        if (i + 1) % n.div_ceil(joins) == 0 || i + 1 == n {
            let want = h.len() + in_g;
            if swap {
                g.append(&mut h);
                std::mem::swap(&mut g, &mut h);
            } else {
                h.append(&mut g);
            }
            ensure_eq!(h.len(), want, "len() after append");
            ensure_eq!(g.len(), 0, "len() of the appended heap");
            ensure!(g.is_empty() && g.peek().is_none() && g.pop().is_none(), "the appended heap is not empty");
            for (k, c) in std::mem::take(&mut apart) {
                *m.entry(k).or_default() += c;
            }
            in_g = 0;
        }
    }
    if sort {
        let got = h.into_sorted_vec();
        let want = m.into_iter().rev().flat_map(|(k, c)| std::iter::repeat(k).take(c));
        ensure!(got.iter().cloned().eq(want), "into_sorted_vec() of {} items is not the items in falling order", got.len());
        return Ok(());
    }
    while !m.is_empty() {
        let want: usize = m.first_key_value().map(|x| *x.1).unwrap();
        ensure!(h.len() >= want, "len() too small");
        pop_check(&mut h, &mut m)?;
    }
    ensure!(h.pop().is_none() && h.is_empty() && h.len() == 0, "heap holds more than was pushed");
    ctx.checks += 2 * n as u64;
    Ok(())
}
fn pop_check(h: &mut MinHeap<(u64, String)>, m: &mut std::collections::BTreeMap<(u64, String), usize>) -> R {
    let want = m.first_key_value().map(|x| x.0.clone());
    ensure_eq!(h.peek(), want.as_ref(), "peek()");
    let got = h.pop();
    ensure_eq!(got, want, "pop()");
    if let Some(k) = got {
        let c = m.get_mut(&k).unwrap();
        *c -= 1;
        if *c == 0 {
            m.remove(&k);
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P02",
        facets: vec![
            Facet::random("history", "histories of all operations over two heaps of items ordered by key only (ids tell equal keys apart), compared with sorted multisets at every step; non-trivial: at least two successful pops and two items left at the end", 1_600_000, 16_000_000, history),
            Facet { fuel: 20_000_000_000, ..Facet::random("large", "500..100000 items, over two heaps appended to each other up to three times, pops interleaved or not, drained or sorted, against an ordered map; all non-trivial", 64, 800, large) },
        ],
        assumptions: &["the element order is total"],
    }
}
#[allow(dead_code)]
fn main() {
    engine::main(property())
}

//! Undirected tree generator and the rooted reference view of a tree.
use engine::{Ctx, Rng, Src};

pub const FAMILIES: [&str; 9] = [
    "random recursive", "path", "star", "caterpillar", "binary", "deep", "broom", "equal branches", "spider",
];

/// Undirected adjacency lists of a tree with n >= 1 vertices, relabelled, lists in varied order.
pub fn tree(src: &mut Src, ctx: &mut Ctx, n: usize) -> Vec<Vec<usize>> {
    let fam = src.weighted(&[6, 1, 1, 2, 2, 3, 2, 2, 2]);
    if n > 2 {
        ctx.label(FAMILIES[fam]);
    }
    let legs = if fam == 8 { 1 + src.upto(3) } else { 1 };
    let mut par = vec![0usize; n];
    for (i, p) in par.iter_mut().enumerate().skip(1) {
        *p = match fam {
            0 => src.below(i),
            1 => i - 1,
            2 => 0,
            3 => if i % 2 == 1 { (i - 1).saturating_sub(1) } else { i - 2 },
            4 => (i - 1) / 2,
            5 => i - 1 - src.upto(2.min(i - 1)),
            6 => if i < n / 2 { i - 1 } else { (n / 2).saturating_sub(1) },
            // two equally large subtrees again and again: ties between children
            7 => if i <= 2 { 0 } else { i - 2 },
            _ => if i <= legs { 0 } else { i - legs },
        };
    }
    let label = if src.prob(3, 4) { src.perm(n) } else { (0..n).collect() };
    let mut g = vec![vec![]; n];
    for i in 1..n {
        let (a, b) = (label[i], label[par[i]]);
        g[a].push(b);
        g[b].push(a);
    }
    if src.prob(3, 4) {
        for l in g.iter_mut() {
            if l.len() > 1 {
                let p = src.perm(l.len());
                *l = p.into_iter().map(|i| l[i]).collect();
            }
        }
    }
    g
}

/// Large tree from a drawn seed.
pub fn big_tree(rng: &mut Rng, n: usize, fam: usize) -> Vec<Vec<usize>> {
    let r = |rng: &mut Rng, k: usize| rng.upto(k as u128 - 1) as usize;
    let mut label: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        label.swap(i, r(rng, i + 1));
    }
    let mut g = vec![vec![]; n];
    for i in 1..n {
        let p = match fam % 6 {
            0 => r(rng, i),
            1 => i - 1,
            2 => (i - 1) / 2,
            3 => i - 1 - r(rng, i.min(4)),
            4 => if i % 2 == 1 { (i - 1).saturating_sub(1) } else { i - 2 },
            _ => i.saturating_sub(1 + r(rng, 300)),
        };
        let (a, b) = (label[i], label[p]);
        if r(rng, 2) == 0 {
            g[a].push(b);
            g[b].push(a);
        } else {
            g[b].insert(0, a);
            g[a].insert(0, b);
        }
    }
    g
}

pub struct Rooted {
    pub parent: Vec<usize>,
    pub dep: Vec<usize>,
    pub order: Vec<usize>,
    pub size: Vec<usize>,
}
impl Rooted {
    pub fn new(g: &[Vec<usize>], root: usize) -> Rooted {
        let n = g.len();
        let mut t = Rooted { parent: vec![usize::MAX; n], dep: vec![0; n], order: vec![root], size: vec![1; n] };
        t.parent[root] = root;
        let mut i = 0;
        while i < t.order.len() {
            let u = t.order[i];
            for &v in &g[u] {
                if t.parent[v] == usize::MAX {
                    t.parent[v] = u;
                    t.dep[v] = t.dep[u] + 1;
                    t.order.push(v);
                }
            }
            i += 1;
        }
        assert_eq!(t.order.len(), n, "generator: not a tree");
        for &u in t.order.iter().skip(1).rev() {
            t.size[t.parent[u]] += t.size[u];
        }
        t
    }
    pub fn is_ancestor(&self, u: usize, mut v: usize) -> bool {
        while self.dep[v] > self.dep[u] {
            v = self.parent[v];
        }
        u == v
    }
    pub fn lca(&self, mut u: usize, mut v: usize) -> usize {
        while u != v {
            if self.dep[u] >= self.dep[v] {
                u = self.parent[u]
            } else {
                v = self.parent[v]
            }
        }
        u
    }
    pub fn path(&self, u: usize, v: usize) -> Vec<usize> {
        let l = self.lca(u, v);
        let mut p = vec![];
        let mut x = u;
        while x != l {
            p.push(x);
            x = self.parent[x];
        }
        p.push(l);
        let mut q = vec![];
        let mut x = v;
        while x != l {
            q.push(x);
            x = self.parent[x];
        }
        q.reverse();
        p.extend(q);
        p
    }
    pub fn kth(&self, mut u: usize, mut k: usize) -> usize {
        while k > 0 && self.parent[u] != u {
            u = self.parent[u];
            k -= 1;
        }
        u
    }
}

//! Histories over a decomposed tree, shared by P15 and P16.
use crate::monoid::*;
use crate::trees::*;
use engine::*;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

pub type S<F> = <<F as MapMonoid>::M as Monoid>::S;

pub struct Run<F: GenMap> {
    pub h: HLD<F>,
    pub t: Rooted,
    pub v: Vec<S<F>>,
    pub n: usize,
    pub path_updates: usize,
    pub subtree_updates: usize,
    /// Path queries with three or more vertices / subtree queries with two or more, after updates.
    pub deep_paths: usize,
    pub deep_subtrees: usize,
    pub bent: usize,
}
impl<F: GenMap> Run<F> {
    pub fn new(src: &mut Src, ctx: &mut Ctx) -> Run<F> {
        let hi = *src.pick(&[5usize, 9, 17, 40]);
        Run::upto(src, ctx, hi)
    }
    pub fn small(src: &mut Src, ctx: &mut Ctx) -> Run<F> {
        Run::upto(src, ctx, 12)
    }
    fn upto(src: &mut Src, ctx: &mut Ctx, hi: usize) -> Run<F> {
        let n = 1 + src.size(0, hi - 1);
        let g = tree(src, ctx, n);
        let root = src.below(n);
        let mut v: Vec<S<F>> = vec![F::M::identity(); n];
        let with = src.weighted(&[3, 1]) == 0;
        if with {
            v.iter_mut().for_each(|x| *x = F::M::gen(src));
        }
        ctx.label(<F::M as Gen>::NAME);
        ctx.label_if(n == 1, "n=1");
        ctx.label_if(!with, "built without values");
        ctx.note(|| format!("{}: root {root}, adjacency {g:?}, {}", <F::M as Gen>::NAME, if with { format!("values {v:?}") } else { "no values".into() }));
        let t = Rooted::new(&g, root);
        let h = if with { HLD::with_init_value(&g, root, &v) } else { HLD::new(&g, root) };
        Run { h, t, v, n, path_updates: 0, subtree_updates: 0, deep_paths: 0, deep_subtrees: 0, bent: 0 }
    }
    pub fn set(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let u = src.below(self.n);
        let x = F::M::gen(src);
        ctx.note(|| format!("set({u}, {x:?})"));
        self.h.set(u, x.clone());
        self.v[u] = x;
    }
    pub fn get(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        let u = src.below(self.n);
        ctx.note(|| format!("get({u})"));
        ensure_eq!(self.h.get(u), self.v[u], "get({u})");
        ctx.checks += 1;
        Ok(())
    }
    pub fn apply_path(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let (u, w) = (src.below(self.n), src.below(self.n));
        let f = F::gen_map(src);
        ctx.note(|| format!("apply_path({u}, {w}, {f:?})"));
        self.h.apply_path(u, w, f.clone());
        for x in self.t.path(u, w) {
            self.v[x] = F::mapping(&f, &self.v[x]);
        }
        self.path_updates += 1;
    }
    pub fn apply_subtree(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let u = src.below(self.n);
        let f = F::gen_map(src);
        ctx.note(|| format!("apply_subtree({u}, {f:?})"));
        self.h.apply_subtree(u, f.clone());
        for x in 0..self.n {
            if self.t.is_ancestor(u, x) {
                self.v[x] = F::mapping(&f, &self.v[x]);
            }
        }
        self.subtree_updates += 1;
    }
    fn want_path(&self, u: usize, w: usize) -> S<F> {
        self.t.path(u, w).into_iter().fold(F::M::identity(), |a, x| F::M::binary_operation(&a, &self.v[x]))
    }
    pub fn path_prod(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        let (u, w) = (src.below(self.n), src.below(self.n));
        ctx.note(|| format!("path_prod({u}, {w})"));
        ensure_eq!(self.h.path_prod(u, w), self.want_path(u, w), "path_prod({u}, {w})");
        ctx.checks += 1;
        let l = self.t.lca(u, w);
        self.deep_paths += (self.t.dep[u] + self.t.dep[w] - 2 * self.t.dep[l] >= 2) as usize;
        self.bent += (u != l && w != l) as usize;
        Ok(())
    }
    fn want_subtree(&self, u: usize) -> S<F> {
        (0..self.n).filter(|&x| self.t.is_ancestor(u, x)).fold(F::M::identity(), |a, x| F::M::binary_operation(&a, &self.v[x]))
    }
    pub fn subtree_prod(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        let u = src.below(self.n);
        ctx.note(|| format!("subtree_prod({u})"));
        ensure_eq!(self.h.subtree_prod(u), self.want_subtree(u), "subtree_prod({u})");
        ctx.checks += 1;
        self.deep_subtrees += (self.t.size[u] >= 2 && self.t.size[u] < self.n) as usize;
        Ok(())
    }
    pub fn all_nodes(&mut self, ctx: &mut Ctx) -> R {
        for u in 0..self.n {
            ensure_eq!(self.h.get(u), self.v[u], "get({u}) at the end");
        }
        ctx.checks += self.n as u64;
        Ok(())
    }
    pub fn all_paths(&mut self, ctx: &mut Ctx) -> R {
        for u in 0..self.n {
            for w in 0..self.n {
                ensure_eq!(self.h.path_prod(u, w), self.want_path(u, w), "path_prod({u}, {w}) at the end");
            }
        }
        ctx.checks += (self.n * self.n) as u64;
        Ok(())
    }
    pub fn all_subtrees(&mut self, ctx: &mut Ctx) -> R {
        for u in 0..self.n {
            ensure_eq!(self.h.subtree_prod(u), self.want_subtree(u), "subtree_prod({u}) at the end");
        }
        ctx.checks += self.n as u64;
        Ok(())
    }
    /// Positions: a permutation in which every subtree is contiguous and starts at its root, and
    /// under which the underlying array holds the values.
    pub fn positions(&mut self, ctx: &mut Ctx) -> R {
        let pos = self.h.pos.clone();
        check_positions(&pos, &self.t)?;
        for u in 0..self.n {
            ensure_eq!(self.h.data.get(pos[u]), self.v[u], "data.get(pos[{u}])");
        }
        ctx.checks += 2 * self.n as u64;
        Ok(())
    }
}
pub fn check_positions(pos: &[usize], t: &Rooted) -> R {
    let n = t.parent.len();
    ensure_eq!(pos.len(), n, "number of positions");
    let mut at = vec![false; n];
    for u in 0..n {
        ensure!(pos[u] < n && !at[pos[u]], "positions are not a permutation: {:?}", &pos[..n.min(200)]);
        at[pos[u]] = true;
    }
    // contiguous subtree starting at its root: least and greatest position over the subtree
    let mut lo = pos.to_vec();
    let mut hi = pos.to_vec();
    for &u in t.order.iter().skip(1).rev() {
        let p = t.parent[u];
        lo[p] = lo[p].min(lo[u]);
        hi[p] = hi[p].max(hi[u]);
    }
    for u in 0..n {
        ensure!(lo[u] == pos[u], "the subtree of {u} does not start at its root");
        ensure!(hi[u] + 1 - lo[u] == t.size[u], "the subtree of {u} is not contiguous");
    }
    Ok(())
}

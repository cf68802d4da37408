//! Histories over a lazy segment tree, shared by P08 and P09.
use crate::monoid::*;
use engine::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

pub type S<F> = <<F as MapMonoid>::M as Monoid>::S;

pub struct Run<F: GenMap> {
    pub t: LazySegtree<F>,
    pub v: Vec<S<F>>,
    pub updates: usize,
    pub overlapping: usize,
    pub inner: usize,
    touched: Vec<u8>,
}
impl<F: GenMap> Run<F> {
    pub fn new(src: &mut Src, ctx: &mut Ctx) -> Run<F> {
        ctx.label(<F::M as Gen>::NAME);
        let hi = *src.pick(&[9usize, 18, 34, 18, 9, 70]);
        Run::upto(src, ctx, hi)
    }
    pub fn small(src: &mut Src, ctx: &mut Ctx) -> Run<F> {
        Run::upto(src, ctx, 12)
    }
    fn upto(src: &mut Src, ctx: &mut Ctx, hi: usize) -> Run<F> {
        let n = src.size(0, hi);
        let mut v: Vec<S<F>> = vec![F::M::identity(); n];
        let t = if src.weighted(&[5, 1]) == 0 {
            v.iter_mut().for_each(|x| *x = F::M::gen(src));
            ctx.note(|| format!("{}: from({v:?})", <F::M as Gen>::NAME));
            v.clone().into()
        } else if n == 0 && src.coin() {
            ctx.note(|| format!("{}: default()", <F::M as Gen>::NAME));
            LazySegtree::default()
        } else {
            ctx.note(|| format!("{}: new({n})", <F::M as Gen>::NAME));
            LazySegtree::new(n)
        };
        ctx.label_if(n == 0, "n=0");
        ctx.label_if(n > 1 && n.is_power_of_two(), "n power of two");
        ctx.label_if(n > 2 && (n - 1).is_power_of_two(), "n one above a power of two");
        Run { t, v, updates: 0, overlapping: 0, inner: 0, touched: vec![0; n] }
    }
    fn n(&self) -> usize {
        self.v.len()
    }
    pub fn set(&mut self, src: &mut Src, ctx: &mut Ctx) {
        if self.n() == 0 {
            return;
        }
        let i = src.below(self.n());
        let x = F::M::gen(src);
        ctx.note(|| format!("set({i}, {x:?})"));
        self.t.set(i, x.clone());
        self.v[i] = x;
        self.updates += 1;
    }
    pub fn apply(&mut self, src: &mut Src, ctx: &mut Ctx) {
        if self.n() == 0 {
            return;
        }
        let i = src.below(self.n());
        let f = F::gen_map(src);
        ctx.note(|| format!("apply({i}, {f:?})"));
        self.t.apply(i, f.clone());
        self.v[i] = F::mapping(&f, &self.v[i]);
        self.updates += 1;
    }
    pub fn apply_range(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let (l, r) = src.sub_range(self.n());
        let f = F::gen_map(src);
        ctx.note(|| format!("apply_range({l}, {r}, {f:?})"));
        self.t.apply_range(l, r, f.clone());
        for i in l..r {
            self.v[i] = F::mapping(&f, &self.v[i]);
            self.overlapping += (self.touched[i] > 0) as usize;
            self.touched[i] = 1;
        }
        self.updates += 1;
    }
    pub fn get(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        if self.n() > 0 {
            let i = src.below(self.n());
            ctx.note(|| format!("get({i})"));
            ensure_eq!(self.t.get(i), self.v[i], "get({i})");
            ctx.checks += 1;
        }
        Ok(())
    }
    pub fn prod(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        let (l, r) = src.sub_range(self.n());
        ctx.note(|| format!("prod({l}, {r})"));
        ensure_eq!(self.t.prod(l, r), fold::<F::M>(&self.v[l..r]), "prod({l}, {r})");
        self.inner += (r >= l + 2) as usize;
        ctx.checks += 1;
        Ok(())
    }
    pub fn all_prod(&mut self, ctx: &mut Ctx) -> R {
        ctx.note(|| "all_prod()".into());
        ensure_eq!(self.t.all_prod(), fold::<F::M>(&self.v), "all_prod()");
        ctx.checks += 1;
        Ok(())
    }
    /// One boundary search; compared with a scan if `check`.
    pub fn search(&mut self, src: &mut Src, ctx: &mut Ctx, check: bool) -> R {
        let n = self.n();
        let left = src.coin();
        let start = src.index_upto(n);
        let part = if left { &self.v[..start] } else { &self.v[start..] };
        let nat = if src.coin() {
            let k = src.index_upto(part.len());
            let near = fold::<F::M>(if left { &part[part.len() - k..] } else { &part[..k] });
            F::M::natural(src, &near, left)
        } else {
            None
        };
        ctx.label_if(nat.is_some(), "natural predicate");
        let (name, f) = match nat {
            Some(x) => x,
            None => table::<F::M>(src, part, left),
        };
        let mut p = F::M::identity();
        if !f(&p) {
            return Ok(());
        }
        let mut want = start;
        if left {
            while want > 0 {
                p = F::M::binary_operation(&self.v[want - 1], &p);
                if !f(&p) {
                    break;
                }
                want -= 1;
            }
            ctx.note(|| format!("min_left({start}, {name}) -> {want}"));
            let got = self.t.min_left(start, |x| f(&x));
            ensure!(!check || got == want, "min_left({start}, {name}): got {got}, expected {want}");
        } else {
            while want < n {
                p = F::M::binary_operation(&p, &self.v[want]);
                if !f(&p) {
                    break;
                }
                want += 1;
            }
            ctx.note(|| format!("max_right({start}, {name}) -> {want}"));
            let got = self.t.max_right(start, |x| f(&x));
            ensure!(!check || got == want, "max_right({start}, {name}): got {got}, expected {want}");
        }
        ctx.checks += 1;
        ctx.label_if(start == if left { 0 } else { n }, "search from the very end");
        self.inner += (check && want != start && want != 0 && want != n) as usize;
        Ok(())
    }
    pub fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> R {
        let n = self.n();
        let order = src.weighted(&[1, 1, 1]);
        ctx.note(|| format!("complete comparison, order {order}"));
        self.all_prod(ctx)?;
        for pass in 0..2 {
            if (order == 0) == (pass == 0) {
                for i in 0..n {
                    let i = if order == 1 { n - 1 - i } else { i };
                    ensure_eq!(self.t.get(i), self.v[i], "get({i}) at the end");
                }
            } else {
                for l in 0..=n {
                    let l = if order == 2 { n - l } else { l };
                    let mut want = F::M::identity();
                    ensure_eq!(self.t.prod(l, l), want, "prod({l}, {l}) at the end");
                    for r in l + 1..=n {
                        want = F::M::binary_operation(&want, &self.v[r - 1]);
                        ensure_eq!(self.t.prod(l, r), want, "prod({l}, {r}) at the end");
                        ctx.checks += 1;
                    }
                }
            }
        }
        self.all_prod(ctx)
    }
}

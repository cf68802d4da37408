//! Shrinks a failing choice sequence: shorter first, then smaller choices.
use crate::Fail;

pub struct Shrinker<'a> {
    pub test: &'a mut dyn FnMut(&[u128]) -> Option<(Vec<u128>, Fail)>,
    pub best: Vec<u128>,
    pub fail: Fail,
    pub runs: u64,
    /// Budget in executions and in choices executed: counts, not time.
    pub max_runs: u64,
    pub max_choices: u64,
    pub choices: u64,
}

fn smaller(a: &[u128], b: &[u128]) -> bool {
    (a.len(), a) < (b.len(), b)
}

impl Shrinker<'_> {
    fn spent(&self) -> bool {
        self.runs >= self.max_runs || self.choices >= self.max_choices
    }
    fn try_(&mut self, c: Vec<u128>) -> bool {
        if self.spent() || !smaller(&c, &self.best) {
            return false;
        }
        self.runs += 1;
        self.choices += c.len() as u64 + 50;
        if let Some((norm, fail)) = (self.test)(&c) {
            let norm = if smaller(&c, &norm) { c } else { norm };
            if smaller(&norm, &self.best) {
                self.best = norm;
                self.fail = fail;
                return true;
            }
        }
        false
    }

    pub fn run(&mut self) {
        loop {
            let before = self.best.clone();
            self.delete_chunks();
            self.zero_chunks();
            self.minimize();
            self.dec_and_delete();
            if self.spent() || self.best == before {
                break;
            }
        }
    }
    fn delete_chunks(&mut self) {
        let mut k = (self.best.len() / 2).max(1);
        loop {
            let mut i = self.best.len().saturating_sub(k);
            loop {
                if i + k <= self.best.len() {
                    let mut c = self.best.clone();
                    c.drain(i..i + k);
                    self.try_(c);
                }
                if i == 0 || self.spent() {
                    break;
                }
                i = i.saturating_sub(if k > 8 { k } else { 1 }).min(self.best.len());
            }
            if k == 1 || self.spent() {
                break;
            }
            k = if k > 8 { k / 2 } else { k - 1 };
        }
    }
    fn zero_chunks(&mut self) {
        let mut k = (self.best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < self.best.len() {
                let e = (i + k).min(self.best.len());
                if self.best[i..e].iter().any(|&v| v != 0) {
                    let mut c = self.best.clone();
                    c[i..e].fill(0);
                    self.try_(c);
                }
                i += k;
            }
            if k == 1 || self.spent() {
                break;
            }
            k /= 2;
        }
    }
    fn minimize(&mut self) {
        let mut i = 0;
        while i < self.best.len() && !self.spent() {
            // binary search for the smallest failing value, assuming monotonicity locally
            let (mut lo, mut hi) = (0u128, self.best[i]);
            while lo < hi && i < self.best.len() && !self.spent() {
                let mid = lo + (hi - lo) / 2;
                let mut c = self.best.clone();
                c[i] = mid;
                let len = self.best.len();
                if self.try_(c) {
                    if self.best.len() != len || i >= self.best.len() {
                        break;
                    }
                    hi = self.best[i];
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    /// Counts that announce how many choices follow: lower one and drop some choices after it.
    fn dec_and_delete(&mut self) {
        let mut i = 0;
        while i < self.best.len().min(24) && !self.spent() {
            for k in 1..=4usize {
                let mut j = i + 1;
                while j + k <= self.best.len() && j < i + 40 && !self.spent() {
                    if self.best[i] == 0 {
                        break;
                    }
                    let mut c = self.best.clone();
                    c[i] -= 1;
                    c.drain(j..j + k);
                    self.try_(c);
                    j += 1;
                }
            }
            i += 1;
        }
    }
}

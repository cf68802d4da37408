From af692bcf5671dcf87774fea9fc896fb607506e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 01/11] fix: union-find join links the roots of the two sets

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From 6d924d110431539f984637382637cf439ee88377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 02/11] hook: crate-private number routines callable under
 cfg(verif_hooks)

---
 src/math/internal_math.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/math/internal_math.rs b/src/math/internal_math.rs
index 8d752c4..6806ef0 100644
--- a/src/math/internal_math.rs
+++ b/src/math/internal_math.rs
@@ -235,6 +235,36 @@ pub(crate) fn primitive_root(m: i32) -> i32 {
 // omitted
 // template <int m> constexpr int primitive_root = primitive_root_constexpr(m);
 
+/// Access for external checks to the crate-private functions above; compiled only with
+/// `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub fn safe_mod(x: i64, m: i64) -> i64 {
+        super::safe_mod(x, m)
+    }
+    pub fn barrett_umod(m: u32) -> u32 {
+        super::Barrett::new(m).umod()
+    }
+    pub fn barrett_mul(m: u32, a: u32, b: u32) -> u32 {
+        super::Barrett::new(m).mul(a, b)
+    }
+    pub fn mul_mod(a: u32, b: u32, m: u32, im: u64) -> u32 {
+        super::mul_mod(a, b, m, im)
+    }
+    pub fn pow_mod(x: i64, n: i64, m: i32) -> i64 {
+        super::pow_mod(x, n, m)
+    }
+    pub fn is_prime(n: i32) -> bool {
+        super::is_prime(n)
+    }
+    pub fn inv_gcd(a: i64, b: i64) -> (i64, i64) {
+        super::inv_gcd(a, b)
+    }
+    pub fn primitive_root(m: i32) -> i32 {
+        super::primitive_root(m)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     #![allow(clippy::unreadable_literal)]
-- 
2.43.0


From bbeeefb319e3726bdd55c8e9e045e5b2bc7a20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 03/11] fix: sparse table can be built from an empty slice

---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index d783c48..2fe8202 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -17,7 +17,7 @@ where
     /// Construct a sparse table from slice `v`.
     pub fn from(v: &[T], init: T, op: F) -> Self {
         let n = v.len();
-        let count = lg(n) as usize + 1;
+        let count = lg(n.max(1)) as usize + 1;
         let mut data = vec![vec![init; n]; count];
         data[0].clone_from_slice(v);
         for c in 1..count {
-- 
2.43.0


From 5a9c9e06fdaddab9edb5ea264ab1fa0e0976cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 04/11] fix: fenwick tree partition point of an empty tree is 0

---
 src/data_structure/fenwick_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..57212d4 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -98,6 +98,9 @@ where
     where
         P: FnMut(&T) -> bool,
     {
+        if self.n == 0 {
+            return 0;
+        }
         let mut pos = 0;
         let mut sum: T = Default::default();
         for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
-- 
2.43.0


From 59d94e074a84b593d803c7186ba83fe0ae84aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 05/11] fix: aho-corasick reports every copy of a repeated
 pattern

---
 src/string/aho_corasick.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/string/aho_corasick.rs b/src/string/aho_corasick.rs
index fa101d8..7dcaea2 100644
--- a/src/string/aho_corasick.rs
+++ b/src/string/aho_corasick.rs
@@ -1,6 +1,6 @@
 struct Node<const N: usize = 26> {
     back: usize,
-    end: Option<usize>,
+    end: Vec<usize>,
     nmatches: usize,
     output: Option<usize>,
     next: [usize; N],
@@ -10,7 +10,7 @@ impl<const N: usize> Node<N> {
     pub fn new() -> Self {
         Self {
             back: 0,
-            end: None,
+            end: vec![],
             nmatches: 0,
             output: None,
             next: [0; N],
@@ -51,7 +51,7 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             }
             p = self.nodes[p].next[idx];
         }
-        self.nodes[p].end = Some(i);
+        self.nodes[p].end.push(i);
         self.nodes[p].nmatches += 1;
     }
 
@@ -69,7 +69,7 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
                     0 => self.nodes[u].next[i] = fail,
                     v => {
                         self.nodes[v].back = fail;
-                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
+                        self.nodes[v].output = if !self.nodes[fail].end.is_empty() {
                             Some(fail)
                         } else {
                             self.nodes[fail].output
@@ -88,7 +88,7 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             .into_iter()
             .map(|i| {
                 p = self.nodes[p].next[(text[i] - OFFSET) as usize];
-                self.nodes[p].end
+                self.nodes[p].end.last().copied()
             })
             .collect()
     }
@@ -98,12 +98,10 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
         let mut p = 0;
         for (i, &c) in text.iter().enumerate() {
             p = self.nodes[p].next[(c - OFFSET) as usize];
-            if let Some(x) = self.nodes[p].end {
-                res[i].push(x);
-            }
+            res[i].extend_from_slice(&self.nodes[p].end);
             let mut idx = self.nodes[p].output;
             while let Some(x) = idx {
-                res[i].push(self.nodes[x].end.unwrap());
+                res[i].extend_from_slice(&self.nodes[x].end);
                 idx = self.nodes[x].output;
             }
         }
@@ -115,12 +113,14 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
         let mut p = 0;
         for &c in text {
             p = self.nodes[p].next[(c - OFFSET) as usize];
-            if let Some(x) = self.nodes[p].end {
+            for &x in &self.nodes[p].end {
                 cnt[x] += 1;
             }
             let mut idx = self.nodes[p].output;
             while let Some(x) = idx {
-                cnt[self.nodes[x].end.unwrap()] += 1;
+                for &y in &self.nodes[x].end {
+                    cnt[y] += 1;
+                }
                 idx = self.nodes[x].output;
             }
         }
-- 
2.43.0


From 5c6fff64c1de977ac63d734eecefc5227fbd94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 06/11] fix: aho-corasick find reports a pattern that ends
 inside a longer partial match

---
 src/string/aho_corasick.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/string/aho_corasick.rs b/src/string/aho_corasick.rs
index 7dcaea2..47f2d82 100644
--- a/src/string/aho_corasick.rs
+++ b/src/string/aho_corasick.rs
@@ -88,7 +88,13 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             .into_iter()
             .map(|i| {
                 p = self.nodes[p].next[(text[i] - OFFSET) as usize];
-                self.nodes[p].end.last().copied()
+                // the longest pattern ending here: the state itself or its nearest output
+                let q = if self.nodes[p].end.is_empty() {
+                    self.nodes[p].output?
+                } else {
+                    p
+                };
+                self.nodes[q].end.last().copied()
             })
             .collect()
     }
-- 
2.43.0


From 1fbf53ebfe9b9e5e3c0d8ba320206932b1688734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 07/11] fix: lcm does not overflow when its result fits, and
 lcm(0, 0) is 0

---
 src/math/number_theory.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..730f4d7 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,10 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    if a == T::zero() || b == T::zero() {
+        return T::zero();
+    }
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From be2c3efc37bd195e28b84d7d908de996c66d4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 08/11] fix: ex_crt handles negative and large coefficients

---
 src/math/number_theory.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 730f4d7..3cedc2c 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -33,18 +33,19 @@ pub fn ex_gcd<T: Integral>(a: T, b: T) -> (T, T, T) {
 /// general form of `ans + k * lcm`, or `None` if the solution doesn't exist.
 pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
     let n = a.len();
-    let (mut x, mut lcm) = (0i64, 1i64);
+    let (mut x, mut lcm) = (0i128, 1i128);
     for i in 0..n {
-        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);
+        let (ai, bi, mut m_) = (a[i] as i128, b[i] as i128, m[i] as i128);
+        let (a_, mut b_) = ((ai * lcm).rem_euclid(m_), (bi - ai * x).rem_euclid(m_));
         let (y, _, g) = ex_gcd(a_, m_);
         if b_ % g != 0 {
             return None;
         }
         b_ /= g;
         m_ /= g;
-        x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
+        x += lcm * (y * b_ % m_);
         lcm *= m_;
+        x = x.rem_euclid(lcm);
     }
-    x = (x + lcm) % lcm;
-    Some((x, lcm))
+    Some((x as i64, lcm as i64))
 }
-- 
2.43.0


From 997d71cdb54deaf86c07c145f42d8b06666c71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 09/11] fix: powers and empty products of modular integers are
 0 modulo 1

---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..74a19e3 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1u32);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 84fb91cdf44782ce007d2d32768af8bfaed393a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 10/11] fix: de! compiles in release builds, without arguments
 and by its crate path

---
 src/misc/debug.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..4bff518 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -16,15 +16,16 @@ macro_rules! de {
     () => {
         eprintln!("#{}", line!())
     };
-    ($($val:expr),+ $(,)?) => {
+    ($($val:expr),+ $(,)?) => {{
         eprint!("#{}", line!());
-        ($(debug_single!($val)),+,);
+        ($($crate::debug_single!($val)),+,);
         eprintln!();
-    };
+    }};
 }
 
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
-    ($($val:expr),+ $(,)?) => { };
+    () => {{}};
+    ($($val:expr),+ $(,)?) => {{}};
 }
-- 
2.43.0


From 6a41c518d020fbef942f26c8af5a2df040593c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:09 +0000
Subject: [PATCH 11/11] fix: de! does not move the values it prints in debug
 builds

---
 src/misc/debug.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index 4bff518..e26b56e 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -18,7 +18,9 @@ macro_rules! de {
     };
     ($($val:expr),+ $(,)?) => {{
         eprint!("#{}", line!());
-        ($($crate::debug_single!($val)),+,);
+        $(match &$val {
+            tmp => eprint!(" {} = {:?}", stringify!($val), tmp),
+        };)+
         eprintln!();
     }};
 }
-- 
2.43.0


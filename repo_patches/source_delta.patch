From b65f28c367dae1366629169487d3b5c871a7f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 01/11] fix: UnionFind::join links the roots, not the arguments

join(0, 1); join(0, 2) detached 0 from 1: the parent and size of the
arguments were updated instead of those of their representatives.
---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From e2b02f9d50f09305dc4ba1d5300a2480df1c2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 02/11] fix: MinHeap::into_sorted_vec returns ascending order

The inner heap sorts by Reverse, so the elements came out largest first,
contrary to what a sorted vector is in the standard library.
---
 src/data_structure/min_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/min_heap.rs b/src/data_structure/min_heap.rs
index d3a227f..215313b 100644
--- a/src/data_structure/min_heap.rs
+++ b/src/data_structure/min_heap.rs
@@ -50,6 +50,6 @@ where
     }
 
     pub fn into_sorted_vec(self) -> Vec<T> {
-        self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()
+        self.0.into_sorted_vec().into_iter().rev().map(|x| x.0).collect()
     }
 }
-- 
2.43.0


From 6e5333f59800e4531d59438349a0ef9c30ea8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 03/11] fix: SparseTable::from accepts an empty slice

lg(0) underflowed: a panic with overflow checks, an attempt to allocate
2^32 levels without.
---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index d783c48..2fe8202 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -17,7 +17,7 @@ where
     /// Construct a sparse table from slice `v`.
     pub fn from(v: &[T], init: T, op: F) -> Self {
         let n = v.len();
-        let count = lg(n) as usize + 1;
+        let count = lg(n.max(1)) as usize + 1;
         let mut data = vec![vec![init; n]; count];
         data[0].clone_from_slice(v);
         for c in 1..count {
-- 
2.43.0


From aa1be045aed1bd8e2e5c91ccd8c6d89b5f839b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 04/11] fix: FenwickTree::partition_point returns 0 on an empty
 tree

The bit count underflowed for n = 0: a panic with overflow checks, four
billion iterations without.
---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..7cd0bb7 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..usize::BITS - self.n.leading_zeros()).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From 79229ac8bc6179e40444bf50b99391d4e19ad347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 05/11] fix: lcm divides before multiplying

a * b overflowed although the result fits, e.g. lcm(100000i32, 100000).
---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..ad2d918 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,7 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From 1741de8d1e8c3d672a40367dddeb7a2678a0fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 06/11] fix: ex_crt reduces each congruence before solving it

A negative coefficient made the gcd, and with it the returned period and
solution, negative; products of coefficients with the running period or
solution overflowed although the answer fits.
---
 src/math/number_theory.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index ad2d918..7a82462 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -32,7 +32,10 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
     let n = a.len();
     let (mut x, mut lcm) = (0i64, 1i64);
     for i in 0..n {
-        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);
+        let mut m_ = m[i];
+        let reduce = |v: i128| v.rem_euclid(m_ as i128) as i64;
+        let a_ = reduce(a[i] as i128 * lcm as i128);
+        let mut b_ = reduce(b[i] as i128 - a[i] as i128 * x as i128);
         let (y, _, g) = ex_gcd(a_, m_);
         if b_ % g != 0 {
             return None;
@@ -42,6 +45,5 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
         x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
         lcm *= m_;
     }
-    x = (x + lcm) % lcm;
-    Some((x, lcm))
+    Some((x.rem_euclid(lcm), lcm))
 }
-- 
2.43.0


From 13fbccfdc307b45d966430d654234f348acb2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 07/11] fix: ModInt power and product stay reduced modulo 1

pow(0) and the empty product returned the representative 1 when the
modulus is 1.
---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..d7708a4 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 948bdb18a260232ee0d07d4cd4836bfb3d6f6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 08/11] fix: AhoCorasick::find reports patterns that end inside
 a longer prefix

With patterns "abcd" and "bc", nothing was reported for "bc" in "abc",
unlike in find_all and find_cnt.
---
 src/string/aho_corasick.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string/aho_corasick.rs b/src/string/aho_corasick.rs
index fa101d8..1724205 100644
--- a/src/string/aho_corasick.rs
+++ b/src/string/aho_corasick.rs
@@ -88,7 +88,9 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             .into_iter()
             .map(|i| {
                 p = self.nodes[p].next[(text[i] - OFFSET) as usize];
-                self.nodes[p].end
+                self.nodes[p]
+                    .end
+                    .or_else(|| self.nodes[p].output.and_then(|x| self.nodes[x].end))
             })
             .collect()
     }
-- 
2.43.0


From 31142e3a75c7b9166badfeaa4191b41a43573e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 09/11] fix: AhoCorasick reports every copy of a repeated
 pattern

A second insertion of the same pattern replaced the id of the first, which
then had no occurrences in find_all and find_cnt.
---
 src/string/aho_corasick.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/string/aho_corasick.rs b/src/string/aho_corasick.rs
index 1724205..baee905 100644
--- a/src/string/aho_corasick.rs
+++ b/src/string/aho_corasick.rs
@@ -1,6 +1,6 @@
 struct Node<const N: usize = 26> {
     back: usize,
-    end: Option<usize>,
+    end: Vec<usize>,
     nmatches: usize,
     output: Option<usize>,
     next: [usize; N],
@@ -10,7 +10,7 @@ impl<const N: usize> Node<N> {
     pub fn new() -> Self {
         Self {
             back: 0,
-            end: None,
+            end: vec![],
             nmatches: 0,
             output: None,
             next: [0; N],
@@ -51,7 +51,7 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             }
             p = self.nodes[p].next[idx];
         }
-        self.nodes[p].end = Some(i);
+        self.nodes[p].end.push(i);
         self.nodes[p].nmatches += 1;
     }
 
@@ -69,7 +69,7 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
                     0 => self.nodes[u].next[i] = fail,
                     v => {
                         self.nodes[v].back = fail;
-                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
+                        self.nodes[v].output = if !self.nodes[fail].end.is_empty() {
                             Some(fail)
                         } else {
                             self.nodes[fail].output
@@ -88,9 +88,11 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             .into_iter()
             .map(|i| {
                 p = self.nodes[p].next[(text[i] - OFFSET) as usize];
-                self.nodes[p]
-                    .end
-                    .or_else(|| self.nodes[p].output.and_then(|x| self.nodes[x].end))
+                let node = &self.nodes[p];
+                node.end
+                    .last()
+                    .or_else(|| node.output.and_then(|x| self.nodes[x].end.last()))
+                    .copied()
             })
             .collect()
     }
@@ -100,12 +102,10 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
         let mut p = 0;
         for (i, &c) in text.iter().enumerate() {
             p = self.nodes[p].next[(c - OFFSET) as usize];
-            if let Some(x) = self.nodes[p].end {
-                res[i].push(x);
-            }
+            res[i].extend(&self.nodes[p].end);
             let mut idx = self.nodes[p].output;
             while let Some(x) = idx {
-                res[i].push(self.nodes[x].end.unwrap());
+                res[i].extend(&self.nodes[x].end);
                 idx = self.nodes[x].output;
             }
         }
@@ -117,12 +117,14 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
         let mut p = 0;
         for &c in text {
             p = self.nodes[p].next[(c - OFFSET) as usize];
-            if let Some(x) = self.nodes[p].end {
+            for &x in &self.nodes[p].end {
                 cnt[x] += 1;
             }
             let mut idx = self.nodes[p].output;
             while let Some(x) = idx {
-                cnt[self.nodes[x].end.unwrap()] += 1;
+                for &y in &self.nodes[x].end {
+                    cnt[y] += 1;
+                }
                 idx = self.nodes[x].output;
             }
         }
-- 
2.43.0


From 1b471816015a772743a7069e3602cad73574544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 10/11] verif: guarded re-export of the number-theoretic
 kernels (cfg rust_cp_verif)

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 07fd55b..bcffa30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,5 @@ pub mod misc;
 pub mod math;
 pub mod graph;
 pub mod traits;
+#[cfg(rust_cp_verif)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..cbce0ad
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,28 @@
+//! Re-exports of crate-private kernels for external monitors; compiled only with
+//! `--cfg rust_cp_verif`.
+use crate::math::internal_math as im;
+
+pub fn safe_mod(x: i64, m: i64) -> i64 {
+    im::safe_mod(x, m)
+}
+
+pub fn barrett_mul(m: u32, a: u32, b: u32) -> (u32, u32) {
+    let bt = im::Barrett::new(m);
+    (bt.umod(), bt.mul(a, b))
+}
+
+pub fn pow_mod(x: i64, n: i64, m: i32) -> i64 {
+    im::pow_mod(x, n, m)
+}
+
+pub fn is_prime(n: i32) -> bool {
+    im::is_prime(n)
+}
+
+pub fn inv_gcd(a: i64, b: i64) -> (i64, i64) {
+    im::inv_gcd(a, b)
+}
+
+pub fn primitive_root(m: i32) -> i32 {
+    im::primitive_root(m)
+}
-- 
2.43.0


From 8e3cfff87be074ff281b833e41d4c1ade3cd36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 11/11] fix: de!() without arguments compiles in release builds

---
 src/misc/debug.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..17ebe50 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -26,5 +26,6 @@ macro_rules! de {
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
+    () => { };
     ($($val:expr),+ $(,)?) => { };
 }
-- 
2.43.0


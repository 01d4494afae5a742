From 930cac02f8fd4a542ccf69337c52d1caedad579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 1/5] fix: compare polynomials independently of leading zero
 coefficients

Polynomial is declared a Ring, but p - p did not compare equal to zero()
because the derived comparison looked at the stored vectors.
---
 src/algebra/polynomial.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..5b43bfa 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,7 +12,7 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
@@ -69,6 +69,20 @@ impl<T: Ring> Polynomial<T> {
     }
 }
 
+impl<T: Ring> PartialEq for Polynomial<T> {
+    /// Two polynomials are equal, if all their coefficients are equal, where
+    /// missing coefficients are treated as zeros.
+    fn eq(&self, rhs: &Self) -> bool {
+        let common_len = self.a.len().min(rhs.a.len());
+        let (lhs_low, lhs_high) = self.a.split_at(common_len);
+        let (rhs_low, rhs_high) = rhs.a.split_at(common_len);
+        let zero = T::zero();
+        lhs_low == rhs_low && lhs_high.iter().chain(rhs_high).all(|a| *a == zero)
+    }
+}
+
+impl<T: Ring + Eq> Eq for Polynomial<T> {}
+
 impl<T: Ring> Zero for Polynomial<T> {
     fn zero() -> Self {
         Polynomial { a: Vec::new() }
-- 
2.43.0


From 7ac45c908fcb9805afb2de9ce697f86e9a73f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 2/5] fix: do not overflow when subtracting polynomials by
 value

p - q negated q first, so that it overflowed for the minimum value of a
machine integer even if the difference is representable (p -= &q worked).
---
 src/algebra/polynomial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 5b43bfa..d43e670 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -176,8 +176,9 @@ fn test_add_assign_for_ref_polynomials_of_ints() {
 impl<T: Ring> std::ops::Sub for Polynomial<T> {
     type Output = Self;
 
-    fn sub(self, rhs: Self) -> Self {
-        self + -rhs
+    fn sub(mut self, rhs: Self) -> Self {
+        self -= &rhs;
+        self
     }
 }
 
@@ -191,7 +192,7 @@ fn test_sub_for_polynomials_of_int() {
 
 impl<T: Ring> std::ops::SubAssign for Polynomial<T> {
     fn sub_assign(&mut self, rhs: Self) {
-        *self += -rhs
+        *self -= &rhs;
     }
 }
 
-- 
2.43.0


From 642016b5c3f944d96ea1ae4f672284cfb312ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 3/5] fix: reject out-of-range columns when accessing DMatrix
 entries

An out-of-range column silently referred to an entry of a later row.
---
 src/linalg/dmatrix.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..8fcf973 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -520,6 +520,17 @@ pub struct DMatrix<T> {
     num_cols: usize,
 }
 
+impl<T> DMatrix<T> {
+    /// Returns the position of an entry in `data`.
+    ///
+    /// Panics, if the row or the column is out of bounds.
+    fn data_index(&self, row: usize, col: usize) -> usize {
+        assert!(row < self.num_rows, "Row index out of bounds");
+        assert!(col < self.num_cols, "Column index out of bounds");
+        row * self.num_cols + col
+    }
+}
+
 impl<T> MatrixExpr for DMatrix<T>
 where
     T: Clone,
@@ -527,7 +538,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.data_index(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -550,7 +561,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.data_index(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -653,7 +664,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
-        &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        &self.data[self.data_index(row_and_col[0], row_and_col[1])]
     }
 }
 
@@ -668,7 +679,8 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
-        &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        let index = self.data_index(row_and_col[0], row_and_col[1]);
+        &mut self.data[index]
     }
 }
 
-- 
2.43.0


From 259afe8cff529a2e73f8be829cfe6db3c8b7d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 4/5] fix: reject mismatched shapes in += and -= of DMatrix and
 DVector

A larger right hand side was silently truncated and a smaller one could be
read with wrong indices, whereas + and - reject mismatched shapes.
---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index 8fcf973..7861e89 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -725,6 +725,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -768,6 +770,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From b2b153cb4d8d9dd220ed50f003909233534ee57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 5/5] fix: reject mismatched lengths in the product of DVectors

The longer operand was silently truncated.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


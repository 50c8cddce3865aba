From 588fc728b5e33561b7c78bd33a32825c18b7cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 1/4] fix: check operand dimensions in DVector and DMatrix
 compound assignment and dot product

---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..c4b5780 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -713,6 +713,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -756,6 +758,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
@@ -674,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From 79f1a969ff7ed26e7f545262e89ad34e500d5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 2/4] fix: compare polynomials by their coefficients, ignoring
 trailing zeros

---
 src/algebra/polynomial.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..3dc55c9 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,21 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone, Eq)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+/// Two polynomials are equal, if all of their coefficients agree, where
+/// missing coefficients count as zero.
+impl<T: Ring> PartialEq for Polynomial<T> {
+    fn eq(&self, other: &Self) -> bool {
+        let zero = T::zero();
+        (0..self.a.len().max(other.a.len()))
+            .all(|i| self.a.get(i).unwrap_or(&zero) == other.a.get(i).unwrap_or(&zero))
+    }
+}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0


From 456827afa6957bc3bba80593869e805d078bff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 3/4] fix: panic on out-of-range columns in DMatrix element
 access

---
 src/linalg/dmatrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index c4b5780..1f4e574 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,6 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -550,6 +551,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -653,6 +655,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
+        assert!(row_and_col[1] < self.num_cols);
         &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
@@ -668,6 +671,7 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
+        assert!(row_and_col[1] < self.num_cols);
         &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
-- 
2.43.0


From 09b6a6a344af15d3d2118c34a1196a2fae78bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 4/4] fix: check the row in DMatrix element access, its address
 computation may wrap around

---
 src/linalg/dmatrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index 1f4e574..73aa7ed 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,7 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        assert!(col < self.num_cols);
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -551,7 +551,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        assert!(col < self.num_cols);
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -655,7 +655,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
-        assert!(row_and_col[1] < self.num_cols);
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
@@ -671,7 +671,7 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
-        assert!(row_and_col[1] < self.num_cols);
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
-- 
2.43.0


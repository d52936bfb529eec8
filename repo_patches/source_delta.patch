From 894fc17a99264197eb21e857da43e01cd8639d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 01/14] fix: QRDecomposition::get_q returns an orthogonal
 matrix for tall inputs

---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..2600106 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From 0a4f1685d138ed91ff5212a243a77ef7a3f693e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 02/14] fix: QRDecomposition::is_full_rank returns false for
 wide matrices instead of panicking

---
 src/decomp/qr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 2600106..4b91399 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -106,6 +106,10 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   }
 
   pub fn is_full_rank(&self) -> bool {
+    // A matrix with fewer rows than columns cannot have full column rank.
+    if self.qr.rows() < self.qr.cols() {
+      return false;
+    }
     for j in 0..self.qr.cols() {
       if self.rdiag[j].clone() == num::zero() {
         return false;
-- 
2.43.0


From 5741a1aaf78f411958b2d0fa5324a3c1ce227641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 03/14] fix: QRDecomposition::solve returns the least squares
 solution

---
 src/decomp/qr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 4b91399..5152a5a 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -219,7 +219,8 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        // The Householder vectors are not normalized, see perform_householder_reflection.
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
@@ -238,7 +239,10 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
-    Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
+    // Only the first n rows hold the solution.
+    xdata.truncate(n * nx);
+
+    Some(Matrix::new(n, nx, xdata))
   }
 }
 
-- 
2.43.0


From 09cda2b963b8b34a526e2b8303d7306ecf62b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 04/14] fix: sub_matrix accepts every range inside the matrix
 and rejects those outside

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 9a948354db4b3b8a58db34816f22a4dfafeaf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 05/14] fix: SVD::rank no longer panics for tall matrices

---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From 03cc43c22852a3aa905c86f566bb54ad18476a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 06/14] fix: Matrix::new rejects dimensions whose product
 overflows

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..842d99f 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -24,7 +24,7 @@ pub struct Matrix<T> {
 
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
+    assert!(no_rows.checked_mul(no_cols) == Some(data.len()));
     assert!(no_rows > 0 && no_cols > 0);
     Matrix { no_rows : no_rows, data : data }
   }
-- 
2.43.0


From 058683d74cb3a11b72ee22d718eaf9b4398b7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 07/14] fix: id, zero, zero_vector, one_vector and random
 reject zero dimensions

---
 src/matrix.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 842d99f..12b961f 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -118,7 +118,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..cmp::min(m, n) {
       d[i * n + i] = num::one();
     }
-    Matrix { no_rows : m, data : d }
+    Matrix::new(m, n, d)
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
@@ -127,10 +127,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..elems {
       d[i] = num::zero();
     }
-    Matrix {
-      no_rows : no_rows,
-      data : d
-    }
+    Matrix::new(no_rows, no_cols, d)
   }
 
   pub fn diag(data : Vec<T>) -> Matrix<T> {
@@ -167,7 +164,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..no_rows {
       d[i] = num::zero();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::vector(d)
   }
 
   pub fn one_vector(no_rows : usize) -> Matrix<T> {
@@ -175,7 +172,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..no_rows {
       d[i] = num::one();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::vector(d)
   }
 }
 
@@ -574,7 +571,7 @@ impl<T : Rand + Copy> Matrix<T> {
     for i in 0..elems {
       d[i] = rand::random::<T>();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::new(no_rows, no_cols, d)
   }
 }
 
-- 
2.43.0


From bd7055304a13e9120d1bed46cf9df6fca686791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 08/14] fix: permuting, filtering or selecting down to nothing
 is rejected

---
 src/matrix.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 12b961f..6b2ff0a 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -460,10 +460,7 @@ impl<T : Copy> Matrix<T> {
       }
     }
 
-    Matrix {
-      no_rows : no_rows,
-      data : d
-    }
+    Matrix::new(no_rows, no_cols, d)
   }
 
   pub fn permute_columns(&self, columns : &[usize]) -> Matrix<T> {
@@ -482,10 +479,7 @@ impl<T : Copy> Matrix<T> {
       row_idx += self.cols();
     }
 
-    Matrix {
-      no_rows : no_rows,
-      data : d
-    }
+    Matrix::new(no_rows, no_cols, d)
   }
 
   pub fn filter_rows(&self, f : &Fn(&Matrix<T>, usize) -> bool) -> Matrix<T> {
-- 
2.43.0


From 92956354351a85eadd96fd1ba5321bf85f67e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 09/14] fix: LUDecomposition::solve rejects non-square matrices

---
 src/decomp/lu.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..aace45c 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -237,6 +237,7 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
     let m = self.lu.rows();
     let n = self.lu.cols();
+    assert!(m == n);
     assert!(b.rows() == m as usize);
     if !self.is_non_singular() {
       return None
-- 
2.43.0


From d33219ecaeac151aa51cbfd73b06c15aa7a20b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 10/14] fix: vector_p_norm takes magnitudes before raising to
 the power

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 6b2ff0a..d000172 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -812,7 +812,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From 1ee278c12409a3e3b943606679782fdd70caedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 11/14] fix: EigenDecomposition rejects non-square matrices

---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..e428d2b 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -754,6 +754,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
     let n = a.cols();
+    assert!(a.rows() == n);
 
     let mut vdata = alloc_dirty_vec(n * n);
     let mut ddata = alloc_dirty_vec(n);
-- 
2.43.0


From da11fe2b7ef5374d075fc6354f610e8d65a80506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 12/14] fix: m! rejects rows of different lengths

---
 src/macros.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..f4eb107 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -15,9 +15,11 @@ macro_rules! m_one {
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
+  ( @len [ $($i:expr),* ] ) => ( 0 $(+ m_one!($i))* );
   ( [ $($row:tt),* ] [$($i:expr),*]) => ({
      let _rows = 0 $(+ m_one!($row) )*;
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     $( assert!(m_rec!(@len $row) == _cols); )*
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From 543a12278a07809486d93dda847bb5e5e73fc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:58 +0000
Subject: [PATCH 13/14] fix: align Debug columns by characters, not bytes

---
 src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d000172..010fbf2 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -536,7 +536,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
   fn fmt(&self, fmt: &mut Formatter) -> Result {
     let max_width =
       self.data.iter().fold(0, |maxlen, elem| {
-        let l = format!("{:?}", elem).len();
+        let l = format!("{:?}", elem).chars().count();
         if maxlen > l { maxlen } else { l }
       });
 
@@ -545,7 +545,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
       try!(write!(fmt, "|"));
       for col in 0..self.cols() {
         let v = self.get_ref(row, col).clone();
-        let slen = format!("{:?}", v).len();
+        let slen = format!("{:?}", v).chars().count();
         let mut padding = " ".to_owned();
         for _ in 0..(max_width-slen) {
           padding.push_str(" ");
-- 
2.43.0


From f8ce1b9bc12e57b2e9a2f192422316b66c01fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 14/14] fix: SVD and eigen judge what is negligible at the
 element type's precision (SVD::new of f32 matrices could run forever)

---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index e428d2b..f11f696 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index feb1e3e..b39bbc3 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,7 +223,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
@@ -437,7 +437,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-- 
2.43.0


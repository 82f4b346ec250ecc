From 09ac04fae383aa56e12afdde6947928c39492e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:31 +0000
Subject: [PATCH 01/66] fix: keep the beta term in matrix products with an
 empty inner dimension

---
 russell_lab/src/matrix/complex_mat_mat_mul.rs   | 9 +++++++--
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs | 9 +++++++--
 russell_lab/src/matrix/mat_mat_mul.rs           | 9 +++++++--
 russell_lab/src/matrix/mat_t_mat_mul.rs         | 9 +++++++--
 russell_lab/src/matvec/mat_vec_mul_update.rs    | 7 ++++++-
 5 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..a5bd0a9 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -79,8 +79,13 @@ pub fn complex_mat_mat_mul(
         return Ok(());
     }
     if k == 0 {
+        // the product term vanishes; thus c := β c
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..eafeeb0 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -79,8 +79,13 @@ pub fn complex_mat_t_mat_mul(
         return Ok(());
     }
     if k == 0 {
+        // the product term vanishes; thus c := β c
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..7e270b4 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -69,7 +69,12 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        // the product term vanishes; thus c := β c
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..43b977f 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -67,7 +67,12 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        // the product term vanishes; thus c := β c
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..43f9fa5 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -70,7 +70,12 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        // the product term vanishes; thus v := β v
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            v.scale(beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From f2a731acd752600f38a4aac2a2cf614aac878dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:46 +0000
Subject: [PATCH 02/66] fix: scale the output of rank-k operations by beta when
 k is zero

---
 russell_lab/src/matrix/complex_mat_herm_rank_op.rs | 5 ++++-
 russell_lab/src/matrix/complex_mat_sym_rank_op.rs  | 5 ++++-
 russell_lab/src/matrix/mat_sym_rank_op.rs          | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
index 11ab5a9..b81746b 100644
--- a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
@@ -117,6 +117,9 @@ pub fn complex_mat_herm_rank_op(
         }
         (row, row, CBLAS_CONJ_TRANS)
     };
+    if n == 0 {
+        return Ok(());
+    }
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
@@ -130,7 +133,7 @@ pub fn complex_mat_herm_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)), // BLAS requires lda ≥ 1, even if k = 0
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
index 3b829cf..9943cd3 100644
--- a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
@@ -119,6 +119,9 @@ pub fn complex_mat_sym_rank_op(
         }
         (row, row, CBLAS_TRANS)
     };
+    if n == 0 {
+        return Ok(());
+    }
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
@@ -132,7 +135,7 @@ pub fn complex_mat_sym_rank_op(
             k_i32,
             &alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)), // BLAS requires lda ≥ 1, even if k = 0
             &beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/mat_sym_rank_op.rs b/russell_lab/src/matrix/mat_sym_rank_op.rs
index c064f23..42155e0 100644
--- a/russell_lab/src/matrix/mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/mat_sym_rank_op.rs
@@ -115,6 +115,9 @@ pub fn mat_sym_rank_op(
         }
         (row, row, CBLAS_TRANS)
     };
+    if n == 0 {
+        return Ok(());
+    }
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
@@ -128,7 +131,7 @@ pub fn mat_sym_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)), // BLAS requires lda ≥ 1, even if k = 0
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
-- 
2.43.0


From 98a99e53ba06769daa337a2d34b8f0a9889f95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:44 +0000
Subject: [PATCH 03/66] fix: make the Jacobi eigen-solver converge when
 off-diagonal elements vanish

---
 russell_lab/src/matrix/mat_eigen_sym_jacobi.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
index fcc526f..95b8ca3 100644
--- a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
+++ b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
@@ -139,6 +139,13 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         // rotations
         for p in 0..(n - 1) {
             for q in (p + 1)..n {
+                // after several sweeps, drop the element if it is negligible compared to the diagonal
+                // (rotating an already zero element by 45 degrees may cycle forever)
+                g = 100.0 * f64::abs(a.get(p, q));
+                if iteration > 6 && f64::abs(l[p]) + g == f64::abs(l[p]) && f64::abs(l[q]) + g == f64::abs(l[q]) {
+                    a.set(p, q, 0.0);
+                    continue;
+                }
                 h = l[q] - l[p];
                 if f64::abs(h) <= TOLERANCE {
                     t = 1.0;
-- 
2.43.0


From af9a468b79379fda5953a2bbcd4b0cb6bd1ad95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:44 +0000
Subject: [PATCH 04/66] fix: do not touch entries outside the leading block in
 small_mat_inv

---
 russell_lab/src/small/small_mat_inv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/small/small_mat_inv.rs b/russell_lab/src/small/small_mat_inv.rs
index b53742a..63d7cc6 100644
--- a/russell_lab/src/small/small_mat_inv.rs
+++ b/russell_lab/src/small/small_mat_inv.rs
@@ -155,7 +155,12 @@ where
         // Swap rows if necessary (in both sides)
         if max_index != k {
             a_work.swap(k, max_index);
-            ai.swap(k, max_index);
+            for j in 0..n {
+                // swap within the (n,n) block only
+                let temp = ai[k][j];
+                ai[k][j] = ai[max_index][j];
+                ai[max_index][j] = temp;
+            }
             det_accumulator = -det_accumulator; // Rule 1: A row swap flips the sign of the determinant
         }
 
-- 
2.43.0


From e53d839ebc28fb282686ee010c29c79942fc626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:44 +0000
Subject: [PATCH 05/66] fix: compute the left eigenvectors in
 complex_mat_gen_eigen_lr

---
 russell_lab/src/matrix/complex_mat_gen_eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/complex_mat_gen_eigen.rs b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
index 2572f99..52d89a6 100644
--- a/russell_lab/src/matrix/complex_mat_gen_eigen.rs
+++ b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
@@ -284,7 +284,7 @@ pub fn complex_mat_gen_eigen_lr(
     let mut info = 0;
     unsafe {
         c_zggev(
-            C_FALSE,
+            C_TRUE,
             C_TRUE,
             &m_i32,
             a.as_mut_data().as_mut_ptr(),
-- 
2.43.0


From bafaeec3885d489a904995035d97095d44abc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:08 +0000
Subject: [PATCH 06/66] fix: refuse tables with fewer columns than the given
 labels

---
 russell_lab/src/base/read_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_lab/src/base/read_table.rs b/russell_lab/src/base/read_table.rs
index e48de2b..20cb9b1 100644
--- a/russell_lab/src/base/read_table.rs
+++ b/russell_lab/src/base/read_table.rs
@@ -196,6 +196,11 @@ where
                 // set or check the number of columns
                 if first_row {
                     number_of_columns = column_index; // the first row determines the number of columns
+                    if let Some(ls) = &labels {
+                        if number_of_columns < ls.len() {
+                            return Err("column data is missing");
+                        }
+                    }
                     first_row = false;
                 } else {
                     if column_index != number_of_columns {
-- 
2.43.0


From c30656f4a479c03625dd60ecc14fbeb1257891c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:03 +0000
Subject: [PATCH 07/66] =?UTF-8?q?fix:=20evaluate=20Lagrange=20derivatives?=
 =?UTF-8?q?=20at=20x=3D=C2=B11=20correctly=20when=20the=20ends=20are=20not?=
 =?UTF-8?q?=20nodes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 russell_lab/src/algo/interp_lagrange.rs | 40 ++++++++-----------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/russell_lab/src/algo/interp_lagrange.rs b/russell_lab/src/algo/interp_lagrange.rs
index efc5df3..04d5ef2 100644
--- a/russell_lab/src/algo/interp_lagrange.rs
+++ b/russell_lab/src/algo/interp_lagrange.rs
@@ -612,20 +612,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
@@ -731,20 +723,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
-- 
2.43.0


From 3976879f1eb32262c550025b625511e7ab121004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:00 +0000
Subject: [PATCH 08/66] fix: keep InterpChebyshev consistent for constants,
 failing functions and rounded end points

---
 russell_lab/src/algo/interp_chebyshev.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..b41cffd 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -167,9 +167,11 @@ impl InterpChebyshev {
         if nn > self.nn_max {
             return Err("nn must be ≤ nn_max");
         }
+        self.ready = false; // in case the function evaluation fails
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
+            self.uu_rev[0] = self.constant_fx;
         } else {
             chebyshev_data_vector(&mut self.uu_rev, self.nn, self.xa, self.xb, args, &mut f)?;
             chebyshev_coefficients(&mut self.a, &self.uu_rev, self.nn);
@@ -236,6 +238,7 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = uu[0];
+            self.uu_rev[0] = self.constant_fx;
         } else {
             for i in 0..np {
                 self.uu_rev[nn - i] = uu[i];
@@ -282,11 +285,12 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = yy_gen[0];
+            self.uu_rev[0] = self.constant_fx;
         } else {
             let zz = InterpChebyshev::points(self.nn);
             for i_cheby in 0..zz.dim() {
                 let z = zz[i_cheby];
-                let x = (self.xb + self.xa + self.dx * z) / 2.0;
+                let x = f64::min(self.xb, (self.xb + self.xa + self.dx * z) / 2.0); // min because of rounding
                 // perform linear interpolation
                 let mut found = false;
                 for i_gen in 0..np {
@@ -388,6 +392,7 @@ impl InterpChebyshev {
     where
         F: FnMut(f64, &mut A) -> Result<f64, StrError>,
     {
+        self.ready = false; // in case the adaptive interpolation fails
         let mut an_prev = 0.0;
         for nn in 1..=self.nn_max {
             chebyshev_data_vector(&mut self.uu_rev, nn, self.xa, self.xb, args, &mut f)?;
@@ -395,8 +400,7 @@ impl InterpChebyshev {
             let an = self.a[nn];
             if nn > 1 && f64::abs(an_prev) < tol && f64::abs(an) < tol {
                 let actual_nn = nn - 2; // -2 because the last two coefficients are zero
-                self.set_function(actual_nn, args, f).unwrap();
-                return Ok(());
+                return self.set_function(actual_nn, args, f);
             }
             an_prev = an;
         }
-- 
2.43.0


From b60b12dee4a3f5f3cfbfdac03aa6147c08dc3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:58 +0000
Subject: [PATCH 09/66] fix: keep B-spline results consistent across calls and
 at the last knot

---
 russell_lab/src/algo/bspline.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index f89d833..f36f7c0 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -214,6 +214,9 @@ impl Bspline {
         if ndim == 0 {
             return Err("the number of dimensions must be ≥ 1");
         }
+        // the derivative arrays depend on the dimension of the control points
+        self.cc_ders.clear();
+        self.pp_ders.clear();
         self.pp = Vec::with_capacity(nb);
         for i in 0..nb {
             let mut point = Vec::with_capacity(ndim);
@@ -334,6 +337,7 @@ impl Bspline {
         } else {
             // Piegl & Tiller: A3.1 p82
             let span = self.find_span(u);
+            self.span = span;
             self.basis_funs(u, span);
             cc.fill(0.0);
             for i in 0..=self.p {
@@ -410,14 +414,16 @@ impl Bspline {
     fn recursive_nn(&self, u: f64, i: usize, p: usize) -> f64 {
         // remove noise, e.g., 1.000000000000002
         let u = if f64::abs(u - self.u_max) < 1e-14 {
-            self.u_max - 1e-14
+            self.u_max
         } else {
             u
         };
 
         // exit point
         if p == 0 {
-            if u >= self.uu[i] && u < self.uu[i + 1] {
+            // the last non-empty span includes the last knot
+            let at_end = u == self.u_max && self.uu[i] < u && self.uu[i + 1] == u;
+            if (u >= self.uu[i] && u < self.uu[i + 1]) || at_end {
                 return 1.0;
             } else {
                 return 0.0;
@@ -589,6 +595,7 @@ impl Bspline {
             self.cc_ders = vec![vec![0.0; ndim]; self.p + 1];
         }
         let span = self.find_span(u);
+        self.span = span;
         self.ders_basis_funs(u, span, upto);
         for k in 0..=upto {
             self.cc_ders[k].fill(0.0);
@@ -658,6 +665,7 @@ impl Bspline {
             self.cc_ders = vec![vec![0.0; ndim]; self.p + 1];
         }
         let span = self.find_span(u);
+        self.span = span;
         self.ders_basis_funs(u, span, upto);
         self.curve_deriv_cpts(upto, span - self.p, span);
         for k in 0..=upto {
-- 
2.43.0


From 2f9843005be676a9026b167dda3cd2ad7ee9db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:40 +0000
Subject: [PATCH 10/66] fix: make the multiple-root detection of solve_cubic
 independent of scale

---
 russell_lab/src/algo/cubic.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index d3381a5..a2c1fcd 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -8,6 +8,9 @@ use std::f64::consts::PI;
 
 const EPS: f64 = 1e-12;
 
+/// Tolerance to detect multiple roots (after scaling the equation)
+const EPS_MULTIPLE: f64 = 1e-15;
+
 /// Solve cubic equation: a·x³ + b·x² + c·x + d = 0
 ///
 /// # Input
@@ -38,6 +41,15 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     let q = c / a;
     let r = d / a;
 
+    // scale the equation so that the tolerances are independent of the magnitude of the roots
+    let scale = p.abs().max(q.abs().sqrt()).max(r.abs().cbrt());
+    if scale == 0.0 {
+        return Ok(vec![0.0, 0.0, 0.0]);
+    }
+    let p = p / scale;
+    let q = q / scale / scale;
+    let r = r / scale / scale / scale;
+
     let p_sq = p * p;
     let aa = q - p_sq / 3.0;
     let bb = r - (p * q) / 3.0 + (2.0 * p * p_sq) / 27.0;
@@ -49,14 +61,14 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     let mut ys = Vec::with_capacity(3);
 
     match delta {
-        d if d > EPS => {
+        d if d > EPS_MULTIPLE => {
             let sqrt_delta = delta.sqrt();
             let u = (-half_b + sqrt_delta).cbrt();
             let v = (-half_b - sqrt_delta).cbrt();
             ys.push(u + v);
         }
 
-        d if d < -EPS => {
+        d if d < -EPS_MULTIPLE => {
             let sqrt_neg_third_a = (-third_a).sqrt();
             let radicand = -half_b / sqrt_neg_third_a.powf(3.0);
             let radicand_clamped = radicand.clamp(-1.0, 1.0);
@@ -82,7 +94,7 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     }
 
     let p3 = p / 3.0;
-    let mut xs: Vec<f64> = ys.into_iter().map(|y| y - p3).collect();
+    let mut xs: Vec<f64> = ys.into_iter().map(|y| scale * (y - p3)).collect();
     xs.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
 
     Ok(xs)
-- 
2.43.0


From e854bd11f2b9bc941ddf291d1f64206ce887b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:40 +0000
Subject: [PATCH 11/66] fix: avoid underflow of the subdivision depth for very
 close integration bounds

---
 russell_lab/src/algo/quadrature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index 2625cab..f7f2575 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -248,7 +248,7 @@ impl Quadrature {
                     //
                     n_ib = 0.5 - f64::ln(c) / LN2;
                     let nib = n_ib as usize;
-                    lmx = usize::min(n_lmx, n_bit - nib - 7);
+                    lmx = usize::min(n_lmx, n_bit.saturating_sub(nib + 7));
                     if lmx < 1 {
                         return Err("the lower and upper bounds must not be so close one from another");
                     }
-- 
2.43.0


From 3578a9d69d4bfa8ef0b6c0d39f4ce30b2b769ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:40 +0000
Subject: [PATCH 12/66] fix: do not report convergence of NewtonSolver when the
 residual contains NaN

---
 russell_lab/src/algo/newton_solver.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/russell_lab/src/algo/newton_solver.rs b/russell_lab/src/algo/newton_solver.rs
index bd7772a..307b2c1 100644
--- a/russell_lab/src/algo/newton_solver.rs
+++ b/russell_lab/src/algo/newton_solver.rs
@@ -101,6 +101,14 @@ impl NewtonSolver {
         Ok(())
     }
 
+    /// Checks that the residual vector does not contain NaN (the maximum norm may skip NaN)
+    fn check_residual(&self) -> Result<(), StrError> {
+        if self.r.as_data().iter().any(|v| v.is_nan()) {
+            return Err("the residual vector contains NaN");
+        }
+        Ok(())
+    }
+
     /// Sets the maximum number of iterations
     ///
     /// Default value: 20
@@ -258,6 +266,7 @@ impl NewtonSolver {
         self.stats.inc_n_function(1);
 
         // Calculate the first residual norm
+        self.check_residual()?;
         let initial_norm = vec_norm(&self.r, Norm::Max);
         let mut residual_norm = initial_norm;
 
@@ -319,6 +328,7 @@ impl NewtonSolver {
             }
 
             // Update residual norm
+            self.check_residual()?;
             residual_norm = vec_norm(&self.r, Norm::Max);
         }
 
-- 
2.43.0


From fa0c5b45252adcb4d83c91012089252baa66f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:40 +0000
Subject: [PATCH 13/66] fix: accept small function values of opposite sign in
 RootFinder::brent

---
 russell_lab/src/algo/root_finder_brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder_brent.rs b/russell_lab/src/algo/root_finder_brent.rs
index 03d4bc6..9a99075 100644
--- a/russell_lab/src/algo/root_finder_brent.rs
+++ b/russell_lab/src/algo/root_finder_brent.rs
@@ -85,7 +85,7 @@ impl RootFinder {
         self.stats.inc_n_function(2);
 
         // check
-        if fa * fb >= -f64::EPSILON {
+        if !((fa < 0.0 && fb > 0.0) || (fa > 0.0 && fb < 0.0)) {
             return Err("xa and xb must bracket the root and f(xa) × f(xb) < 0");
         }
 
-- 
2.43.0


From 440a3b24682632037d6a59124f59b349f48e073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 14/66] fix: keep the sign of J1 for tiny negative arguments

---
 russell_lab/src/math/bessel_1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/bessel_1.rs b/russell_lab/src/math/bessel_1.rs
index 2349983..a76dbda 100644
--- a/russell_lab/src/math/bessel_1.rs
+++ b/russell_lab/src/math/bessel_1.rs
@@ -126,7 +126,7 @@ pub fn bessel_j1(x: f64) -> f64 {
     }
 
     if xx < TWO_M27 {
-        return 0.5 * xx;
+        return 0.5 * x;
     }
 
     let mut z = xx * xx;
-- 
2.43.0


From 1d07845ec7a5ab34c50296f1b393ce1ea1d17246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 15/66] fix: normalize Jn with J1 next to the zeros of J0

---
 russell_lab/src/math/bessel_n.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/math/bessel_n.rs b/russell_lab/src/math/bessel_n.rs
index 7b2ad18..6f967fe 100755
--- a/russell_lab/src/math/bessel_n.rs
+++ b/russell_lab/src/math/bessel_n.rs
@@ -244,7 +244,9 @@ pub fn bessel_jn(n: i32, x: f64) -> f64 {
                     i -= 1;
                 }
             }
-            b = t * bessel_j0(xx) / b;
+            // normalize with J0(x), or with J1(x) next to the zeros of J0(x)
+            let (j0, j1) = (bessel_j0(xx), bessel_j1(xx));
+            b = if f64::abs(j0) >= 0.1 * f64::abs(j1) { t * j0 / b } else { t * j1 / a };
         }
     }
 
-- 
2.43.0


From 7692deb01933221c2ccf5c2861c30a6728efe2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 16/66] fix: evaluate In at infinity and at tiny arguments
 without NaN

---
 russell_lab/src/math/bessel_mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/russell_lab/src/math/bessel_mod.rs b/russell_lab/src/math/bessel_mod.rs
index 3f09522..0ce9f46 100644
--- a/russell_lab/src/math/bessel_mod.rs
+++ b/russell_lab/src/math/bessel_mod.rs
@@ -25,6 +25,8 @@ pub fn bessel_i0(x: f64) -> f64 {
         return f64::NAN;
     } else if x == 0.0 {
         return 1.0;
+    } else if f64::is_infinite(x) {
+        return f64::INFINITY;
     }
     let ax = f64::abs(x);
     if ax < 15.0 {
@@ -74,6 +76,8 @@ pub fn bessel_i1(x: f64) -> f64 {
         return f64::NAN;
     } else if x == 0.0 {
         return 0.0;
+    } else if f64::is_infinite(x) {
+        return x;
     }
     let ax = f64::abs(x);
     if ax < 15.0 {
@@ -93,8 +97,8 @@ const ACC: f64 = 200.0;
 // |x| above which In(x) overflows f64 for every n ≤ |x|
 const X_ALL_OVERFLOW: f64 = 1400.0;
 
-// half DBL_MAX_EXP
-const HALF_MAX_EXP: i32 = f64::MAX_EXP / 2;
+// a quarter of DBL_MAX_EXP (leaves room for the factor 2⋅j/x with the smallest x)
+const QUARTER_MAX_EXP: i32 = f64::MAX_EXP / 4;
 
 /// Evaluates the modified Bessel function In(x) for any real x and n ≥ 0
 ///
@@ -123,6 +127,8 @@ pub fn bessel_in(n: usize, x: f64) -> f64 {
         return bessel_i0(x);
     } else if n == 1 {
         return bessel_i1(x);
+    } else if f64::is_infinite(x) {
+        return if x < 0.0 && (n & 1) != 0 { x } else { f64::INFINITY };
     } else if x * x <= 8.0 * f64::MIN_POSITIVE {
         return 0.0;
     }
@@ -140,11 +146,11 @@ pub fn bessel_in(n: usize, x: f64) -> f64 {
         bip = bi;
         bi = bim;
         let (_, k) = float_decompose(bi);
-        if k > HALF_MAX_EXP {
+        if k > QUARTER_MAX_EXP {
             // re-normalize to prevent overflows
-            ans = float_compose(ans, -HALF_MAX_EXP);
-            bi = float_compose(bi, -HALF_MAX_EXP);
-            bip = float_compose(bip, -HALF_MAX_EXP);
+            ans = float_compose(ans, -k);
+            bi = float_compose(bi, -k);
+            bip = float_compose(bip, -k);
         }
         if j == n {
             ans = bip;
-- 
2.43.0


From 0d9569fd98e4baeb0e4aeb407033c2fa734e8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 17/66] fix: evaluate ln_beta for small values and for negative
 arguments paired with large ones

---
 russell_lab/src/math/beta.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/math/beta.rs b/russell_lab/src/math/beta.rs
index 3606b30..b7c71e8 100644
--- a/russell_lab/src/math/beta.rs
+++ b/russell_lab/src/math/beta.rs
@@ -236,8 +236,8 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
 
     // avoid loss of precision in ln_gamma(a + b) - ln_gamma(a)
     if f64::abs(aa) > ASYMPTOTIC_FACTOR * f64::abs(bb) && aa > ASYMPTOTIC_FACTOR {
-        let (ll, sign) = ln_beta_asymptotic(aa, bb);
-        return (sign as f64) * ll;
+        let (ll, _) = ln_beta_asymptotic(aa, bb);
+        return ll;
     }
 
     // use the ln_gamma identity
@@ -274,8 +274,9 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
         ans *= gb;
     };
 
-    // handle near zero results
-    if f64::abs(ans) < 10.0 * f64::EPSILON {
+    // handle near zero results; i.e., cc is a non-positive integer up to rounding errors
+    let dist = f64::abs(cc - f64::round(cc));
+    if f64::round(cc) <= 0.0 && dist <= 2.0 * f64::EPSILON * f64::max(1.0, f64::abs(aa)) {
         // noting that f64::exp(f64::NEG_INFINITY))
         return f64::NEG_INFINITY;
     }
-- 
2.43.0


From 427a1cfa7e69da2a4e84d25794aa1fc1db1e5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 18/66] fix: evaluate erfc_inv at tiny arguments without loss
 of precision

---
 russell_lab/src/math/erf_inv.rs | 41 +++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/russell_lab/src/math/erf_inv.rs b/russell_lab/src/math/erf_inv.rs
index ac24b2c..c33ce4f 100644
--- a/russell_lab/src/math/erf_inv.rs
+++ b/russell_lab/src/math/erf_inv.rs
@@ -119,21 +119,7 @@ pub fn erf_inv(x: f64) -> f64 {
         let z2 = ((((((B7 * r + B6) * r + B5) * r + B4) * r + B3) * r + B2) * r + B1) * r + B0;
         (xx * z1) / z2
     } else {
-        let mut r = f64::sqrt(LN2 - f64::ln(1.0 - xx));
-        let (z1, z2) = if r <= 5.0 {
-            r -= 1.6;
-            (
-                ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
-                ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
-            )
-        } else {
-            r -= 5.0;
-            (
-                ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
-                ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
-            )
-        };
-        z1 / z2
+        erf_inv_tail(1.0 - xx)
     };
 
     if negative {
@@ -142,6 +128,25 @@ pub fn erf_inv(x: f64) -> f64 {
     ans
 }
 
+/// Evaluates the inverse error function of 1 - y for small y > 0
+fn erf_inv_tail(y: f64) -> f64 {
+    let mut r = f64::sqrt(LN2 - f64::ln(y));
+    let (z1, z2) = if r <= 5.0 {
+        r -= 1.6;
+        (
+            ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
+            ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
+        )
+    } else {
+        r -= 5.0;
+        (
+            ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
+            ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
+        )
+    };
+    z1 / z2
+}
+
 /// Evaluates the inverse of the complementary error function
 ///
 /// **Note:** x must be in `[0, 2]` with `x = 0` being `Inf` and `x = 2` being `-Inf`.
@@ -168,6 +173,12 @@ pub fn erf_inv(x: f64) -> f64 {
 /// approx_eq(math::erfc_inv(1.0), 0.0, 1e-15);
 /// ```
 pub fn erfc_inv(x: f64) -> f64 {
+    if x < 0.0 {
+        return f64::NAN;
+    } else if x > 0.0 && x < 0.125 {
+        // avoid the loss of precision in 1.0 - x
+        return erf_inv_tail(x);
+    }
     erf_inv(1.0 - x)
 }
 
-- 
2.43.0


From eec926c3a76edcccf65c4b7a43e91eaa94963ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 19/66] fix: return the weights of the two-point Lobatto rule

---
 russell_lab/src/math/legendre.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/legendre.rs b/russell_lab/src/math/legendre.rs
index 9773d7e..5c4bd95 100644
--- a/russell_lab/src/math/legendre.rs
+++ b/russell_lab/src/math/legendre.rs
@@ -301,7 +301,7 @@ pub fn legendre_lobatto_points(nn: usize) -> Vector {
 /// ```
 pub fn legendre_lobatto_weights(nn: usize) -> Vector {
     let mut ww = Vector::new(nn + 1);
-    if nn < 2 {
+    if nn < 1 {
         return ww;
     }
     let np1 = (nn + 1) as f64;
-- 
2.43.0


From 9381e5e94134abcecf08111aeb5004439c528c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 20/66] fix: avoid integer overflow in i_pow_n and
 float_compose

---
 russell_lab/src/math/complex.rs     | 4 ++--
 russell_lab/src/math/composition.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/math/complex.rs b/russell_lab/src/math/complex.rs
index 127b91c..beb43a2 100644
--- a/russell_lab/src/math/complex.rs
+++ b/russell_lab/src/math/complex.rs
@@ -48,7 +48,7 @@ pub fn i_pow_n(n: i32) -> Complex64 {
             _ => Complex64::new(1.0, 0.0),  //  1
         }
     } else {
-        match (-n) % 4 {
+        match -(n % 4) {
             1 => Complex64::new(0.0, -1.0), // -i
             2 => Complex64::new(-1.0, 0.0), // -1
             3 => Complex64::new(0.0, 1.0),  //  i
@@ -107,7 +107,7 @@ pub fn x_times_i_pow_n(x: f64, n: i32) -> Complex64 {
         }
     } else {
         let xn = f64::powi(x, n);
-        match (-n) % 4 {
+        match -(n % 4) {
             1 => Complex64::new(0.0, -xn), // -i⋅xn
             2 => Complex64::new(-xn, 0.0), // -1⋅xn
             3 => Complex64::new(0.0, xn),  //  i⋅xn
diff --git a/russell_lab/src/math/composition.rs b/russell_lab/src/math/composition.rs
index c7bf732..ecda688 100644
--- a/russell_lab/src/math/composition.rs
+++ b/russell_lab/src/math/composition.rs
@@ -211,9 +211,9 @@ pub fn float_compose(mantissa: f64, exponent: i32) -> f64 {
         (mantissa, 0)
     };
     // composition
-    let mut exp = exponent + e;
+    let mut exp = exponent.saturating_add(e);
     let mut x = frac.to_bits();
-    exp += ((x >> 52) & 0x7ff) as i32 - 0x3ff;
+    exp = exp.saturating_add(((x >> 52) & 0x7ff) as i32 - 0x3ff);
     if exp < -1075 {
         return f64::copysign(0.0, frac); // underflow
     }
-- 
2.43.0


From 6993948db335fde9e6969326e42a7ccb84731ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:05 +0000
Subject: [PATCH 21/66] fix: use the documented branch limits in ln_gamma

---
 russell_lab/src/math/ln_gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/math/ln_gamma.rs b/russell_lab/src/math/ln_gamma.rs
index 4025541..855b1d6 100644
--- a/russell_lab/src/math/ln_gamma.rs
+++ b/russell_lab/src/math/ln_gamma.rs
@@ -275,7 +275,7 @@ pub fn ln_gamma(x: f64) -> (f64, i32) {
             if xx >= Y_MIN - 1.0 + 0.27 {
                 // 0.7316 <= x <=  0.9
                 (1.0 - xx, 0)
-            } else if xx >= Y_MIN - 1.0 - 0.27 {
+            } else if xx >= Y_MIN - 1.0 - 0.23 {
                 // 0.2316 <= x < 0.7316
                 (xx - (TC - 1.0), 1)
             } else {
@@ -287,7 +287,7 @@ pub fn ln_gamma(x: f64) -> (f64, i32) {
             if xx >= Y_MIN + 0.27 {
                 // 1.7316 <= x < 2
                 (2.0 - xx, 0)
-            } else if xx >= Y_MIN - 0.27 {
+            } else if xx >= Y_MIN - 0.23 {
                 // 1.2316 <= x < 1.7316
                 (xx - TC, 1)
             } else {
-- 
2.43.0


From 8848a80eb95351959e0899b6daa0857964efd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:11 +0000
Subject: [PATCH 22/66] fix: refuse COO assign, add and Lagrange block before
 modifying when capacity is exceeded

---
 russell_sparse/src/complex_coo_matrix.rs |  6 ++++++
 russell_sparse/src/coo_matrix.rs         | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/russell_sparse/src/complex_coo_matrix.rs b/russell_sparse/src/complex_coo_matrix.rs
index df938f5..98829e7 100644
--- a/russell_sparse/src/complex_coo_matrix.rs
+++ b/russell_sparse/src/complex_coo_matrix.rs
@@ -60,6 +60,9 @@ impl ComplexCooMatrix {
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric flag");
         }
+        if other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         self.reset();
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
@@ -140,6 +143,9 @@ impl ComplexCooMatrix {
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric flag");
         }
+        if self.nnz + other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
             let j = other.indices_j[p] as usize;
diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..133d0f7 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -745,6 +745,9 @@ where
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric type");
         }
+        if other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         self.reset();
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
@@ -786,6 +789,9 @@ where
         if other.symmetric != self.symmetric {
             return Err("matrices must have the same symmetric type");
         }
+        if self.nnz + other.nnz > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         for p in 0..other.nnz {
             let i = other.indices_i[p] as usize;
             let j = other.indices_j[p] as usize;
@@ -830,6 +836,10 @@ where
         if bb.ncol + bb.nrow > self.ncol {
             return Err("ncol(B) + nrow(B) must be ≤ ncol(A)");
         }
+        let extra = if self.symmetric.triangular() { bb.nnz } else { 2 * bb.nnz };
+        if self.nnz + extra > self.max_nnz {
+            return Err("COO matrix: max number of items has been reached");
+        }
         if self.symmetric == Sym::YesLower {
             for p in 0..bb.nnz {
                 let i = bb.indices_i[p] as usize;
-- 
2.43.0


From 62a492849f8275acb9fdc903e7cf667f9e0e52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:18 +0000
Subject: [PATCH 23/66] fix: check symmetric shape and triangle in
 CooMatrix::from

---
 russell_sparse/src/coo_matrix.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 133d0f7..5eebe14 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -267,6 +267,9 @@ where
         if values.len() != nnz {
             return Err("values.len() must be = nnz");
         }
+        if symmetric != Sym::No && nrow != ncol {
+            return Err("symmetric storage requires a square matrix");
+        }
         let m = to_i32(nrow);
         let n = to_i32(ncol);
         for k in 0..nnz {
@@ -276,6 +279,12 @@ where
             if col_indices[k] < 0 || col_indices[k] >= n {
                 return Err("col index is out-of-range");
             }
+            if symmetric == Sym::YesLower && col_indices[k] > row_indices[k] {
+                return Err("COO matrix: j > i is incorrect for lower triangular storage");
+            }
+            if symmetric == Sym::YesUpper && col_indices[k] < row_indices[k] {
+                return Err("COO matrix: j < i is incorrect for upper triangular storage");
+            }
         }
         Ok(NumCooMatrix {
             symmetric,
-- 
2.43.0


From 854610272aef4b4e9a3fdc3c9f6eecd8c1326aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:18 +0000
Subject: [PATCH 24/66] fix: validate pointers and triangle in CscMatrix::new
 and CsrMatrix::new

---
 russell_sparse/src/csc_matrix.rs | 11 +++++++++++
 russell_sparse/src/csr_matrix.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 9f9bafa..23db0eb 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -232,6 +232,11 @@ where
             if col_pointers[j] > col_pointers[j + 1] {
                 return Err("col pointers must be sorted in ascending order");
             }
+        }
+        if col_pointers[0] != 0 {
+            return Err("the first col pointer must be zero");
+        }
+        for j in 0..ncol {
             let start = col_pointers[j] as usize;
             let end = col_pointers[j + 1] as usize;
             for p in start..end {
@@ -242,6 +247,12 @@ where
                 if i >= m {
                     return Err("row indices must be < nrow");
                 }
+                if symmetric == Sym::YesLower && (i as usize) < j {
+                    return Err("CSC matrix: j > i is incorrect for lower triangular storage");
+                }
+                if symmetric == Sym::YesUpper && (i as usize) > j {
+                    return Err("CSC matrix: j < i is incorrect for upper triangular storage");
+                }
                 if p > start {
                     if row_indices[p - 1] > row_indices[p] {
                         return Err("row indices must be sorted in ascending order (within their column)");
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index ac01ddd..535d712 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -228,6 +228,11 @@ where
             if row_pointers[i] > row_pointers[i + 1] {
                 return Err("row pointers must be sorted in ascending order");
             }
+        }
+        if row_pointers[0] != 0 {
+            return Err("the first row pointer must be zero");
+        }
+        for i in 0..nrow {
             let start = row_pointers[i] as usize;
             let end = row_pointers[i + 1] as usize;
             for p in start..end {
@@ -238,6 +243,12 @@ where
                 if j >= n {
                     return Err("column indices must be < ncol");
                 }
+                if symmetric == Sym::YesLower && (j as usize) > i {
+                    return Err("CSR matrix: j > i is incorrect for lower triangular storage");
+                }
+                if symmetric == Sym::YesUpper && (j as usize) < i {
+                    return Err("CSR matrix: j < i is incorrect for upper triangular storage");
+                }
                 if p > start {
                     if col_indices[p - 1] > col_indices[p] {
                         return Err("column indices must be sorted in ascending order (within their row)");
-- 
2.43.0


From 282be086690b0e28ec2e7d0c231fc6bbedaefd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:29 +0000
Subject: [PATCH 25/66] fix: write complex Matrix Market entries whose
 imaginary part exceeds the tolerance

---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From e23f1d3ced936e6c66a6976822d7624dd148d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:29 +0000
Subject: [PATCH 26/66] fix: restore y in the sparse numerical Jacobian when
 the function fails

---
 russell_sparse/src/numerical_jacobian.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_sparse/src/numerical_jacobian.rs b/russell_sparse/src/numerical_jacobian.rs
index 936c469..3bd1449 100644
--- a/russell_sparse/src/numerical_jacobian.rs
+++ b/russell_sparse/src/numerical_jacobian.rs
@@ -173,7 +173,11 @@ where
         let original_yj = y[j];
         let delta_yj = f64::sqrt(f64::EPSILON * f64::max(THRESHOLD, f64::abs(y[j])));
         y[j] += delta_yj; // Yⱼ := yⱼ + Δyⱼ
-        function(w2, x, y, args)?; // F := f(x, y + Δy)
+        // F := f(x, y + Δy)
+        if let Err(e) = function(w2, x, y, args) {
+            y[j] = original_yj; // restore yⱼ
+            return Err(e);
+        }
         let (start, endp1) = match jj.symmetric {
             Sym::YesLower => (j, ndim),
             Sym::YesUpper => (0, j + 1),
-- 
2.43.0


From ae0efee04ff1858d8ca5e4e39438158812075d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:29 +0000
Subject: [PATCH 27/66] fix: return errors instead of panicking on malformed
 Matrix Market files

---
 russell_sparse/src/read_matrix_market.rs | 30 ++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/russell_sparse/src/read_matrix_market.rs b/russell_sparse/src/read_matrix_market.rs
index 5a0ce55..7e8c1da 100644
--- a/russell_sparse/src/read_matrix_market.rs
+++ b/russell_sparse/src/read_matrix_market.rs
@@ -170,12 +170,15 @@ impl MatrixMarketData {
             };
         }
 
-        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
-        self.j -= 1;
-
-        if self.i < 0 || self.i >= self.m || self.j < 0 || self.j >= self.n {
+        if self.i < 1 || self.i > self.m || self.j < 1 || self.j > self.n {
             return Err("found an invalid index");
         }
+        if self.symmetric && self.j > self.i {
+            return Err("found an entry above the diagonal of a symmetric matrix");
+        }
+
+        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
+        self.j -= 1;
 
         self.pos += 1; // next position
 
@@ -360,7 +363,7 @@ where
 
     // read first line
     let header = match lines_iter.next() {
-        Some(v) => v.unwrap(), // must panic because no error expected here
+        Some(v) => v.map_err(|_| "cannot read line")?,
         None => return Err("the file is empty"),
     };
 
@@ -369,7 +372,10 @@ where
 
     // read and parse dimensions
     loop {
-        let line = lines_iter.next().unwrap().unwrap(); // must panic because no error expected here
+        let line = match lines_iter.next() {
+            Some(v) => v.map_err(|_| "cannot read line")?,
+            None => return Err("cannot find the line with the dimensions"),
+        };
         if data.parse_dimensions(&line)? {
             break;
         }
@@ -392,18 +398,18 @@ where
     };
 
     // set max number of entries
-    let mut max = data.nnz;
+    let mut max = data.nnz as usize;
     if data.symmetric && symmetric_handling == MMsym::MakeItFull {
-        max = 2 * data.nnz;
+        max *= 2;
     }
 
     // read and parse values
     if data.complex {
-        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max, sym).unwrap();
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
@@ -438,11 +444,11 @@ where
         }
         Ok((None, Some(coo)))
     } else {
-        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max, sym).unwrap();
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
-- 
2.43.0


From fb0913600858d864016e15f011d7f3bbcc839de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:17 +0000
Subject: [PATCH 28/66] fix: report singular matrices when the UMFPACK
 determinant is requested

---
 russell_sparse/c_code/interface_complex_umfpack.c | 2 +-
 russell_sparse/c_code/interface_umfpack.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_umfpack.c b/russell_sparse/c_code/interface_complex_umfpack.c
index c14b231..fa7038b 100644
--- a/russell_sparse/c_code/interface_complex_umfpack.c
+++ b/russell_sparse/c_code/interface_complex_umfpack.c
@@ -188,7 +188,7 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_zi_get_determinant(determinant_coefficient_real,
                                           determinant_coefficient_imag,
                                           determinant_exponent,
diff --git a/russell_sparse/c_code/interface_umfpack.c b/russell_sparse/c_code/interface_umfpack.c
index 2133ffb..471bf12 100644
--- a/russell_sparse/c_code/interface_umfpack.c
+++ b/russell_sparse/c_code/interface_umfpack.c
@@ -184,7 +184,7 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_di_get_determinant(determinant_coefficient,
                                           determinant_exponent,
                                           solver->numeric,
-- 
2.43.0


From 121fc8ac3f57b7ae302264cdc0346f75a0c5d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:17 +0000
Subject: [PATCH 29/66] fix: keep computing the UMFPACK determinant in
 subsequent factorizations

---
 russell_sparse/src/complex_solver_umfpack.rs | 9 ++++++++-
 russell_sparse/src/solver_umfpack.rs         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index 8691eb6..e3c6f83 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -139,6 +139,9 @@ pub struct ComplexSolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request to compute the determinant saved in initialize
+    initialized_det: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -204,6 +207,7 @@ impl ComplexSolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_det: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -286,7 +290,10 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        if !self.initialized {
+            self.initialized_det = par.compute_determinant;
+        }
+        let compute_determinant = if self.initialized_det { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index 3653716..147c3fa 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -129,6 +129,9 @@ pub struct SolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request to compute the determinant saved in initialize
+    initialized_det: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -189,6 +192,7 @@ impl SolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_det: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -270,7 +274,10 @@ impl LinSolTrait for SolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        if !self.initialized {
+            self.initialized_det = par.compute_determinant;
+        }
+        let compute_determinant = if self.initialized_det { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
-- 
2.43.0


From 788b2c131e3f3b678427710373c386ca8f88e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:10 +0000
Subject: [PATCH 30/66] fix: overwrite all entries when writing tensors into
 given buffers

Converting a two-dimensional tensor into an existing matrix or nested array left the out-of-plane entries as they were. Decomposing a general tensor left the skew positions of the symmetric part as they were.
---
 russell_tensor/src/tensor2.rs | 17 ++++---------
 russell_tensor/src/tensor3.rs | 46 +++--------------------------------
 russell_tensor/src/tensor4.rs | 25 ++++---------------
 3 files changed, 14 insertions(+), 74 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..233b532 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -656,19 +656,9 @@ impl Tensor2 {
     /// ```
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
-        if self.dim < 9 {
-            for m in 0..self.dim {
-                let (i, j) = M_TO_IJ[m];
+        for i in 0..3 {
+            for j in 0..3 {
                 mat.set(i, j, self.get_std(i, j));
-                if i != j {
-                    mat.set(j, i, mat.get(i, j));
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    mat.set(i, j, self.get_std(i, j));
-                }
             }
         }
     }
@@ -1740,6 +1730,9 @@ impl Tensor2 {
                 sym.vec[m] = self.vec[m];
                 skw.vec[m] = 0.0;
             }
+            sym.vec[6] = 0.0;
+            sym.vec[7] = 0.0;
+            sym.vec[8] = 0.0;
             skw.set(6, self.vec[6]);
             skw.set(7, self.vec[7]);
             skw.set(8, self.vec[8]);
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..d235583 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -969,48 +969,10 @@ impl Tensor3 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
-        if self.case_a {
-            if self.nrow == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if i != j {
-                            dd[j][i][k] = dd[i][j][k];
-                        }
-                    }
-                }
-            }
-        } else {
-            if self.ncol == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if j != k {
-                            dd[i][k][j] = dd[i][j][k];
-                        }
-                    }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    dd[i][j][k] = self.get_std(i, j, k);
                 }
             }
         }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..18e1e19 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -880,26 +880,11 @@ impl Tensor4 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
-        let dim = self.dim;
-        if dim < 9 {
-            for m in 0..dim {
-                for n in 0..dim {
-                    let (i, j, k, l) = MN_TO_IJKL[m][n];
-                    dd[i][j][k][l] = self.get_std(i, j, k, l);
-                    if i != j || k != l {
-                        dd[j][i][k][l] = dd[i][j][k][l];
-                        dd[i][j][l][k] = dd[i][j][k][l];
-                        dd[j][i][l][k] = dd[i][j][k][l];
-                    }
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    for k in 0..3 {
-                        for l in 0..3 {
-                            dd[i][j][k][l] = self.get_std(i, j, k, l);
-                        }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    for l in 0..3 {
+                        dd[i][j][k][l] = self.get_std(i, j, k, l);
                     }
                 }
             }
-- 
2.43.0


From 809ec7ef814528f009e432c4d3738c0b3c338a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:10 +0000
Subject: [PATCH 31/66] fix: refuse out-of-plane dyadic products for 2D tensors

The dyadic product of two vectors dropped the out-of-plane components when the result was a Symmetric2D tensor. Products that do not fit are now an error, and the zz component is kept.
---
 russell_tensor/src/operations_t2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/operations_t2.rs b/russell_tensor/src/operations_t2.rs
index a0ae546..5a88c15 100644
--- a/russell_tensor/src/operations_t2.rs
+++ b/russell_tensor/src/operations_t2.rs
@@ -424,9 +424,16 @@ pub fn t1_dyad_t1(a: &mut Tensor2, alpha: f64, u: &Tensor1, v: &Tensor1) -> Resu
         if (u.get(0) * v.get(1)) != (u.get(1) * v.get(0)) {
             return Err("dyadic product between u and v does not generate a symmetric tensor");
         }
+        if (u.get(0) * v.get(2)) != 0.0
+            || (u.get(1) * v.get(2)) != 0.0
+            || (u.get(2) * v.get(0)) != 0.0
+            || (u.get(2) * v.get(1)) != 0.0
+        {
+            return Err("dyadic product between u and v does not generate a 2D symmetric tensor");
+        }
         a.vec[0] = alpha * u.get(0) * v.get(0);
         a.vec[1] = alpha * u.get(1) * v.get(1);
-        a.vec[2] = 0.0;
+        a.vec[2] = alpha * u.get(2) * v.get(2);
         a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
     } else {
         a.vec[0] = alpha * u.get(0) * v.get(0);
-- 
2.43.0


From 9e159ab7c12723e2853ac7d1fbff24eba4ec2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:02 +0000
Subject: [PATCH 32/66] fix: keep the Lode invariant of symmetric tensors
 within [-1, 1]

Rounding could return values such as 1.0000000000000002, which new_from_octahedral then refuses.
---
 russell_tensor/src/tensor2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index 233b532..1d69fbd 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -2208,7 +2208,12 @@ impl Tensor2 {
         let jj2 = self.invariant_jj2();
         if jj2 > TOL_J2 {
             let jj3 = self.invariant_jj3();
-            Some(1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5))
+            let lode = 1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5);
+            if self.rep.symmetric() {
+                Some(lode.clamp(-1.0, 1.0)) // remove rounding errors
+            } else {
+                Some(lode)
+            }
         } else {
             None
         }
-- 
2.43.0


From e59bdfbe3943127bea4597c5ef9eedaaf7cceb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 33/66] fix: refuse normal and lognormal parameters that define
 no distribution

The lognormal distribution is now evaluated down to x = 0 as well, and its moments keep their precision for small deviations.
---
 russell_stat/src/distribution_lognormal.rs | 26 ++++++++++------------
 russell_stat/src/distribution_normal.rs    |  3 +++
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 17e19ea..40105da 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, LogNormal};
 use russell_lab::math::{SQRT_2, SQRT_PI, erf};
 
-const LOGNORMAL_MIN_X: f64 = 1e-15;
-
 /// Implements the Lognormal distribution
 ///
 /// See: <https://en.wikipedia.org/wiki/Log-normal_distribution>
@@ -27,6 +25,9 @@ impl DistributionLognormal {
     /// * `mu_logx` -- mean (μ) of log(x)
     /// * `sig_logx` -- standard deviation (σ) of log(x)
     pub fn new(mu_logx: f64, sig_logx: f64) -> Result<Self, StrError> {
+        if !f64::is_finite(mu_logx) || !(sig_logx > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionLognormal {
             mu_logx,
             sig_logx,
@@ -45,17 +46,14 @@ impl DistributionLognormal {
     ///
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !(mu > 0.0) || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         let d = sig / mu;
-        let v = f64::ln(1.0 + d * d);
+        let v = f64::ln_1p(d * d);
         let sig_logx = f64::sqrt(v);
         let mu_logx = f64::ln(mu) - v / 2.0;
-        Ok(DistributionLognormal {
-            mu_logx,
-            sig_logx,
-            a: 1.0 / (sig_logx * SQRT_2 * SQRT_PI),
-            b: -1.0 / (2.0 * sig_logx * sig_logx),
-            sampler: LogNormal::new(mu_logx, sig_logx).map_err(|_| "invalid parameters")?,
-        })
+        DistributionLognormal::new(mu_logx, sig_logx)
     }
 }
 
@@ -76,7 +74,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         self.a * f64::exp(self.b * f64::powf(f64::ln(x) - self.mu_logx, 2.0)) / x
@@ -98,7 +96,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         (1.0 + erf((f64::ln(x) - self.mu_logx) / (self.sig_logx * SQRT_2))) / 2.0
@@ -140,7 +138,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// ```
     fn variance(&self) -> f64 {
         let ss = self.sig_logx * self.sig_logx;
-        (f64::exp(ss) - 1.0) * f64::exp(2.0 * self.mu_logx + ss)
+        f64::exp_m1(ss) * f64::exp(2.0 * self.mu_logx + ss)
     }
 
     /// Generates a pseudo-random number belonging to this probability distribution
@@ -343,7 +341,7 @@ mod tests {
         let d = DistributionLognormal::new_from_mu_sig(mu, sig).unwrap();
         let ss = d.sig_logx * d.sig_logx;
         let mean = f64::exp(d.mu_logx + ss / 2.0);
-        let var = (f64::exp(ss) - 1.0) * f64::exp(2.0 * d.mu_logx + ss);
+        let var = f64::exp_m1(ss) * f64::exp(2.0 * d.mu_logx + ss);
         approx_eq(mean, mu, 1e-15);
         approx_eq(f64::sqrt(var), sig, 1e-15);
     }
diff --git a/russell_stat/src/distribution_normal.rs b/russell_stat/src/distribution_normal.rs
index e5e04f3..763ff40 100644
--- a/russell_stat/src/distribution_normal.rs
+++ b/russell_stat/src/distribution_normal.rs
@@ -25,6 +25,9 @@ impl DistributionNormal {
     /// * `mu` -- mean μ
     /// * `sig` -- standard deviation σ
     pub fn new(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !f64::is_finite(mu) || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionNormal {
             mu,
             sig,
-- 
2.43.0


From 1fe7be0542508075356c4c43469249d7aff8948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 34/66] fix: avoid NaN in the Gumbel and Frechet densities and
 support small Frechet scales

---
 russell_stat/src/distribution_frechet.rs | 12 +++++++-----
 russell_stat/src/distribution_gumbel.rs  |  6 +++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index e61a2df..d4e87d4 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, Frechet};
 use russell_lab::math::gamma;
 
-const FRECHET_MIN_DELTA_X: f64 = 1e-15;
-
 /// Implements the Frechet distribution
 ///
 /// This is a Type II Extreme Value Distribution (largest value)
@@ -55,11 +53,15 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
-        f64::exp(-f64::powf(z, -self.shape)) * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
+        let e = f64::exp(-f64::powf(z, -self.shape));
+        if e == 0.0 {
+            return 0.0; // avoid 0 ⋅ ∞
+        }
+        e * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
@@ -82,7 +84,7 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
diff --git a/russell_stat/src/distribution_gumbel.rs b/russell_stat/src/distribution_gumbel.rs
index 4eb7103..c8bdbc0 100644
--- a/russell_stat/src/distribution_gumbel.rs
+++ b/russell_stat/src/distribution_gumbel.rs
@@ -70,7 +70,11 @@ impl ProbabilityDistribution for DistributionGumbel {
     /// ```
     fn pdf(&self, x: f64) -> f64 {
         let mz = (self.location - x) / self.scale;
-        f64::exp(mz) * f64::exp(-f64::exp(mz)) / self.scale
+        let e = f64::exp(mz);
+        if f64::is_infinite(e) {
+            return 0.0; // avoid ∞ ⋅ 0 or ∞ - ∞
+        }
+        f64::exp(mz - e) / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From d4bc6b433b908ce1b0298f1913804ae98ffc4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 35/66] fix: do not count NaN in histograms and refuse unsorted
 stations

---
 russell_stat/src/histogram.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/russell_stat/src/histogram.rs b/russell_stat/src/histogram.rs
index 54a066f..b7e9a68 100644
--- a/russell_stat/src/histogram.rs
+++ b/russell_stat/src/histogram.rs
@@ -84,6 +84,9 @@ where
         if stations.len() < 2 {
             return Err("histogram must have at least 2 stations");
         }
+        if stations.windows(2).any(|s| !(s[0] <= s[1])) {
+            return Err("stations must be sorted in ascending order");
+        }
         let nbins = stations.len() - 1;
         Ok(Histogram {
             stations: Vec::from(stations),
@@ -137,11 +140,8 @@ where
     fn find_bin(&self, x: T) -> Option<usize> {
         // handle values outside range
         let nstation = self.stations.len();
-        if x < self.stations[0] {
-            return None;
-        }
-        if x >= self.stations[nstation - 1] {
-            return None;
+        if !(x >= self.stations[0] && x < self.stations[nstation - 1]) {
+            return None; // this includes NaN
         }
 
         // perform binary search
-- 
2.43.0


From 8fb6c7208c6c65b3da19af40f03b985062ad68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 36/66] fix: refuse NaN as the requested quantile

---
 russell_stat/src/quantile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_stat/src/quantile.rs b/russell_stat/src/quantile.rs
index cc105b2..cebe78f 100644
--- a/russell_stat/src/quantile.rs
+++ b/russell_stat/src/quantile.rs
@@ -57,7 +57,7 @@ where
     if n == 0 {
         panic!("Input data slice must not be empty");
     }
-    if q < 0.0 || q > 1.0 {
+    if !(q >= 0.0 && q <= 1.0) {
         panic!("Quantile q must be in the range [0.0, 1.0]");
     }
 
-- 
2.43.0


From 5d15f21916bb742181e2b3c23064f5dbc83e0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:05 +0000
Subject: [PATCH 37/66] fix: detect uniform grid spacing relative to the size
 of the coordinates

The spacing of a uniform grid was compared with an absolute tolerance, so
grids over long domains or far from the origin were reported as non-uniform
and any grid over a tiny domain was reported as uniform.
---
 russell_pde/src/grid_1d.rs | 5 +++--
 russell_pde/src/grid_2d.rs | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3b453b1..0999152 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -354,18 +354,19 @@ impl Grid1d {
     ///
     /// # Notes
     ///
-    /// * The method uses a tolerance of 10·ε to account for floating-point precision
+    /// * The method uses a tolerance of 3.5·ε·max(|xmin|,|xmax|) to account for floating-point precision
     /// * For grids created with `new_uniform()`, this always returns `Some(dx)`
     /// * For CGL grids or arbitrary grids, this typically returns `None`
     pub fn get_dx(&self) -> Option<f64> {
         let mut dx = f64::NEG_INFINITY;
+        let tol = 3.5 * f64::EPSILON * f64::max(f64::abs(self.coords[0]), f64::abs(self.coords[self.nx - 1]));
         for i in 1..self.nx {
             let x = self.coords[i];
             let xl = self.coords[i - 1];
             if dx == f64::NEG_INFINITY {
                 dx = x - xl;
                 assert!(dx > 0.0);
-            } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+            } else if f64::abs(x - xl - dx) > tol {
                 return None; // non-uniform
             }
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 457128b..d504231 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -655,10 +655,12 @@ impl Grid2d {
     ///
     /// * For uniform grids: dx = (xmax - xmin) / (nx - 1), dy = (ymax - ymin) / (ny - 1)
     /// * Chebyshev-Gauss-Lobatto grids are non-uniform and return `None`
-    /// * Uses a tolerance of 10×ε to check for uniform spacing
+    /// * Uses a tolerance of 3.5×ε×(largest absolute coordinate) to check for uniform spacing
     pub fn get_dx_dy(&self) -> Option<(f64, f64)> {
         let mut dx = f64::NEG_INFINITY;
         let mut dy = f64::NEG_INFINITY;
+        let tol_x = 3.5 * f64::EPSILON * f64::max(f64::abs(self.xmin), f64::abs(self.xmax));
+        let tol_y = 3.5 * f64::EPSILON * f64::max(f64::abs(self.ymin), f64::abs(self.ymax));
         for j in 1..self.ny {
             for i in 1..self.nx {
                 let m = i + j * self.nx; // this node
@@ -670,13 +672,13 @@ impl Grid2d {
                 if dx == f64::NEG_INFINITY {
                     dx = x - xl;
                     assert!(dx > 0.0);
-                } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+                } else if f64::abs(x - xl - dx) > tol_x {
                     return None; // non-uniform in x
                 }
                 if dy == f64::NEG_INFINITY {
                     dy = y - yb;
                     assert!(dy > 0.0);
-                } else if f64::abs(y - yb - dy) > 10.0 * f64::EPSILON {
+                } else if f64::abs(y - yb - dy) > tol_y {
                     return None; // non-uniform in y
                 }
             }
-- 
2.43.0


From c212126ad33c50ea29b5ef041883273c54f4b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:26 +0000
Subject: [PATCH 38/66] fix: refuse grids with NaN or infinite coordinates

---
 russell_pde/src/grid_1d.rs | 6 ++++++
 russell_pde/src/grid_2d.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 0999152..7b697a4 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -124,6 +124,9 @@ impl Grid1d {
         if nx < 2 {
             return Err("nx must be ≥ 2");
         }
+        if xx.iter().any(|x| !x.is_finite()) {
+            return Err("xx must be finite");
+        }
         for i in 1..nx {
             if xx[i] <= xx[i - 1] {
                 return Err("xx must be strictly increasing");
@@ -183,6 +186,9 @@ impl Grid1d {
         if nx < 2 {
             return Err("nx must be ≥ 2");
         }
+        if !xmin.is_finite() || !xmax.is_finite() {
+            return Err("xmin and xmax must be finite");
+        }
         if xmax <= xmin {
             return Err("xmax must be > xmin");
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index d504231..d460dee 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -228,6 +228,9 @@ impl Grid2d {
         if ny < 2 {
             return Err("ny must be ≥ 2");
         }
+        if xx.iter().chain(yy.iter()).any(|x| !x.is_finite()) {
+            return Err("xx and yy must be finite");
+        }
         let mut coords = Vec::with_capacity(nx * ny);
         let xmin = xx[0];
         let xmax = xx[nx - 1];
@@ -314,6 +317,9 @@ impl Grid2d {
         if ny < 2 {
             return Err("ny must be ≥ 2");
         }
+        if [xmin, xmax, ymin, ymax].iter().any(|x| !x.is_finite()) {
+            return Err("xmin, xmax, ymin, and ymax must be finite");
+        }
         if xmax <= xmin {
             return Err("xmax must be > xmin");
         }
-- 
2.43.0


From 2e1142f63ed2147a7a5ce2355ffc545471c5d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:39 +0000
Subject: [PATCH 39/66] fix: solve PDE problems without essential boundary
 conditions

The system partitioning strategy panicked when no value was prescribed
(only natural or periodic conditions).
---
 russell_pde/src/fdm_1d.rs     | 5 +++--
 russell_pde/src/fdm_2d.rs     | 5 +++--
 russell_pde/src/spc_1d.rs     | 7 +++++--
 russell_pde/src/spc_2d.rs     | 7 +++++--
 russell_pde/src/spc_map_2d.rs | 7 +++++--
 5 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 615db05..4eee95d 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -371,10 +371,11 @@ impl<'a> Fdm1d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // update the right-hand side with the prescribed values
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 54ed987..fb39442 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -447,10 +447,11 @@ impl<'a> Fdm2d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 7948e72..acf49c1 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -284,7 +284,9 @@ impl<'a> Spc1d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -468,7 +470,8 @@ impl<'a> Spc1d<'a> {
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        // russell_sparse requires at least one column
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 08a8372..38fcad0 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -335,7 +335,9 @@ impl<'a> Spc2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -537,7 +539,8 @@ impl<'a> Spc2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        // russell_sparse requires at least one column
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 23ad109..943262e 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -387,7 +387,9 @@ impl<'a> SpcMap2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -574,7 +576,8 @@ impl<'a> SpcMap2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nr * nr * ns * ns; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        // russell_sparse requires at least one column
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap();
 
         // add all terms to the coefficient matrix
         for m in self.equations.unknown().clone() {
-- 
2.43.0


From 6b410c01f4ab02a740b6fa48ce98166679f9e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:49 +0000
Subject: [PATCH 40/66] fix: return the prescribed values when no equation is
 unknown

The system partitioning strategy panicked on grids where all nodes have
essential boundary conditions.
---
 russell_pde/src/fdm_1d.rs     | 6 ++++++
 russell_pde/src/fdm_2d.rs     | 6 ++++++
 russell_pde/src/spc_1d.rs     | 6 ++++++
 russell_pde/src/spc_2d.rs     | 6 ++++++
 russell_pde/src/spc_map_2d.rs | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 4eee95d..61eaf97 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -367,6 +367,12 @@ impl<'a> Fdm1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index fb39442..1c4f872 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -443,6 +443,12 @@ impl<'a> Fdm2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index acf49c1..96d2f02 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -279,6 +279,12 @@ impl<'a> Spc1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 38fcad0..59c3b76 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -330,6 +330,12 @@ impl<'a> Spc2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 943262e..0d863aa 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -382,6 +382,12 @@ impl<'a> SpcMap2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-- 
2.43.0


From ab9d2b154a127f73356e3552579a6f3b1b29c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:10 +0000
Subject: [PATCH 41/66] fix: apply the full flux at the ends of natural sides
 next to periodic sides

With periodic conditions along one direction there are no corners, but the
flux at the first and last node of the other two sides was halved.
---
 russell_pde/src/fdm_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 1c4f872..3c2e4c8 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -763,11 +763,12 @@ impl<'a> Fdm2d<'a> {
         let a_bar = Vector::new(nu);
         let mut a_check = Vector::new(np);
         let mut f_bar = Vector::new(nu);
+        let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y; // no corners if periodic
         self.equations.unknown().iter().for_each(|&m| {
             let iu = self.equations.iu(m);
             let (x, y) = self.grid.coord(m);
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
@@ -852,9 +853,10 @@ impl<'a> Fdm2d<'a> {
         let (neq, _, ndim) = self.get_dims_lmm();
         let aa = Vector::new(ndim);
         let mut ff = Vector::new(ndim);
+        let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y; // no corners if periodic
         self.grid.for_each_coord(|m, x, y| {
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-- 
2.43.0


From c8cba6d96dea164e68a0d3d05c90cefcdd827e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:02 +0000
Subject: [PATCH 42/66] fix: compute the metrics of maps with small or
 stretched base vectors

The inverse of the covariant matrix was refused when its determinant was
below a fixed limit. Maps of small domains were thus taken as singular.
---
 russell_pde/src/metrics.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/russell_pde/src/metrics.rs b/russell_pde/src/metrics.rs
index 791b2c7..f6489a6 100644
--- a/russell_pde/src/metrics.rs
+++ b/russell_pde/src/metrics.rs
@@ -264,7 +264,28 @@ impl Metrics {
         }
 
         // contravariant matrix and determinant of the covariant matrix
-        let g = mat_inverse(&mut self.gg_mat, &self.g_mat)?;
+        // (the base vectors are scaled to the order of one, because mat_inverse compares the determinant
+        // with a fixed limit; powers of two are used, thus the scaling does not introduce rounding errors)
+        let mut scale = [1.0; 3];
+        for i in 0..self.ndim {
+            let g_ii = self.g_mat.get(i, i);
+            if g_ii > 0.0 && g_ii.is_finite() {
+                scale[i] = (-0.5 * g_ii.log2()).round().exp2();
+            }
+        }
+        let mut g_scaled = self.g_mat.clone();
+        for i in 0..self.ndim {
+            for j in 0..self.ndim {
+                g_scaled.set(i, j, scale[i] * self.g_mat.get(i, j) * scale[j]);
+            }
+        }
+        let mut g = mat_inverse(&mut self.gg_mat, &g_scaled)?;
+        for i in 0..self.ndim {
+            g /= scale[i] * scale[i];
+            for j in 0..self.ndim {
+                self.gg_mat.set(i, j, scale[i] * self.gg_mat.get(i, j) * scale[j]);
+            }
+        }
 
         // contravariant base vectors
         for d in 0..self.ndim {
-- 
2.43.0


From f09d6f92873550758504645a01e7d189e4f07026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:07 +0000
Subject: [PATCH 43/66] fix: include the tangential derivative in natural
 conditions on mapped domains

The normal derivative on a side has a component along the side when the map
is not orthogonal. Only the derivative across the side was considered.
---
 russell_pde/src/spc_map_2d.rs | 63 +++++++++++++----------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 0d863aa..3909e15 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -600,35 +600,19 @@ impl<'a> SpcMap2d<'a> {
                     let mut val = 0.0;
                     if i == 0 {
                         // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
                         // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
                         // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
                         // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Ymax, i, j, k, l);
                     }
                     self.put_val(&mut kk_bar, &mut kk_check, m, n, val);
                 }
@@ -700,35 +684,19 @@ impl<'a> SpcMap2d<'a> {
                     let mut val = 0.0;
                     if i == 0 {
                         // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
                         // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
                         // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
                         // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow_coef(Side::Ymax, i, j, k, l);
                     }
                     mm.put(m, n, val).unwrap();
                 }
@@ -962,6 +930,21 @@ impl<'a> SpcMap2d<'a> {
         self.un[1] /= norm_u;
     }
 
+    /// Calculates the coefficient of ϕₖₗ in the flow across a side -k ∂ϕ/∂n at point (i,j)
+    ///
+    /// ```text
+    /// ∂ϕ/∂n = n·g¹ ∂ϕ/∂r + n·g² ∂ϕ/∂s
+    /// ```
+    fn calc_normal_flow_coef(&mut self, side: Side, i: usize, j: usize, k: usize, l: usize) -> f64 {
+        if i != k && j != l {
+            return 0.0;
+        }
+        self.calc_unit_normal(side);
+        let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+        let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+        self.mk * (alpha * self.d1r(i, k) * delta(j, l) + beta * delta(i, k) * self.d1s(j, l))
+    }
+
     /// Puts the value into the correct position of the coefficient matrix
     fn put_val(&mut self, kk_bar: &mut CooMatrix, kk_check: &mut CooMatrix, m: usize, n: usize, val: f64) {
         // unknown row
-- 
2.43.0


From 1e35736f0d077b8b3af4eae03a66f5d959db692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:46 +0000
Subject: [PATCH 44/66] fix: refuse spectral collocation on empty, reversed or
 unbounded domains

---
 russell_pde/src/spc_1d.rs | 4 ++++
 russell_pde/src/spc_2d.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 96d2f02..b1c73c8 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -173,6 +173,7 @@ impl<'a> Spc1d<'a> {
     /// * `Ok(Spc1d)` - Successfully initialized solver
     /// * `Err` - If:
     ///   * `nx` < 2
+    ///   * The limits of the domain are not finite or are not increasing
     ///   * Polynomial degree > 2048
     ///   * Periodic boundary conditions are specified
     ///
@@ -195,6 +196,9 @@ impl<'a> Spc1d<'a> {
         if nx < 2 {
             return Err("nx must be ≥ 2");
         }
+        if !xmin.is_finite() || !xmax.is_finite() || xmax <= xmin {
+            return Err("xmin and xmax must be finite and xmax > xmin");
+        }
 
         // polynomial degree
         let nn = nx - 1;
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 59c3b76..ff4c419 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -208,6 +208,7 @@ impl<'a> Spc2d<'a> {
     /// * `Ok(Spc2d)` - Successfully initialized solver
     /// * `Err` - If:
     ///   * `nx` or `ny` < 2
+    ///   * The limits of the domain are not finite or are not increasing
     ///   * Polynomial degree > 2048
     ///   * Periodic boundary conditions are specified
     ///
@@ -237,6 +238,12 @@ impl<'a> Spc2d<'a> {
         if ny < 2 {
             return Err("ny must be ≥ 2");
         }
+        if !xmin.is_finite() || !xmax.is_finite() || xmax <= xmin {
+            return Err("xmin and xmax must be finite and xmax > xmin");
+        }
+        if !ymin.is_finite() || !ymax.is_finite() || ymax <= ymin {
+            return Err("ymin and ymax must be finite and ymax > ymin");
+        }
 
         // polynomial degrees
         let nn_x = nx - 1;
-- 
2.43.0


From 3b99b5afd06329fcb8398012fe2e996761eb77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:04 +0000
Subject: [PATCH 45/66] fix: take the right number of equal steps and refuse
 invalid intervals and diverging iterations in OdeSolver

---
 russell_ode/src/ode_solver.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..2b8542d 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -187,6 +187,9 @@ impl<'a, A> OdeSolver<'a, A> {
         if y0.dim() != self.ndim {
             return Err("y0.dim() must be equal to ndim");
         }
+        if !x0.is_finite() || !x1.is_finite() {
+            return Err("x0 and x1 must be finite");
+        }
         if x1 <= x0 {
             return Err("x1 must be greater than x0");
         }
@@ -195,22 +198,24 @@ impl<'a, A> OdeSolver<'a, A> {
         let info = self.params.method.information();
 
         // initial stepsize
-        let (equal_stepping, mut h) = match h_equal {
+        let (n_equal_step, mut h) = match h_equal {
             Some(h_eq) => {
-                if h_eq < 10.0 * f64::EPSILON {
+                if h_eq.is_nan() || h_eq < 10.0 * f64::EPSILON {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
-                let n = f64::ceil((x1 - x0) / h_eq) as usize;
+                // the small number prevents rounding errors in x0, x1, and h_eq from adding another step
+                let small = 10.0 * f64::EPSILON * (f64::abs(x0) + f64::abs(x1)) / h_eq;
+                let n = f64::max(1.0, f64::ceil((x1 - x0) / h_eq - small)) as usize;
                 let h = (x1 - x0) / (n as f64);
-                (true, h)
+                (n, h)
             }
             None => {
                 if info.embedded {
                     let h = f64::min(self.params.step.h_ini, x1 - x0);
-                    (false, h)
+                    (0, h)
                 } else {
                     let h = (x1 - x0) / (N_EQUAL_STEPS as f64);
-                    (true, h)
+                    (N_EQUAL_STEPS, h)
                 }
             }
         };
@@ -236,15 +241,19 @@ impl<'a, A> OdeSolver<'a, A> {
         }
 
         // equal-stepping loop
-        if equal_stepping {
-            let nstep = f64::ceil((x1 - x) / h) as usize;
-            for _ in 0..nstep {
+        if n_equal_step > 0 {
+            for _ in 0..n_equal_step {
                 self.work.stats.sw_step.reset();
 
                 // step
                 self.work.stats.n_steps += 1;
                 self.actual.step(&mut self.work, x, &y, h, args)?;
 
+                // the stepsize is fixed, so the step cannot be repeated if the iterations are diverging
+                if self.work.iterations_diverging {
+                    return Err("Newton-Raphson iterations are diverging");
+                }
+
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
-- 
2.43.0


From 50716a3ba863547ee3917c1515cdf022e49a9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 46/66] fix: factorize before the first linear solve in BwEuler
 with modified Newton

---
 russell_ode/src/euler_backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..a033f63 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -97,7 +97,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
             }
 
             // compute K matrix (augmented Jacobian)
-            if traditional_newton || work.stats.n_accepted == 0 {
+            if traditional_newton || work.stats.n_accepted == 0 || work.stats.n_factor == 0 {
                 // stats
                 work.stats.sw_jacobian.reset();
                 work.stats.n_jacobian += 1;
-- 
2.43.0


From 014fc6095cabae67073fcef3780b4d50611a556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:39 +0000
Subject: [PATCH 47/66] fix: interpret m_min and m_max as stepsize multipliers
 in Radau5

---
 russell_ode/src/params.rs |  2 +-
 russell_ode/src/radau5.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/russell_ode/src/params.rs b/russell_ode/src/params.rs
index 77e1eef..7ad6929 100644
--- a/russell_ode/src/params.rs
+++ b/russell_ode/src/params.rs
@@ -283,7 +283,7 @@ impl ParamsStep {
     /// Allocates a new instance
     pub(crate) fn new(method: Method) -> Self {
         let (m_min, m_max, m_safety, rel_error_prev_min) = match method {
-            Method::Radau5 => (0.125, 5.0, 0.9, 1e-2), // lines (534, 529, 477, 1018) of radau5.f
+            Method::Radau5 => (0.2, 8.0, 0.9, 1e-2),    // lines (529, 534, 477, 1018) of radau5.f
             Method::DoPri5 => (0.2, 10.0, 0.9, 1e-4),  // lines (276, 281, 265, 471) of dopri5.f
             Method::DoPri8 => (0.333, 6.0, 0.9, 1e-4), // lines (276, 281, 265, 661) of dop853.f
             _ => (0.2, 10.0, 0.9, 1e-4),
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..8f7593f 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -613,8 +613,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let den = (newt + 2 * self.params.newton.n_iteration_max) as f64;
         let fac = f64::min(self.params.step.m_safety, num / den);
         let div = f64::max(
-            self.params.step.m_min,
-            f64::min(self.params.step.m_max, f64::powf(work.rel_error, 0.25) / fac),
+            1.0 / self.params.step.m_max,
+            f64::min(1.0 / self.params.step.m_min, f64::powf(work.rel_error, 0.25) / fac),
         );
         let mut h_new = h / div;
 
@@ -624,7 +624,10 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
                 let r2 = work.rel_error * work.rel_error;
                 let rp = work.rel_error_prev;
                 let fac = (work.h_prev / h) * f64::powf(r2 / rp, 0.25) / self.params.step.m_safety;
-                let fac = f64::max(self.params.step.m_min, f64::min(self.params.step.m_max, fac));
+                let fac = f64::max(
+                    1.0 / self.params.step.m_max,
+                    f64::min(1.0 / self.params.step.m_min, fac),
+                );
                 let div = f64::max(div, fac);
                 h_new = h / div;
             }
@@ -659,8 +662,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let den = (newt + 2 * self.params.newton.n_iteration_max) as f64;
         let fac = f64::min(self.params.step.m_safety, num / den);
         let div = f64::max(
-            self.params.step.m_min,
-            f64::min(self.params.step.m_max, f64::powf(work.rel_error, 0.25) / fac),
+            1.0 / self.params.step.m_max,
+            f64::min(1.0 / self.params.step.m_min, f64::powf(work.rel_error, 0.25) / fac),
         );
         work.h_new = h / div;
     }
-- 
2.43.0


From 194998ee4149477af7e316ff078d200f77e31475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:20 +0000
Subject: [PATCH 48/66] fix: report an exhausted number of steps with dense
 output and allow small intervals in OdeSolver

---
 russell_ode/src/ode_solver.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 2b8542d..4632628 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -279,6 +279,9 @@ impl<'a, A> OdeSolver<'a, A> {
             return Ok(());
         }
 
+        // smallest stepsize, considering that x0 and x1 may be much smaller than one
+        let h_min = 10.0 * f64::EPSILON * f64::min(1.0, 1000.0 * f64::max(f64::abs(x0), f64::abs(x1)));
+
         // variable steps: control variables
         let mut success = false;
         let mut last_step = false;
@@ -289,7 +292,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
             // converged?
             let dx = x1 - x;
-            if dx <= 10.0 * f64::EPSILON {
+            if dx <= h_min {
                 success = true;
                 self.work.stats.stop_sw_step();
                 break;
@@ -297,7 +300,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
             // update and check the stepsize
             h = f64::min(self.work.h_new, dx);
-            if h <= 10.0 * f64::EPSILON {
+            if h <= h_min {
                 return Err("the stepsize becomes too small");
             }
 
@@ -374,18 +377,17 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
+        // check
+        self.work.stats.stop_sw_total();
+        if !success {
+            return Err("variable stepping did not converge");
+        }
+
         // last output
         if let Some(out) = output.as_deref_mut() {
             out.last(&self.work, h, x, y, args)?;
         }
-
-        // done
-        self.work.stats.stop_sw_total();
-        if success {
-            Ok(())
-        } else {
-            Err("variable stepping did not converge")
-        }
+        Ok(())
     }
 
     /// Update the parameters (e.g., for sensitive analyses)
-- 
2.43.0


From 4b617693843a140f71683319c169d911c403d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:43 +0000
Subject: [PATCH 49/66] fix: reject steps with a NaN error estimate in Radau5

---
 russell_ode/src/radau5.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 8f7593f..b611f8d 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -692,7 +692,12 @@ fn rms_norm(err: &Vector, scaling: &Vector) -> f64 {
         let ratio = err[m] / scaling[m];
         sum += ratio * ratio;
     }
-    f64::max(1e-10, f64::sqrt(sum / (ndim as f64)))
+    let norm = f64::sqrt(sum / (ndim as f64));
+    if norm < 1e-10 {
+        1e-10
+    } else {
+        norm // may be NaN, causing the step to be rejected
+    }
 }
 
 // Radau5 constants ------------------------------------------------------------
-- 
2.43.0


From 3df063331cf45184b602b18e1b64ab24deb7f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:40 +0000
Subject: [PATCH 50/66] fix: clear counters and results of the previous
 solution in the ODE output

---
 russell_ode/src/output.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index a9f238a..8365fca 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -425,19 +425,17 @@ impl<'a, A> Output<'a, A> {
         self.stiff_recording = stiff_recording;
         // clear previous results
         if self.initialized {
-            if self.step_recording {
-                self.step_h.clear();
-                self.step_x.clear();
-                self.step_global_error.clear();
-                for (_, ym) in self.step_y.iter_mut() {
-                    ym.clear();
-                }
-            }
-            if self.stiff_recording {
-                self.stiff_step_index.clear();
-                self.stiff_x.clear();
-                self.stiff_h_times_rho.clear();
+            self.step_file_count = 0;
+            self.step_h.clear();
+            self.step_x.clear();
+            self.step_global_error.clear();
+            for (_, ym) in self.step_y.iter_mut() {
+                ym.clear();
             }
+            self.stiff_step_index.clear();
+            self.stiff_x.clear();
+            self.stiff_h_times_rho.clear();
+            self.dense_file_count = 0;
         }
         // handle dense output stations
         if self.with_dense_output() {
@@ -472,9 +470,8 @@ impl<'a, A> Output<'a, A> {
             // allocate vectors in dense_y
             let n = self.dense_x.len();
             for (_, ym) in self.dense_y.iter_mut() {
-                if ym.len() != n {
-                    ym.resize(n, 0.0);
-                }
+                ym.clear();
+                ym.resize(n, 0.0);
             }
         }
         // set initialized
-- 
2.43.0


From 2d2389089c4c2c14c36bab22121bce1d5bde1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:40 +0000
Subject: [PATCH 51/66] fix: forget the previous solution and honour updated
 parameters in ODE solvers

The state of the iterations of Radau5 and the dense output of the explicit
methods remained from the previous solution. The factors derived from the
parameters and the structure of the matrices were not updated.
---
 russell_ode/src/euler_backward.rs       | 23 ++++++---
 russell_ode/src/explicit_runge_kutta.rs | 15 +++++-
 russell_ode/src/ode_solver.rs           |  1 +
 russell_ode/src/ode_solver_trait.rs     |  3 ++
 russell_ode/src/radau5.rs               | 63 ++++++++++++++++++-------
 5 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index a033f63..adcaa2f 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -36,12 +36,7 @@ impl<'a, A> EulerBackward<'a, A> {
     /// Allocates a new instance
     pub fn new(params: Params, system: System<'a, A>) -> Self {
         let ndim = system.ndim;
-        let jac_nnz = if params.newton.use_numerical_jacobian {
-            ndim * ndim
-        } else {
-            system.jac_nnz
-        };
-        let nnz = jac_nnz + ndim; // +ndim corresponds to the diagonal I matrix
+        let nnz = Self::calc_nnz(&params, &system);
         let sym = system.symmetric;
         EulerBackward {
             params,
@@ -54,6 +49,17 @@ impl<'a, A> EulerBackward<'a, A> {
             solver: LinSolver::new(params.newton.genie).unwrap(),
         }
     }
+
+    /// Calculates the number of non-zero values in the K matrix
+    fn calc_nnz(params: &Params, system: &System<'a, A>) -> usize {
+        let ndim = system.ndim;
+        let jac_nnz = if params.newton.use_numerical_jacobian {
+            ndim * ndim
+        } else {
+            system.jac_nnz
+        };
+        jac_nnz + ndim // +ndim corresponds to the diagonal I matrix
+    }
 }
 
 impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
@@ -168,6 +174,11 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        // the structure of K and the linear solver depend on the parameters
+        let ndim = self.system.ndim;
+        let nnz = Self::calc_nnz(&params, &self.system);
+        self.kk = CooMatrix::new(ndim, ndim, nnz, self.system.symmetric).unwrap();
+        self.solver = LinSolver::new(params.newton.genie).unwrap();
         self.params = params;
     }
 }
diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..2d89e4e 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -75,6 +75,11 @@ pub(crate) struct ExplicitRungeKutta<'a, A> {
     dense_out: Option<ErkDenseOut>,
 }
 
+/// Calculates the Lund stabilization factor (n)
+fn calc_lund_factor(info: &Information, params: &Params) -> f64 {
+    1.0 / ((info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m
+}
+
 impl<'a, A> ExplicitRungeKutta<'a, A> {
     /// Allocates a new instance
     pub fn new(params: Params, system: System<'a, A>) -> Result<Self, StrError> {
@@ -123,7 +128,7 @@ impl<'a, A> ExplicitRungeKutta<'a, A> {
         let nstage = bb.dim();
 
         // Lund stabilization factor (n)
-        let lund_factor = 1.0 / ((info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        let lund_factor = calc_lund_factor(&info, &params);
 
         // return structure
         let ndim = system.ndim;
@@ -148,6 +153,11 @@ impl<'a, A> ExplicitRungeKutta<'a, A> {
 }
 
 impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
+    /// Forgets everything about the previous solution (called at the beginning of each solution)
+    fn reset(&mut self) {
+        self.dense_out = None;
+    }
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError> {
         self.dense_out = Some(ErkDenseOut::new(self.params.method, self.system.ndim)?);
@@ -359,6 +369,9 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
         self.params = params;
+        self.lund_factor = calc_lund_factor(&self.info, &params);
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
     }
 }
 
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 4632628..4158634 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -223,6 +223,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // reset variables
         self.work.reset(h, self.params.step.rel_error_prev_min);
+        self.actual.reset();
 
         // current values
         let mut x = x0; // will become x1 at the end
diff --git a/russell_ode/src/ode_solver_trait.rs b/russell_ode/src/ode_solver_trait.rs
index 6432222..3c840e0 100644
--- a/russell_ode/src/ode_solver_trait.rs
+++ b/russell_ode/src/ode_solver_trait.rs
@@ -4,6 +4,9 @@ use russell_lab::Vector;
 
 /// Defines the numerical solver
 pub(crate) trait OdeSolverTrait<A>: Send {
+    /// Forgets everything about the previous solution (called at the beginning of each solution)
+    fn reset(&mut self) {}
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError>;
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index b611f8d..eb6d8b8 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -123,24 +123,12 @@ impl<'a, A> Radau5<'a, A> {
     /// Allocates a new instance
     pub fn new(params: Params, system: System<'a, A>) -> Self {
         let ndim = system.ndim;
-        let (mass, mass_nnz) = match system.calc_mass.as_ref() {
-            Some(calc) => {
-                let mut mm = CooMatrix::new(ndim, ndim, system.mass_nnz, system.symmetric).unwrap();
-                (calc)(&mut mm);
-                (Some(mm), system.mass_nnz)
-            }
-            None => (None, ndim), // ndim => diagonal
-        };
-        let jac_nnz = if params.newton.use_numerical_jacobian {
-            if system.symmetric.triangular() {
-                (ndim + ndim * ndim) / 2
-            } else {
-                ndim * ndim
-            }
-        } else {
-            system.jac_nnz
-        };
-        let nnz = mass_nnz + jac_nnz;
+        let mass = system.calc_mass.as_ref().map(|calc| {
+            let mut mm = CooMatrix::new(ndim, ndim, system.mass_nnz, system.symmetric).unwrap();
+            (calc)(&mut mm);
+            mm
+        });
+        let (jac_nnz, nnz) = Self::calc_nnz(&params, &system);
         let sym = system.symmetric;
         let theta = params.radau5.theta_max;
         Radau5 {
@@ -182,6 +170,27 @@ impl<'a, A> Radau5<'a, A> {
         }
     }
 
+    /// Calculates the number of non-zero values in the J and K matrices
+    ///
+    /// Returns `(jac_nnz, nnz)`
+    fn calc_nnz(params: &Params, system: &System<'a, A>) -> (usize, usize) {
+        let ndim = system.ndim;
+        let mass_nnz = match system.calc_mass {
+            Some(_) => system.mass_nnz,
+            None => ndim, // ndim => diagonal
+        };
+        let jac_nnz = if params.newton.use_numerical_jacobian {
+            if system.symmetric.triangular() {
+                (ndim + ndim * ndim) / 2
+            } else {
+                ndim * ndim
+            }
+        } else {
+            system.jac_nnz
+        };
+        (jac_nnz, mass_nnz + jac_nnz)
+    }
+
     /// Initializes the scaling and k_accepted vectors
     fn initialize(&mut self, work: &mut Workspace, x: f64, y: &Vector, args: &mut A) -> Result<(), StrError> {
         for i in 0..self.system.ndim {
@@ -327,6 +336,15 @@ impl<'a, A> Radau5<'a, A> {
 }
 
 impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
+    /// Forgets everything about the previous solution (called at the beginning of each solution)
+    fn reset(&mut self) {
+        self.reuse_jacobian = false;
+        self.reuse_jacobian_kk_and_fact = false;
+        self.jacobian_computed = false;
+        self.eta = 1.0;
+        self.theta = self.params.radau5.theta_max;
+    }
+
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError> {
         Ok(())
@@ -679,6 +697,15 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        // the structure of the matrices and the linear solvers depend on the parameters
+        let ndim = self.system.ndim;
+        let sym = self.system.symmetric;
+        let (jac_nnz, nnz) = Self::calc_nnz(&params, &self.system);
+        self.jj = CooMatrix::new(ndim, ndim, jac_nnz, sym).unwrap();
+        self.kk_real = CooMatrix::new(ndim, ndim, nnz, sym).unwrap();
+        self.kk_comp = ComplexCooMatrix::new(ndim, ndim, nnz, sym).unwrap();
+        self.solver_real = LinSolver::new(params.newton.genie).unwrap();
+        self.solver_comp = ComplexLinSolver::new(params.newton.genie).unwrap();
         self.params = params;
     }
 }
-- 
2.43.0


From adff2a4b50be6b74de753e3c4a940263bf53d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:54 +0000
Subject: [PATCH 52/66] fix: panics when dense output stations are within
 rounding of the steps

---
 russell_ode/src/ode_solver.rs | 8 +++++++-
 russell_ode/src/radau5.rs     | 1 -
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 4158634..2162a72 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -243,7 +243,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // equal-stepping loop
         if n_equal_step > 0 {
-            for _ in 0..n_equal_step {
+            for i in 0..n_equal_step {
                 self.work.stats.sw_step.reset();
 
                 // step
@@ -258,6 +258,9 @@ impl<'a, A> OdeSolver<'a, A> {
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
+                if i == n_equal_step - 1 {
+                    x = x1; // remove accumulated rounding errors
+                }
 
                 // check for anomalies
                 vec_all_finite(&y, self.params.debug)?;
@@ -323,6 +326,9 @@ impl<'a, A> OdeSolver<'a, A> {
                 // update x and y
                 self.work.stats.n_accepted += 1;
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
+                if h == dx {
+                    x = x1; // remove rounding errors
+                }
 
                 // check for anomalies
                 vec_all_finite(&y, self.params.debug)?;
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index eb6d8b8..274ebdd 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -688,7 +688,6 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Computes the dense output with x-h ≤ x_out ≤ x
     fn dense_output(&self, y_out: &mut Vector, x_out: f64, x: f64, y: &Vector, h: f64) {
-        assert!(x_out >= x - h && x_out <= x);
         let s = (x_out - x) / h;
         for m in 0..self.system.ndim {
             y_out[m] = y[m] + s * (self.yc0[m] + (s - MU4) * (self.yc1[m] + (s - MU3) * self.yc2[m]));
-- 
2.43.0


From 42f61e78030159b4a20b38a826710d0b3f437929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:54 +0000
Subject: [PATCH 53/66] fix: dense output stations, and results and count files
 when a callback stops

The last uniform station was dropped if h_out did not divide the interval.
NaN was accepted as a station. The results of the step at which a callback
stopped the run were not saved, and the count files were not written.
---
 russell_ode/src/output.rs | 78 +++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 8365fca..bc26a0f 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -267,7 +267,7 @@ impl<'a, A> Output<'a, A> {
     ///
     /// * `h_out` -- stepsize; it must be > 10.0 * f64::EPSILON
     pub fn set_dense_h_out(&mut self, h_out: f64) -> Result<&mut Self, StrError> {
-        if h_out <= 10.0 * f64::EPSILON {
+        if h_out.is_nan() || h_out <= 10.0 * f64::EPSILON {
             return Err("h_out must be > 10.0 * EPSILON");
         }
         self.dense_h_out = Some(h_out);
@@ -287,6 +287,9 @@ impl<'a, A> Output<'a, A> {
         let n = n_int + 2;
         self.dense_x = vec![0.0; n];
         for k in 0..n_int {
+            if !interior_x_out[k].is_finite() {
+                return Err("the dense output stations x must be finite");
+            }
             if k > 0 {
                 if interior_x_out[k] < interior_x_out[k - 1] {
                     return Err("the dense output stations x must be sorted in ascending order in (x0, x1)");
@@ -441,14 +444,14 @@ impl<'a, A> Output<'a, A> {
         if self.with_dense_output() {
             if let Some(h_out) = self.dense_h_out {
                 // uniform spacing
-                let n = usize::max(2, ((x1 + EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
+                let n = usize::max(2, ((x1 - x0) / h_out - EPS_X1_H_OUT).ceil() as usize + 1); // at least 2 (first and last) are required
                 if self.dense_x.len() != n {
                     self.dense_x.resize(n, 0.0);
                 }
                 self.dense_x[0] = x0;
                 self.dense_x[n - 1] = x1;
                 for i in 1..(n - 1) {
-                    self.dense_x[i] = self.dense_x[i - 1] + h_out;
+                    self.dense_x[i] = x0 + (i as f64) * h_out;
                 }
             } else {
                 // user-defined spacing
@@ -501,11 +504,9 @@ impl<'a, A> Output<'a, A> {
         // --- step --------------------------------------------------------------------------------------------
         //
         // step output: callback
+        let mut stop = false; // stop after saving the results
         if let Some(cb) = self.step_callback.as_ref() {
-            let stop = cb(&work.stats, h, x, y, args)?;
-            if stop {
-                return Ok(stop);
-            }
+            stop = cb(&work.stats, h, x, y, args)?;
         }
 
         // step output: write file
@@ -533,6 +534,12 @@ impl<'a, A> Output<'a, A> {
             }
         }
 
+        // step output: stop
+        if stop {
+            self.write_count_files()?;
+            return Ok(stop);
+        }
+
         // --- dense -------------------------------------------------------------------------------------------
         //
         if self.with_dense_output() {
@@ -542,10 +549,7 @@ impl<'a, A> Output<'a, A> {
 
                 // first dense output: callback
                 if let Some(cb) = self.dense_callback.as_ref() {
-                    let stop = cb(&work.stats, h, x, y, args)?;
-                    if stop {
-                        return Ok(stop);
-                    }
+                    stop = cb(&work.stats, h, x, y, args)?;
                 }
 
                 // first dense output: write file
@@ -563,6 +567,12 @@ impl<'a, A> Output<'a, A> {
                     }
                 }
 
+                // first dense output: stop
+                if stop {
+                    self.write_count_files()?;
+                    return Ok(stop);
+                }
+
                 // next station
                 self.dense_index += 1;
             } else {
@@ -588,10 +598,7 @@ impl<'a, A> Output<'a, A> {
 
                     // subsequent dense output: callback
                     if let Some(cb) = self.dense_callback.as_ref() {
-                        let stop = cb(&work.stats, h, x_out, y_out, args)?;
-                        if stop {
-                            return Ok(stop);
-                        }
+                        stop = cb(&work.stats, h, x_out, y_out, args)?;
                     }
 
                     // subsequent dense output: write file
@@ -609,6 +616,12 @@ impl<'a, A> Output<'a, A> {
                         }
                     }
 
+                    // subsequent dense output: stop
+                    if stop {
+                        self.write_count_files()?;
+                        return Ok(stop);
+                    }
+
                     // next station
                     self.dense_index += 1;
                 }
@@ -636,15 +649,6 @@ impl<'a, A> Output<'a, A> {
         // There is no need to handle these cases because the `step` method
         // already handled these options at the last (accepted) step
 
-        // step output: write file
-        if let Some(fp) = &self.step_file_key {
-            let full_path = format!("{}_count.json", fp).to_string();
-            let count = OutCount {
-                n: self.step_file_count,
-            };
-            count.write_json(&full_path)?;
-        }
-
         // --- dense -------------------------------------------------------------------------------------------
         //
         if self.with_dense_output() {
@@ -658,17 +662,10 @@ impl<'a, A> Output<'a, A> {
 
             // dense output: write file
             if let Some(fp) = &self.dense_file_key {
-                // data
                 let full_path = format!("{}_{}.json", fp, self.dense_file_count).to_string();
                 let results = OutDataRef { h, x, y };
                 results.write_json(&full_path)?;
                 self.dense_file_count += 1;
-                // count
-                let full_path = format!("{}_count.json", fp).to_string();
-                let count = OutCount {
-                    n: self.dense_file_count,
-                };
-                count.write_json(&full_path)?;
             }
 
             // dense output: record results
@@ -678,6 +675,25 @@ impl<'a, A> Output<'a, A> {
                 }
             }
         }
+        self.write_count_files()
+    }
+
+    /// Writes the files with the number of saved results
+    fn write_count_files(&self) -> Result<(), StrError> {
+        if let Some(fp) = &self.step_file_key {
+            let full_path = format!("{}_count.json", fp).to_string();
+            let count = OutCount {
+                n: self.step_file_count,
+            };
+            count.write_json(&full_path)?;
+        }
+        if let Some(fp) = &self.dense_file_key {
+            let full_path = format!("{}_count.json", fp).to_string();
+            let count = OutCount {
+                n: self.dense_file_count,
+            };
+            count.write_json(&full_path)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From e1ff32f9470f0f0f67635f33d06ecf8f638035a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 54/66] fix: do not evaluate f(x, y) again for the numerical
 Jacobian in implicit ODE methods

The value was known already and the additional call was not included in the
number of function evaluations.
---
 russell_ode/src/euler_backward.rs | 11 +++++++++--
 russell_ode/src/radau5.rs         |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index adcaa2f..9347f4c 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -112,9 +112,16 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
                 let kk = &mut self.kk;
                 if self.params.newton.use_numerical_jacobian || self.system.jacobian.is_none() {
                     work.stats.n_function += ndim;
-                    let w1 = &mut self.k; // workspace
+                    let w1 = &mut self.k; // workspace, already holding f(x_new, y_new)
                     let w2 = &mut self.dy; // workspace
-                    numerical_jacobian(kk, ndim, h, x_new, y_new, w1, w2, args, self.system.function.as_ref())?;
+                    let mut first = true;
+                    numerical_jacobian(kk, ndim, h, x_new, y_new, w1, w2, args, |f, x, y, args| {
+                        if first {
+                            first = false; // the first call is for f(x_new, y_new)
+                            return Ok(());
+                        }
+                        (self.system.function)(f, x, y, args)
+                    })?;
                 } else {
                     (self.system.jacobian.as_ref().unwrap())(kk, h, x_new, y_new, args)?;
                 }
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 274ebdd..030af20 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -220,7 +220,14 @@ impl<'a, A> Radau5<'a, A> {
                 let w2 = &mut self.dw1; // workspace
                 vec_copy(y_mut, y).unwrap();
                 let ndim = self.system.ndim;
-                numerical_jacobian(jj, ndim, 1.0, x, y_mut, w1, w2, args, self.system.function.as_ref())?;
+                let mut first = true;
+                numerical_jacobian(jj, ndim, 1.0, x, y_mut, w1, w2, args, |f, x, y, args| {
+                    if first {
+                        first = false; // the first call is for f(x, y)
+                        return vec_copy(f, &self.k_accepted);
+                    }
+                    (self.system.function)(f, x, y, args)
+                })?;
             } else {
                 (self.system.jacobian.as_ref().unwrap())(jj, 1.0, x, y, args)?;
             }
-- 
2.43.0


From cd03125a26d60d17d95f3e0aff22b8323f323ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:49 +0000
Subject: [PATCH 55/66] fix: NaN residuals, undefined stepsizes and the point
 of the Jacobian check in nonlinear solver

Treat any NaN or infinite component of the residual or of the correction as
a failure. The maximum norm ignores NaN, and the step was called converged.

Leave out the history terms of the stepsize control when the previous
relative differences are zero. The stepsize became NaN.

Evaluate the numerical Jacobian in check_ggu at the given lambda.
---
 russell_nonlin/src/iteration_error.rs | 4 ++--
 russell_nonlin/src/solver.rs          | 4 ++--
 russell_nonlin/src/system.rs          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..2ef757f 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -134,7 +134,7 @@ impl IterationError {
         self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
 
         // check for NaN or Inf
-        if !self.residual_max.is_finite() {
+        if !nn.is_finite() || gg.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
@@ -175,7 +175,7 @@ impl IterationError {
         self.delta_max = vec_norm(x, Norm::Max);
 
         // check for NaN or Inf
-        if !self.delta_max.is_finite() {
+        if x.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..3cbce59 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -390,11 +390,11 @@ impl<'a, A> Solver<'a, A> {
                 f64::powf(p, KP) * f64::powf(i, KI) * f64::powf(d, KD)
             } else {
                 let mut rho = f64::powf(1.0 / rdiff, self.config.tg_control_beta1);
-                if self.work.stats.n_accepted > 1 {
+                if self.work.stats.n_accepted > 1 && self.rerr_prev > 0.0 {
                     rho *= f64::powf(1.0 / self.rerr_prev, self.config.tg_control_beta2);
                     rho *= f64::powf(self.work.h / self.h_prev, -self.config.tg_control_alpha2);
                 }
-                if self.work.stats.n_accepted > 2 {
+                if self.work.stats.n_accepted > 2 && self.rerr_anc > 0.0 {
                     rho *= f64::powf(1.0 / self.rerr_anc, self.config.tg_control_beta3);
                     rho *= f64::powf(self.h_prev / self.h_anc, -self.config.tg_control_alpha3);
                 }
diff --git a/russell_nonlin/src/system.rs b/russell_nonlin/src/system.rs
index f21adc2..c925b57 100644
--- a/russell_nonlin/src/system.rs
+++ b/russell_nonlin/src/system.rs
@@ -262,7 +262,7 @@ impl<'a, A> System<'a, A> {
         (self.calc_jac)(&mut ggu, &mut ggl, l_at, &u_at, args).unwrap();
 
         // numerical Jacobian
-        let num = num_jacobian(self.ndim, 0.0, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
+        let num = num_jacobian(self.ndim, l_at, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
         let ana = ggu.as_dense();
 
         // check
-- 
2.43.0


From 53d5aa8f3718827fefba60861c75d06d184bdb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:46 +0000
Subject: [PATCH 56/66] fix: count accepted steps only in the steps criterion
 of the nonlinear solver

---
 russell_nonlin/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 3cbce59..b09e737 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -211,7 +211,7 @@ impl<'a, A> Solver<'a, A> {
             }
         } else {
             // variable stepsize
-            for i in 0..self.config.n_step_max {
+            for _ in 0..self.config.n_step_max {
                 // log
                 self.work.stats.sw_step.reset();
                 self.work.log.step(self.work.h, *l, false);
@@ -303,7 +303,7 @@ impl<'a, A> Solver<'a, A> {
 
                     // exit point
                     self.work.stats.stop_sw_step();
-                    if stop.now(i, u, *l) {
+                    if stop.now(self.work.stats.n_accepted - 1, u, *l) {
                         break;
                     }
                 }
-- 
2.43.0


From 8bb152c1553c269b2c8574c672dcc9a894717fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:09 +0000
Subject: [PATCH 57/66] fix: restore the tangent vector and the normalization
 mode after a rejected arclength step

---
 russell_nonlin/src/solver_arclength.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..332ec9a 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -458,10 +458,6 @@ impl<'a, A> SolverArclength<'a, A> {
 
     /// Updates the tangent vector after a successful iteration set
     fn update_tangent_vector(&mut self, work: &mut Workspace, args: &mut A) -> Result<(), StrError> {
-        // create a copy of the tangent vector at the initial point
-        vec_copy(&mut self.duds_prev, &work.duds).unwrap();
-        self.dlds_prev = work.dlds;
-
         // update the tangent vector
         let ndim = self.system.ndim;
         if self.config.bordering {
@@ -698,6 +694,13 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
         // start the recording of iteration errors
         work.stats.record_iterations_residuals_start();
 
+        // create a copy of the tangent vector at the initial point
+        vec_copy(&mut self.duds_prev, &work.duds).unwrap();
+        self.dlds_prev = work.dlds;
+
+        // set θ to normal operation (a previous attempt may have been targeting lambda)
+        self.theta = 1.0;
+
         // predictor: λ₁ = λ₀ + (2 - θ) σ · dλds₀
         work.l = l + (2.0 - self.theta) * work.h * work.dlds;
 
@@ -872,9 +875,13 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
 
     /// Handles the reject case by restoring the state and computing a new stepsize
     ///
-    /// Restores the previous u vector, external state variables (if using automatic
+    /// Restores the previous tangent vector, external state variables (if using automatic
     /// stepsize control), and clears the debug predictor values.
     fn reject(&mut self, work: &mut Workspace, args: &mut A) {
+        // restore the tangent vector at the initial point
+        vec_copy(&mut work.duds, &self.duds_prev).unwrap();
+        work.dlds = self.dlds_prev;
+
         // external: restore external state variables
         if work.auto {
             if let Some(f) = self.system.restore_secondary_state.as_ref() {
-- 
2.43.0


From 006218ecc2cc2d6d83200947de3727f8a309f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:09 +0000
Subject: [PATCH 58/66] fix: keep debug predictor values in line with the
 accepted steps of the nonlinear solver

---
 russell_nonlin/src/solver_arclength.rs | 18 +++++++++---------
 russell_nonlin/src/solver_natural.rs   | 18 +++++++++---------
 russell_nonlin/src/workspace.rs        |  1 +
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 332ec9a..0de3dae 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -735,15 +735,6 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -757,6 +748,15 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 11c3819..3ea375a 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -286,15 +286,6 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             vec_copy(&mut work.u, &u).unwrap();
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -308,6 +299,15 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
diff --git a/russell_nonlin/src/workspace.rs b/russell_nonlin/src/workspace.rs
index 13c953a..b28c8a0 100644
--- a/russell_nonlin/src/workspace.rs
+++ b/russell_nonlin/src/workspace.rs
@@ -130,5 +130,6 @@ impl Workspace {
         self.follows_rejection = false;
         self.target_reached = false;
         self.stop_gracefully = false;
+        self.predictor_values_debug = None;
     }
 }
-- 
2.43.0


From 9bf701ac77779c77e2ef7dff9a12207b24c014f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:09 +0000
Subject: [PATCH 59/66] fix: restore the secondary state when the automatic
 stepping of the nonlinear solver fails

---
 russell_nonlin/src/solver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index b09e737..cd2ffde 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -221,7 +221,7 @@ impl<'a, A> Solver<'a, A> {
                 status = self.actual.step(&mut self.work, u, *l, stop, args)?;
 
                 // redo the step if it violates the stop u-component criterion
-                if self.config.enable_precise_stop_u_comp {
+                if status.success() && self.config.enable_precise_stop_u_comp {
                     if let Some((i, u1i, is_min)) = stop.u_comp() {
                         if (is_min && self.work.u[i] < u1i - CONFIG_H_MIN)
                             || (!is_min && self.work.u[i] > u1i + CONFIG_H_MIN)
@@ -237,6 +237,7 @@ impl<'a, A> Solver<'a, A> {
                         self.work.n_continued_failure += 1;
                         self.work.follows_failure = true;
                     } else {
+                        self.actual.reject(&mut self.work, args);
                         break;
                     }
                 }
@@ -244,12 +245,14 @@ impl<'a, A> Solver<'a, A> {
                 // handle continued failure
                 if self.work.n_continued_failure >= self.config.n_cont_failure_max {
                     status = Status::ContinuedFailure;
+                    self.actual.reject(&mut self.work, args);
                     break;
                 }
 
                 // handle continued rejections
                 if self.work.n_continued_rejection >= self.config.n_cont_rejection_max {
                     status = Status::ContinuedRejection;
+                    self.actual.reject(&mut self.work, args);
                     break;
                 }
 
-- 
2.43.0


From ae256becba8e3be27d0b6447cf1ae9f947c93fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:10 +0000
Subject: [PATCH 60/66] fix: record the point at which the nonlinear solver is
 gracefully stopped

---
 russell_nonlin/src/output.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/russell_nonlin/src/output.rs b/russell_nonlin/src/output.rs
index b3d6c8e..459f979 100644
--- a/russell_nonlin/src/output.rs
+++ b/russell_nonlin/src/output.rs
@@ -190,11 +190,9 @@ impl<'a, A> Output<'a, A> {
     /// Executes the output at an accepted step
     pub(crate) fn execute(&mut self, work: &Workspace, u: &Vector, l: f64, args: &mut A) -> Result<bool, StrError> {
         // callback
+        let mut stop_gracefully = false;
         if let Some(cb) = self.callback.as_ref() {
-            let stop_gracefully = cb(&work.stats, &u, l, work.h, args)?;
-            if stop_gracefully {
-                return Ok(stop_gracefully);
-            }
+            stop_gracefully = cb(&work.stats, &u, l, work.h, args)?;
         }
 
         // record results
@@ -218,6 +216,6 @@ impl<'a, A> Output<'a, A> {
         }
 
         // done
-        Ok(false) // do not stop
+        Ok(stop_gracefully)
     }
 }
-- 
2.43.0


From 88e9b5fc5e6f44e736275a102471175d329c84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:52 +0000
Subject: [PATCH 61/66] fix: do not drop NaN in the maximum norms and maximum
 differences

A NaN component was skipped by the maximum norm and by the functions that
find the largest difference. A solution full of NaN was therefore reported
as having a zero relative error.
---
 russell_lab/src/matrix/mat_max_abs_diff.rs    | 3 +++
 russell_lab/src/vector/complex_vec_norm.rs    | 3 +++
 russell_lab/src/vector/vec_max_abs_diff.rs    | 3 +++
 russell_lab/src/vector/vec_max_scaled.rs      | 6 +++++-
 russell_lab/src/vector/vec_max_scaled_diff.rs | 6 +++++-
 russell_lab/src/vector/vec_norm.rs            | 3 +++
 russell_lab/src/vector/vec_norm_chunk.rs      | 3 +++
 7 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/matrix/mat_max_abs_diff.rs b/russell_lab/src/matrix/mat_max_abs_diff.rs
index cc9d97b..d77adc5 100644
--- a/russell_lab/src/matrix/mat_max_abs_diff.rs
+++ b/russell_lab/src/matrix/mat_max_abs_diff.rs
@@ -43,6 +43,9 @@ pub fn mat_max_abs_diff(a: &Matrix, b: &Matrix) -> Result<(usize, usize, f64), S
     for i in 0..m {
         for j in 0..n {
             let abs_diff = f64::abs(a.get(i, j) - b.get(i, j));
+            if abs_diff.is_nan() {
+                return Ok((i, j, f64::NAN));
+            }
             if abs_diff > max_abs_diff {
                 i_found = i;
                 j_found = j;
diff --git a/russell_lab/src/vector/complex_vec_norm.rs b/russell_lab/src/vector/complex_vec_norm.rs
index be4e7ee..fa450b3 100644
--- a/russell_lab/src/vector/complex_vec_norm.rs
+++ b/russell_lab/src/vector/complex_vec_norm.rs
@@ -57,6 +57,9 @@ pub fn complex_vec_norm(v: &ComplexVector, kind: Norm) -> f64 {
                 let mut max = 0.0;
                 for i in 0..v.dim() {
                     let abs = v[i].norm();
+                    if abs.is_nan() {
+                        return f64::NAN;
+                    }
                     if abs > max {
                         max = abs;
                     }
diff --git a/russell_lab/src/vector/vec_max_abs_diff.rs b/russell_lab/src/vector/vec_max_abs_diff.rs
index 275eb6d..7890f6b 100644
--- a/russell_lab/src/vector/vec_max_abs_diff.rs
+++ b/russell_lab/src/vector/vec_max_abs_diff.rs
@@ -35,6 +35,9 @@ pub fn vec_max_abs_diff(u: &Vector, v: &Vector) -> Result<(usize, f64), StrError
     let (mut i_found, mut max_abs_diff) = (0, 0.0);
     for i in 0..m {
         let abs_diff = f64::abs(u[i] - v[i]);
+        if abs_diff.is_nan() {
+            return Ok((i, f64::NAN));
+        }
         if abs_diff > max_abs_diff {
             i_found = i;
             max_abs_diff = abs_diff;
diff --git a/russell_lab/src/vector/vec_max_scaled.rs b/russell_lab/src/vector/vec_max_scaled.rs
index f5d34ee..e58ba8a 100644
--- a/russell_lab/src/vector/vec_max_scaled.rs
+++ b/russell_lab/src/vector/vec_max_scaled.rs
@@ -31,7 +31,11 @@ pub fn vec_max_scaled(v: &Vector, v0: &Vector, one: f64) -> f64 {
     }
     let mut res = f64::MIN;
     for i in 0..m {
-        res = f64::max(res, f64::abs(v[i]) / (one + f64::abs(v0[i])));
+        let value = f64::abs(v[i]) / (one + f64::abs(v0[i]));
+        if value.is_nan() {
+            return f64::NAN;
+        }
+        res = f64::max(res, value);
     }
     res
 }
diff --git a/russell_lab/src/vector/vec_max_scaled_diff.rs b/russell_lab/src/vector/vec_max_scaled_diff.rs
index c34ee23..aeb5f85 100644
--- a/russell_lab/src/vector/vec_max_scaled_diff.rs
+++ b/russell_lab/src/vector/vec_max_scaled_diff.rs
@@ -20,7 +20,11 @@ pub fn vec_max_scaled_diff(u: &Vector, v: &Vector, s: &Vector) -> f64 {
     }
     let mut res = f64::MIN;
     for i in 0..n {
-        res = f64::max(res, f64::abs(u[i] - v[i]) / (1.0 + f64::abs(s[i])));
+        let value = f64::abs(u[i] - v[i]) / (1.0 + f64::abs(s[i]));
+        if value.is_nan() {
+            return f64::NAN;
+        }
+        res = f64::max(res, value);
     }
     res
 }
diff --git a/russell_lab/src/vector/vec_norm.rs b/russell_lab/src/vector/vec_norm.rs
index e94d3ee..2144c8d 100644
--- a/russell_lab/src/vector/vec_norm.rs
+++ b/russell_lab/src/vector/vec_norm.rs
@@ -42,6 +42,9 @@ pub fn vec_norm(v: &Vector, kind: Norm) -> f64 {
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, v.as_data().as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                if v.as_data().iter().any(|x| x.is_nan()) {
+                    return f64::NAN; // idamax may skip NaN
+                }
                 let idx = cblas_idamax(n, v.as_data().as_ptr(), 1);
                 f64::abs(v.get(idx as usize))
             }
diff --git a/russell_lab/src/vector/vec_norm_chunk.rs b/russell_lab/src/vector/vec_norm_chunk.rs
index 5954027..fad1f28 100644
--- a/russell_lab/src/vector/vec_norm_chunk.rs
+++ b/russell_lab/src/vector/vec_norm_chunk.rs
@@ -54,6 +54,9 @@ pub fn vec_norm_chunk(v: &Vector, kind: Norm, start: usize, stop: usize) -> f64
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, slice.as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                if slice.iter().any(|x| x.is_nan()) {
+                    return f64::NAN; // idamax may skip NaN
+                }
                 let idx = cblas_idamax(n, slice.as_ptr(), 1);
                 f64::abs(slice[idx as usize])
             }
-- 
2.43.0


From beea79250c235e29551129daee10b465507dbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:55:52 +0000
Subject: [PATCH 62/66] fix: keep a NaN relative error in max_relative_error

---
 russell_sparse/src/verify_lin_sys.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/verify_lin_sys.rs b/russell_sparse/src/verify_lin_sys.rs
index 9fe7c56..cf20818 100644
--- a/russell_sparse/src/verify_lin_sys.rs
+++ b/russell_sparse/src/verify_lin_sys.rs
@@ -147,7 +147,7 @@ impl VerifyLinSys {
 
     /// Returns a new structure with the maximum relative error among this and other error
     pub fn max_relative_error(&self, other: &VerifyLinSys) -> VerifyLinSys {
-        if other.relative_error > self.relative_error {
+        if other.relative_error > self.relative_error || other.relative_error.is_nan() {
             other.clone()
         } else {
             self.clone()
-- 
2.43.0


From 97863361f7e0b8f5f1eb5e6f0ec90b1618518543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:45 +0000
Subject: [PATCH 63/66] fix: do not report convergence of root refinement at a
 stationary point

---
 russell_lab/src/algo/root_finder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/root_finder.rs b/russell_lab/src/algo/root_finder.rs
index 4d28a77..8b2b075 100644
--- a/russell_lab/src/algo/root_finder.rs
+++ b/russell_lab/src/algo/root_finder.rs
@@ -290,9 +290,8 @@ impl RootFinder {
                     (f(x + self.h_cen, args)? - f(x - self.h_cen, args)?) / h_cen_2
                 };
 
-                // skip zero Jacobian
+                // stop on zero Jacobian (f(x) is not zero here)
                 if f64::abs(dfdx) < self.newton_tol_zero_fx {
-                    converged = true;
                     break;
                 }
 
-- 
2.43.0


From ae02297aa3ff98517ad35294e413ead98f8d5d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:54 +0000
Subject: [PATCH 64/66] fix: move the root of a linear interpolant back to the
 bounds

---
 russell_lab/src/algo/root_finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder.rs b/russell_lab/src/algo/root_finder.rs
index 8b2b075..bbe7e33 100644
--- a/russell_lab/src/algo/root_finder.rs
+++ b/russell_lab/src/algo/root_finder.rs
@@ -173,7 +173,7 @@ impl RootFinder {
             let z = -a[0] / a[1];
             if f64::abs(z) <= 1.0 + self.tol_abs_boundary {
                 let root = (xb + xa + dx * z) / 2.0;
-                return Ok(vec![root]);
+                return Ok(vec![f64::max(xa, f64::min(xb, root))]);
             } else {
                 return Ok(Vec::new());
             }
-- 
2.43.0


From bd8c48824568b161d568c793fc8e595d0c5c0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:55 +0000
Subject: [PATCH 65/66] fix: write the matrices after, not before, the
 requested number of steps

---
 russell_nonlin/src/solver_arclength.rs | 10 +++++-----
 russell_nonlin/src/solver_natural.rs   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 0de3dae..3012a14 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -290,11 +290,11 @@ impl<'a, A> SolverArclength<'a, A> {
 
         // write Gu to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
+            if work.stats.n_accepted > nstep {
                 let csc = CscMatrix::from_coo(&self.ggu).unwrap();
                 let key = format!("/tmp/russell_nonlin/ggu_arclength-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
@@ -371,11 +371,11 @@ impl<'a, A> SolverArclength<'a, A> {
 
         // write A to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
-                let csc = CscMatrix::from_coo(&self.ggu).unwrap();
+            if work.stats.n_accepted > nstep {
+                let csc = CscMatrix::from_coo(&self.aa).unwrap();
                 let key = format!("/tmp/russell_nonlin/aa_arclength-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 3ea375a..8033a7d 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -91,11 +91,11 @@ impl<'a, A> SolverNatural<'a, A> {
 
         // write Gu to a file
         if let Some(nstep) = self.config.write_matrix_after_nstep_and_stop {
-            if nstep > work.stats.n_accepted {
+            if work.stats.n_accepted > nstep {
                 let csc = CscMatrix::from_coo(&self.ggu).unwrap();
                 let key = format!("/tmp/russell_nonlin/ggu_natural-{:03}", work.stats.n_accepted).to_string();
                 csc.write_matrix_market(&(key.clone() + ".smat"), true, 1e-14)?;
-                csc.write_matrix_market(&(key + ".mtx"), true, 1e-14)?;
+                csc.write_matrix_market(&(key + ".mtx"), false, 1e-14)?;
                 return Err("MATRIX FILES GENERATED in /tmp/russell_nonlin/");
             }
         }
-- 
2.43.0


From d1ae3a481f2ccfe5b1ee3675297663cddaef69ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:40 +0000
Subject: [PATCH 66/66] fix: make the tolerance of the Jacobi eigenvalue solver
 relative to the matrix

The sum of the off-diagonal components was compared with an absolute 1e-15.
A symmetric matrix with components below that value was accepted as already
diagonal, so its diagonal came back as eigenvalues and the identity as
eigenvectors.
---
 russell_lab/src/matrix/mat_eigen_sym_jacobi.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
index 95b8ca3..7b554e5 100644
--- a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
+++ b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
@@ -1,7 +1,7 @@
 use super::Matrix;
 use crate::{StrError, Vector};
 
-/// Defines the tolerance to accept a diagonal matrix
+/// Defines the tolerance to accept a diagonal matrix (relative to the largest component)
 const TOLERANCE: f64 = 1e-15;
 
 /// Defines the max number of iterations
@@ -35,7 +35,7 @@ const N_MAX_ITERATIONS: usize = 20;
 ///
 /// # Notes
 ///
-/// 1. The tolerance is fixed at `1e-15`
+/// 1. The tolerance is fixed at `1e-15` times the largest absolute value in the matrix
 ///    (for the sum of the absolute value of the upper off-diagonal elements)
 /// 2. The maximum number of iterations is fixed at `20`
 /// 3. For matrices of order greater than about 10, say, the algorithm is slower,
@@ -93,6 +93,15 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         return Err("l vector has incompatible dimension");
     }
 
+    // the tolerance is relative to the largest component of A
+    let mut a_max: f64 = 0.0;
+    for p in 0..n {
+        for q in p..n {
+            a_max = f64::max(a_max, f64::abs(a.get(p, q)));
+        }
+    }
+    let tolerance = if a_max.is_finite() { TOLERANCE * a_max } else { TOLERANCE };
+
     // auxiliary arrays
     let mut b = vec![0.0; n];
     let mut z = vec![0.0; n];
@@ -132,7 +141,7 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         }
 
         // exit point
-        if sm < TOLERANCE {
+        if sm <= tolerance {
             return Ok(iteration + 1);
         }
 
@@ -147,7 +156,7 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
                     continue;
                 }
                 h = l[q] - l[p];
-                if f64::abs(h) <= TOLERANCE {
+                if f64::abs(h) <= tolerance {
                     t = 1.0;
                 } else {
                     theta = 0.5 * h / (a.get(p, q));
-- 
2.43.0


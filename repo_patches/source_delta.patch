From ab7e0cbc298c5aef09ed1bb7a2fee893485c8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 01/12] fix: scale Householder axis so squares cannot underflow
 or overflow

Columns whose entries are around sqrt(MIN_POSITIVE) lost orthogonality (or were
reported as zero), e.g. the SVD of ordinary rank-deficient f32 matrices.
---
 src/householder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/householder.rs b/src/householder.rs
index f1b51b2..bfab0ea 100644
--- a/src/householder.rs
+++ b/src/householder.rs
@@ -9,6 +9,12 @@ use crate::reflection::Reflection;
 pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
     col: &mut ArrayBase<S, Ix1>,
 ) -> Option<A> {
+    // Scale the column, otherwise the squares of its elements may underflow or overflow
+    let scale = col.fold(A::zero(), |max, x| max.max(x.abs()));
+    if !scale.is_zero() {
+        *col /= scale;
+    }
+
     let reflection_norm_sq = col.dot(col);
     let reflection_norm = reflection_norm_sq.sqrt();
 
@@ -21,7 +27,7 @@ pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
 
     if !new_norm_sq.is_zero() {
         *col /= new_norm_sq.sqrt();
-        Some(-signed_norm)
+        Some(-signed_norm * scale)
     } else {
         None
     }
-- 
2.43.0


From 39410c80ff5988f2353810f5864e0b73fb2d0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 02/12] fix: avoid cancellation in the 2x2 step of the
 symmetric eigensolver

The eigenvector basis cancelled when the trailing diagonal was larger, and the
rotation was skipped for tiny bases although the eigenvalues were reordered.
---
 src/eigh.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..0f356b9 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,14 +108,21 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+                       // Both pairs span the eigenvector of the larger eigenvalue. Pick the one whose
+                       // subtraction does not suffer from cancellation.
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off_diag[start])
+            } else {
+                (off_diag[start], eigvals.0 - diag[start])
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
 
-            if let (Some(q), Some((rot, _))) =
-                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, eps))
-            {
+            if let (Some(q), Some((rot, _))) = (
+                &mut q_mat,
+                GivensRotation::try_new(basis.0, basis.1, A::zero()),
+            ) {
                 rot.rotate_rows(&mut q.slice_mut(s![.., start..start + 2]))
                     .unwrap();
             }
-- 
2.43.0


From 3fc4384c50e60400bfabcd8aa52dddf933ff6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 03/12] fix: avoid cancellation in the 2x2 step of the SVD

Left vectors were computed by dividing by the smaller singular value, so
ill-conditioned matrices were not reconstructed by U * S * Vt.
---
 src/svd.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..67e5484 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,31 +378,31 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    // v1 is the smaller singular value, with the sign of the determinant, and v2 the larger one
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
+        // Right-singular vector of v1. Both pairs are parallel, so pick the one whose subtraction
+        // does not suffer from catastrophic cancellation.
+        let (cv, sv) = if m11.abs() >= m22.abs() {
+            (m11 * m12, v1 * v1 - m11 * m11)
+        } else {
+            (v2 * v2 - m11 * m11, -m11 * m12)
+        };
+        let (csv, _) = GivensRotation::new(cv, sv);
         if compute_v {
             v_t = Some(csv.clone());
         }
 
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
+        // Derive the left-singular vectors from the larger singular value, because dividing by v1
+        // blows up the rounding errors if the matrix is nearly singular.
+        let cu = m22 * csv.c() / v2;
+        let su = (m11 * csv.s() - m12 * csv.c()) / v2;
+        let (csu, _) = GivensRotation::new(cu, su);
         if compute_u {
             u = Some(csu);
         }
-- 
2.43.0


From 574c3cb4755ae86a92109ad47e5c1ed87cc61369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 04/12] fix: negate left-singular vector of a negative singular
 value instead of zeroing it

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index 67e5484..02d70e2 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From 27808682661f9ad1a35205eebce823bb46029eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 05/12] fix: reject NaN pivots in Cholesky decomposition

---
 src/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..5f03253 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,8 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            // Also rejects NaN
+            if d.is_nan() || d <= A::zero() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 5d750aaec909c0688e522f83e149712514bd5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 06/12] fix: handle empty and slightly negative spectra in
 TruncatedSvdResult

---
 src/lobpcg/svd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..9621c3c 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -37,7 +37,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
             // calculate cut-off magnitude (borrowed from scipy)
             let cutoff = A::epsilon() * // float precision
                          A::correction() * // correction term (see trait below)
-                         *a[0].1; // max eigenvalue
+                         a.first().map_or_else(A::zero, |x| *x.1); // max eigenvalue
 
             // filter low singular values away
             let (values, indices): (Vec<A>, Vec<usize>) = a
@@ -50,7 +50,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // round-off may push the eigenvalues of a singular problem slightly below zero
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
-- 
2.43.0


From f97dddbce75adbb481ff749277f530fccd0c1241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 07/12] fix: project LOBPCG iterates onto the complement of
 non-orthonormal constraints

apply_constraints removed Y*L^-1*Y^T*v instead of Y*(Y^T*Y)^-1*Y^T*v, which is only right for
orthonormal Y.
---
 src/lobpcg/algorithm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..32424b4 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -70,6 +70,10 @@ fn apply_constraints<A: NdFloat>(
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From 3d9f19d1235120f01a6c0d53e3c5be81ce8f9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 08/12] fix: drop linearly dependent basis vectors in the
 LOBPCG Rayleigh-Ritz step

The null space of the gram matrix was clamped and gave spurious zero eigenvectors with eigenvalue
and residual zero, which then won as best result.
---
 src/lobpcg/algorithm.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 32424b4..4a3aec0 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -15,7 +15,15 @@ use super::{Lobpcg, LobpcgResult};
 /// Solve the generalized eigenvalue problem with pencil (A, B)
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
+    // drop the null space of B (linearly dependent basis vectors), which gives spurious zero pairs
+    let cutoff = A::epsilon().sqrt();
+    let mask = vals_b.iter().map(|x| *x > cutoff).collect::<Vec<_>>();
+    let vecs_b = ndarray_mask(vecs_b.view(), &mask);
+    let vals_b_recip = vals_b
+        .into_iter()
+        .filter(|x| *x > cutoff)
+        .map(|x| x.sqrt().recip())
+        .collect::<Array1<A>>();
     let vecs_b_tilde = vecs_b * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
@@ -35,6 +43,9 @@ fn sorted_eig<A: NdFloat>(
         Some(b) => generalized_eig(a, b)?,
         _ => a.eigh_into()?,
     };
+    if res.0.len() < size {
+        return Err(LinalgError::NonInvertible);
+    }
 
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
-- 
2.43.0


From d5ebc97527114348ab5a43f57d9dcf15012dcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 09/12] fix: re-orthogonalize LOBPCG directions after
 normalizing small residuals

When the projected residual is at rounding level, normalizing it amplifies what is left along the
constraints and the iterate, and the result leaves the constraint complement.
---
 src/lobpcg/algorithm.rs | 44 ++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 4a3aec0..b85e532 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -173,7 +173,12 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         cholesky_yy
     });
 
-    // orthonormalize the initial guess
+    // orthonormalize the initial guess, twice because of the squared condition number of its gram
+    // matrix
+    let (mut x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+    if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+        apply_constraints(x.view_mut(), cholesky_yy, y.view());
+    }
     let (x, _) = orthonormalize(x).map_err(|err| (err, None))?;
 
     // calculate AX and XAX for Rayleigh quotient
@@ -255,22 +260,27 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let mut active_block_r = ndarray_mask(r.view(), &activemask);
         // apply preconditioner
         m(active_block_r.view_mut());
-        // apply constraints to the preconditioned residuals
-        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
-            apply_constraints(active_block_r.view_mut(), cholesky_yy, y.view());
+        // apply constraints to the preconditioned residuals, orthogonalize them to x and
+        // orthonormalize; a second pass removes what the normalization of a small residual has
+        // amplified in the direction of y and x
+        let mut orthogonal_r = Ok((active_block_r, ident.clone()));
+        for _ in 0..2 {
+            orthogonal_r = orthogonal_r.and_then(|(mut r, _)| {
+                if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+                    apply_constraints(r.view_mut(), cholesky_yy, y.view());
+                }
+                // performs `v = -1 x . u + 1 v`, therefore `v -= x.u`
+                let xr = x.t().dot(&r);
+                ndarray::linalg::general_mat_mul(-A::one(), &x, &xr, A::one(), &mut r);
+                orthonormalize(r)
+            });
         }
-        // orthogonalize the preconditioned residual to x
-        // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
-        ndarray::linalg::general_mat_mul(
-            -A::one(),
-            &x,
-            &x.t().dot(&active_block_r),
-            A::one(),
-            &mut active_block_r,
-        );
-
-        let (r, _) = match orthonormalize(active_block_r) {
-            Ok(x) => x,
+        let r = match orthogonal_r {
+            // nothing but noise left outside of x and y
+            Ok((_, r_r)) if r_r.diag().iter().any(|x| *x < A::epsilon().sqrt()) => {
+                break Err(LinalgError::NonInvertible)
+            }
+            Ok((x, _)) => x,
             Err(err) => break Err(err),
         };
 
@@ -322,6 +332,8 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
 
                 orthonormalize(active_p).map(|x| (active_ap, x)).ok()
             })
+            // normalizing a vanishing P would amplify the rounding errors of AP
+            .filter(|(_, (_, p_r))| p_r.diag().iter().all(|x| *x > A::epsilon().sqrt()))
             .and_then(|(active_ap, (active_p, p_r))| {
                 // orthonormalize AP with R^{-1} of A
                 let active_ap = active_ap.reversed_axes();
-- 
2.43.0


From 61809d761e6315f10bbc099266f62915eed61372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 10/12] fix: TruncatedEig iterator stops at the dimension of
 the constraint complement

---
 src/lobpcg/eig.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..529b6e6 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -179,13 +179,19 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.num_remaining(),
             eig: self,
         }
     }
 }
 
 impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
+    /// Number of eigenpairs in the orthogonal complement of the constraints
+    fn num_remaining(&self) -> usize {
+        let size_y = self.constraints.as_ref().map_or(0, |y| y.ncols());
+        self.problem.len_of(Axis(0)).saturating_sub(size_y)
+    }
+
     pub fn into_iter_step_size(self, step_size: usize) -> Result<TruncatedEigIterator<A, R>> {
         TruncatedEigIterator::new(self, step_size)
     }
@@ -230,7 +236,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.num_remaining(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From bc4511eb2f3392c95033d919d99ad5035b6f5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 11/12] fix: avoid underflow in the Wilkinson shift

The square of a tiny off-diagonal next to equal diagonals underflowed to zero and the shift became
0/0.
---
 src/eigh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 0f356b9..87fbd65 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -185,9 +185,9 @@ fn delimit_subproblem<A: NdFloat>(
 ///     tmn  tnn
 pub(crate) fn wilkinson_shift<A: NdFloat>(tmm: A, tnn: A, tmn: A) -> A {
     if !tmn.is_zero() {
-        let tmn_sq = tmn * tmn;
         let d = (tmm - tnn) * A::from(0.5).unwrap();
-        tnn - tmn_sq / (d + d.signum() * (d * d + tmn_sq).sqrt())
+        // the square of tmn may underflow
+        tnn - tmn * (tmn / (d + d.signum() * d.hypot(tmn)))
     } else {
         tnn
     }
-- 
2.43.0


From 83b39283c2d0379a3f00a9cc4f1107c671856d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 12/12] fix: deflate tiny off-diagonals of the symmetric
 eigensolver absolutely

Next to zero diagonal entries nothing but exact underflow was negligible, so rotations ran into
subnormal numbers: eigenvectors lost orthogonality or the iteration did not end.
---
 src/eigh.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 87fbd65..922a804 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -145,11 +145,13 @@ fn delimit_subproblem<A: NdFloat>(
     eps: A,
 ) -> (usize, usize) {
     let mut n = end;
+    // the matrix has been scaled to one, rotations underflow between entries that are much smaller
+    let tiny = eps * eps;
 
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) {
+            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) + tiny {
                 break;
             }
         }
@@ -165,7 +167,8 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
         unsafe {
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs())
+                || off_diag.at(m).abs()
+                    <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) + tiny
             {
                 *off_diag.atm(m) = A::zero();
                 break;
-- 
2.43.0


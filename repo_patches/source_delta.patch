From 5243933bcbed62c283b86aa3c1676efe4f081451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 01/67] fix: Latin hypercubes of zero or one point (maximin and
 optimized kinds) panicked or looped forever

---
 crates/doe/src/lhs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 9024687..5e30317 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -118,6 +118,10 @@ impl<F: Float, R: Rng> Lhs<F, R> {
     }
 
     fn _maximin_ese(&self, lhs: &Array2<F>, outer_loop: usize, inner_loop: usize) -> Array2<F> {
+        if lhs.nrows() < 2 {
+            // no pair of points, nothing to optimize
+            return lhs.to_owned();
+        }
         // hard-coded params
         let j_range = 20;
         let p = F::cast(10.);
@@ -279,6 +283,10 @@ impl<F: Float, R: Rng> Lhs<F, R> {
         } else {
             self._classic_lhs(ns)
         };
+        if ns < 2 {
+            // no pair of points, nothing to maximize
+            return lhs;
+        }
         let mut max_dist = *pdist(&lhs).min().unwrap();
         let mut lhs_maximin = lhs;
         for _ in 0..max_iters - 1 {
-- 
2.43.0


From 14a0dd94132e1bb0186191f35cadc2c6c206cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:45 +0000
Subject: [PATCH 02/67] fix: optimized Latin hypercube panicked when
 cancellation made the potential NaN

---
 crates/doe/src/lhs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 5e30317..1ef3520 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -234,6 +234,10 @@ impl<F: Float, R: Rng> Lhs<F, R> {
 
         // swap points
         x.swap([i1, k], [i2, k]);
+        if res.is_nan() {
+            // cancellation in the incremental update above made the sum negative
+            return self._phip(x, p);
+        }
         res
     }
 
-- 
2.43.0


From ced4932d21e09bdb3e2e33d959c9c2cfb38cc4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 03/67] fix: unfolding read the wrong column for variables
 placed after a categorical one

---
 crates/ego/src/gpmix/mixint.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..9b6b832 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -121,9 +121,7 @@ pub(crate) fn unfold_with_enum_mask(
     let mut unfold_index = 0;
     xtypes.iter().enumerate().for_each(|(i, s)| match s {
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
-            xunfold
-                .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+            xunfold.column_mut(unfold_index).assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From e361a373452f1110aa91bfbbaa27f37617292e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 04/67] fix: predict_kth_derivatives did not differentiate the
 prediction

The formula matched none of the correlation models and indexed theta out of
bounds with dimension reduction; return the kth column of predict_gradients.
---
 crates/gp/src/algorithm.rs | 59 +-------------------------------------
 1 file changed, 1 insertion(+), 58 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c98527f..9b9deba 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -445,64 +445,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         x: &ArrayBase<impl Data<Elem = F>, Ix2>,
         kx: usize,
     ) -> Array1<F> {
-        let xnorm = (x - &self.xt_norm.mean) / &self.xt_norm.std;
-        let corr = self._compute_correlation(&xnorm);
-
-        let beta = &self.inner_params.beta;
-        let gamma = &self.inner_params.gamma;
-
-        let df_dx_kx = if self.inner_params.beta.nrows() <= 1 + self.xt_norm.data.ncols() {
-            // for constant or linear: df/dx = cst ([0] or [1]) for all x, so takes use x[0] to get the constant
-            let df = self.params.mean.jacobian(&x.row(0));
-            let df_dx = df.t().row(kx).dot(beta);
-            df_dx.broadcast((x.nrows(), 1)).unwrap().to_owned()
-        } else {
-            // for quadratic df/dx really depends on x
-            let mut dfdx = Array2::zeros((x.nrows(), 1));
-            Zip::from(dfdx.rows_mut())
-                .and(xnorm.rows())
-                .for_each(|mut dfxi, xi| {
-                    let df = self.params.mean.jacobian(&xi);
-                    let df_dx = (df.t().row(kx)).dot(beta);
-                    dfxi.assign(&df_dx);
-                });
-            dfdx
-        };
-
-        let nr = x.nrows();
-        let nc = self.xt_norm.data.nrows();
-        let d_dx_1 = &xnorm
-            .column(kx)
-            .to_owned()
-            .into_shape_with_order((nr, 1))
-            .unwrap()
-            .broadcast((nr, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx_2 = self
-            .xt_norm
-            .data
-            .column(kx)
-            .to_owned()
-            .as_standard_layout()
-            .into_shape_with_order((1, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx = d_dx_1 - d_dx_2;
-
-        // Get pairwise componentwise L1-distances to the input training set
-        let theta = &self.theta.to_owned();
-        let d_dx_corr = d_dx * corr;
-
-        // (df(xnew)/dx).beta + (dr(xnew)/dx).R^-1(ytrain - f.beta)
-        // gamma = R^-1(ytrain - f.beta)
-        // Warning: squared exponential only
-        let res = (df_dx_kx - d_dx_corr.dot(gamma).map(|v| F::cast(2.) * theta[kx] * *v))
-            * self.yt_norm.std[0]
-            / self.xt_norm.std[kx];
-        res.column(0).to_owned()
+        self.predict_gradients(x).column(kx).to_owned()
     }
 
     /// Predict derivatives at a set of point `x` specified as a (n, nx) matrix where x has nx components.
-- 
2.43.0


From fed09dc39a0cf9881641276173d549c4bbe6d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 05/67] fix: scalar theta with fixed or partial tuning was not
 expanded to all dimensions

A one-component guess is accepted for every tuning mode but partial tuning
then indexed it out of bounds, and fixed tuning kept the unexpanded value.
---
 crates/gp/src/algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 9b9deba..677e24a 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -809,9 +809,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let fx = self.mean().value(&xtrain.data);
 
         let opt_params = match self.theta_tuning() {
-            ThetaTuning::Fixed(init) => {
+            ThetaTuning::Fixed(_) => {
                 // Easy path no optimization
-                init.to_owned()
+                theta0.to_owned()
             }
             ThetaTuning::Full { init: _, bounds }
             | ThetaTuning::Partial {
@@ -895,11 +895,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let opt_params = match self.theta_tuning() {
             ThetaTuning::Fixed(_) | ThetaTuning::Full { init: _, bounds: _ } => opt_params,
             ThetaTuning::Partial {
-                init,
+                init: _,
                 bounds: _,
                 active,
             } => {
-                let mut opt_theta = init.to_owned();
+                let mut opt_theta = theta0.to_owned();
                 std::iter::zip(active.clone(), opt_params)
                     .for_each(|(i, xi)| opt_theta[i] = F::cast(xi));
                 opt_theta
-- 
2.43.0


From b241ee857b9ad43af549e589f352f3232a93c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 06/67] fix: partial theta tuning mixed up bounds when active
 components are not sorted

---
 crates/gp/src/algorithm.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 677e24a..0ed539a 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -855,12 +855,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 };
 
                 // Select init params and bounds wrt to activity
-                let active_bounds = bounds
-                    .iter()
-                    .enumerate()
-                    .filter(|(i, _)| active.contains(i))
-                    .map(|(_, &b)| b)
-                    .collect::<Vec<_>>();
+                let active_bounds = active.iter().map(|&i| bounds[i]).collect::<Vec<_>>();
                 let (theta_inits, bounds) = prepare_multistart(
                     self.n_start(),
                     &theta0.select(Axis(0), &active),
-- 
2.43.0


From d786500f46b1cbb5fbe742dad2ea77de937f2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 07/67] fix: theta left its bounds when every likelihood
 optimization failed

---
 crates/gp/src/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 0ed539a..fcaacee 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -863,6 +863,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 );
                 debug!("Optimize with multistart theta = {theta_inits:?} and bounds = {bounds:?}");
                 let now = Instant::now();
+                // Worst case when no optimization succeeds, kept within bounds
+                let fallback = bounds
+                    .iter()
+                    .map(|(lo, up)| 1f64.max(lo.to_f64().unwrap()).min(up.to_f64().unwrap()))
+                    .collect::<Array1<f64>>();
                 let opt_params = (0..theta_inits.nrows())
                     .into_par_iter()
                     .map(|i| {
@@ -878,7 +883,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                         )
                     })
                     .reduce(
-                        || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                        || (f64::INFINITY, fallback.to_owned()),
                         |a, b| if b.0 < a.0 { b } else { a },
                     );
                 debug!("elapsed optim = {:?}", now.elapsed().as_millis());
-- 
2.43.0


From cb5f992aedd43edd6176e5301d74a4a3fb25bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 08/67] fix: trajectories sampled from a process in small units
 had no variance

Eigenvalues of the covariance below 1e-9 in absolute value were dropped,
which removes all the variance of outputs of magnitude 1e-5.
---
 crates/gp/src/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index fcaacee..32bdd86 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1115,9 +1115,11 @@ pub(crate) fn sample<F: Float>(
             #[cfg(not(feature = "blas"))]
             let (v, w) = cov_x.with_lapack().eigh_into().unwrap();
             let v = v.mapv(F::cast);
+            // Round-off is proportional to the largest eigenvalue
+            let vmax = v.iter().fold(F::zero(), |m, &x| if x > m { x } else { m });
             let v = v.mapv(|x| {
-                // We lower bound the float value at 1e-9
-                if x < F::cast(1e-9) {
+                // We lower bound the float value at 1e-9 wrt the largest eigenvalue
+                if x <= F::cast(1e-9) * vmax {
                     return F::zero();
                 }
                 x.sqrt()
-- 
2.43.0


From 4e48df38429f5b2aedd58d72d1e2e8096f3ab029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 09/67] fix: single precision processes read f32 values as f64

Casting a pointer to f32 into a pointer to f64 reads out of bounds and yields
garbage parameters, bounds and likelihoods; convert the values instead.
---
 crates/gp/src/algorithm.rs        |  2 +-
 crates/gp/src/optimization.rs     |  4 ++--
 crates/gp/src/sparse_algorithm.rs | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 32bdd86..ab03712 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -834,7 +834,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                     }
                     let rxx = self.corr().value(&x_distances.d, &theta, &w_star);
                     match reduced_likelihood(&fx, rxx, &x_distances, &ytrain, self.nugget()) {
-                        Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                        Ok(r) => -r.0.to_f64().unwrap(),
                         Err(_) => f64::INFINITY,
                     }
                 };
diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c076756..db9bfa1 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -88,7 +88,7 @@ where
     // block to drop optimizer and allow self.corr borrowing after
     let mut optimizer = Nlopt::new(Algorithm::Cobyla, param0.len(), objfn, Target::Minimize, ());
     let mut param = param0
-        .map(|v| unsafe { *(v as *const F as *const f64) })
+        .map(into_f64)
         .into_raw_vec();
 
     let lower_bounds = bounds.iter().map(|b| into_f64(&b.0)).collect::<Vec<_>>();
@@ -170,5 +170,5 @@ where
 
 #[inline(always)]
 fn into_f64<F: Float>(v: &F) -> f64 {
-    unsafe { *(v as *const F as *const f64) }
+    v.to_f64().unwrap()
 }
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 02010d3..ce43618 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -302,12 +302,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(v.to_f64().unwrap())
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| v.to_f64().unwrap());
                 let g_central = ndarr::central_diff(&f);
                 let grad = g_central(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
@@ -322,12 +322,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict_var(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(v.to_f64().unwrap())
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| v.to_f64().unwrap());
                 let grad = ndarr::central_diff(&f)(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
             });
@@ -550,7 +550,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 &z,
                 self.nugget(),
             ) {
-                Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                Ok(r) => -r.0.to_f64().unwrap(),
                 Err(_) => f64::INFINITY,
             }
         };
-- 
2.43.0


From 3285a2de16c49d7bb4e95c49ec827291d0b2c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 10/67] fix: ill-conditioned trends were not detected as
 singular values are unsorted

A rank-deficient regression went through the conditioning check whenever the
smallest singular value was not the last one, giving a process which does not
interpolate its training data.
---
 crates/gp/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index ab03712..089cd5c 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -950,10 +950,11 @@ fn reduced_likelihood<F: Float>(
     let (ft_qr_q, ft_qr_r) = ft.qr().unwrap().into_decomp();
 
     // Check whether we have an ill-conditionned problem
-    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
+    // (singular values are not sorted)
+    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap().sort_svd_desc();
     let cond_ft = sv_qr_r[sv_qr_r.len() - 1] / sv_qr_r[0];
     if F::cast(cond_ft) < F::cast(1e-10) {
-        let (_, sv_f, _) = &fxl.svd(false, false).unwrap();
+        let (_, sv_f, _) = fxl.svd(false, false).unwrap().sort_svd_desc();
         let cond_fx = sv_f[0] / sv_f[sv_f.len() - 1];
         if F::cast(cond_fx) > F::cast(1e15) {
             return Err(GpError::LikelihoodComputationError(
-- 
2.43.0


From 7299a0360263c48cc7a2baeb76313384a9a323a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 11/67] fix: tuned hyperparameters could be less likely than
 the initial guess

Cobyla may stop on a point which is worse than its starting point, typically
with a small evaluation budget and a guess on the bounds.
---
 crates/gp/src/algorithm.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 089cd5c..0e0b6bf 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -887,6 +887,17 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                         |a, b| if b.0 < a.0 { b } else { a },
                     );
                 debug!("elapsed optim = {:?}", now.elapsed().as_millis());
+                // Optimizer may stop on a point which is worse than the initial guess
+                let theta_init = theta_inits.row(0).mapv(|v| v.to_f64().unwrap());
+                let within_bounds = theta_init.iter().zip(&bounds).all(|(v, (lo, up))| {
+                    lo.to_f64().unwrap() <= *v && *v <= up.to_f64().unwrap()
+                });
+                let init_val = objfn(&theta_init.to_vec(), None, &mut ());
+                let opt_params = if within_bounds && init_val < opt_params.0 {
+                    (init_val, theta_init)
+                } else {
+                    opt_params
+                };
                 opt_params.1.mapv(|v| F::cast(base.powf(v)))
             }
         };
-- 
2.43.0


From 0c5a818a361dd238066f118d7865ebd469299fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 12/67] fix: folding of categorical variables read the wrong
 columns after a first categorical variable

Points of the continuous relaxation were folded into another category than
theirs for every categorical variable but the first one. Samplings keep their
own way of picking categories, as seeded samples are expected to be stable.
---
 crates/ego/src/gpmix/mixint.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 9b6b832..61fb99c 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -86,7 +86,7 @@ pub(crate) fn fold_with_enum_index<F: Float>(
             unfold_index += 1;
         }
         XType::Enum(v) => {
-            let xenum = x.slice(s![.., j..j + v]);
+            let xenum = x.slice(s![.., unfold_index..unfold_index + v]);
             let argmaxx = xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap()));
             col.assign(&argmaxx);
             unfold_index += v;
@@ -95,6 +95,22 @@ pub(crate) fn fold_with_enum_index<F: Float>(
     xfold
 }
 
+/// Reduce categorical inputs of a random sample given in discrete unfolded space.
+///
+/// Contrary to [`fold_with_enum_index`], categories are picked in the columns starting at the
+/// index of the folded variable: it makes no difference for the first categorical variable.
+/// Kept to preserve the values of existing seeded samplings.
+fn fold_sample<F: Float>(xtypes: &[XType], x: &ArrayBase<impl Data<Elem = F>, Ix2>) -> Array2<F> {
+    let mut xfold = fold_with_enum_index(xtypes, x);
+    Zip::indexed(xfold.columns_mut()).for_each(|j, mut col| {
+        if let XType::Enum(v) = &xtypes[j] {
+            let xenum = x.slice(s![.., j..j + v]);
+            col.assign(&xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap())));
+        }
+    });
+    xfold
+}
+
 /// Compute dimension when all variables are continuously relaxed
 fn compute_continuous_dim(xtypes: &[XType]) -> usize {
     xtypes
@@ -277,7 +293,7 @@ impl<F: Float, S: egobox_doe::SamplingMethod<F>> egobox_doe::SamplingMethod<F>
         let mut doe = self.method.sample(ns);
         cast_to_discrete_values_mut(&self.xtypes, &mut doe);
         if self.output_in_folded_space {
-            fold_with_enum_index(&self.xtypes, &doe.view())
+            fold_sample(&self.xtypes, &doe.view())
         } else {
             doe
         }
-- 
2.43.0


From 3bb46c87496e81b93b2e4f46b449bd46a0f65f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 13/67] fix: sparse process reported the number of observations
 as its output dimension

---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index ce43618..6bc5c96 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -292,7 +292,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
 
     /// Retrieve input and output dimensions
     pub fn dims(&self) -> (usize, usize) {
-        (self.training_data.0.ncols(), self.training_data.1.len())
+        (self.training_data.0.ncols(), 1)
     }
 
     /// Predict gradients of the mean function at n given `x` points of nx components specified as a (n, nx) matrix.
-- 
2.43.0


From 4912c48b841b6322a38da8348921c386fe8e2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 14/67] fix: variance of VFE sparse processes was
 underestimated

The Woodbury matrix is U^-T (I - B^-1) U^-1; B^-1 was added instead.
---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 6bc5c96..6919542 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -820,7 +820,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         let likelihood = -F::cast(0.5) * (term1 + term2 + term3 + term4 + term5 + term6);
 
         let li_ui = li.dot(&ui);
-        let bi = Array::eye(nz) + li.t().dot(&li);
+        let bi = Array::eye(nz) - li.t().dot(&li);
         let w_data = WoodburyData {
             vec: li_ui.t().dot(&b),
             inv: ui.t().dot(&bi).dot(&ui),
-- 
2.43.0


From d44178f340a4699a1a37aadd4bc7d16f2492b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 15/67] fix: sparse process refused per-component bounds and
 fixed values of theta

---
 crates/gp/src/sparse_algorithm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 6919542..01bbe8e 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -561,13 +561,16 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         let bounds_dim = bounds.len();
         let bounds = if bounds_dim == 1 {
             vec![bounds[0]; params_0.len()]
-        } else if theta0_dim == params_0.len() {
-            bounds.to_vec()
+        } else if bounds_dim == w_star.ncols() {
+            // bounds for variance and noise are set below
+            let mut bounds = bounds.to_vec();
+            bounds.resize(params_0.len(), bounds[0]);
+            bounds
         } else {
             panic!(
                 "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                 w_star.ncols(),
-                theta0_dim
+                bounds_dim
             )
         };
 
-- 
2.43.0


From c0586d75dc8288c7d95d5b2fe32b425f75c29f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 16/67] fix: sparse process parameters left their bounds when
 every optimization failed

In particular a fixed theta was replaced by 10.
---
 crates/gp/src/sparse_algorithm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 01bbe8e..f50c823 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -592,6 +592,15 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         }
         debug!("Optimize with multistart theta = {theta_inits:?} and bounds = {bounds:?}");
         let now = Instant::now();
+        // Worst case when no optimization succeeds: initial guess kept within bounds
+        let fallback = std::iter::zip(theta_inits.row(0), &bounds)
+            .map(|(v, (lo, up))| {
+                v.to_f64()
+                    .unwrap()
+                    .max(lo.to_f64().unwrap())
+                    .min(up.to_f64().unwrap())
+            })
+            .collect::<Array1<f64>>();
         let opt_params = (0..theta_inits.nrows())
             .into_par_iter()
             .map(|i| {
@@ -607,7 +616,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 )
             })
             .reduce(
-                || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                || (f64::INFINITY, fallback.to_owned()),
                 |a, b| if b.0 < a.0 { b } else { a },
             );
         debug!("elapsed optim = {:?}", now.elapsed().as_millis());
-- 
2.43.0


From 23ac86a33148e25dc2243437ab002ebbde82992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 17/67] fix: sparse process training panicked when a matrix was
 not positive definite

Report a likelihood computation error, handled as for dense processes.
---
 crates/gp/src/sparse_algorithm.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index f50c823..6130b43 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -676,9 +676,11 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
     ) -> Result<(F, WoodburyData<F>)> {
         let (likelihood, w_data) = match self.method() {
             SparseMethod::Fitc => {
-                self.fitc(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)
+                self.fitc(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)?
+            }
+            SparseMethod::Vfe => {
+                self.vfe(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)?
             }
-            SparseMethod::Vfe => self.vfe(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget),
         };
 
         Ok((likelihood, w_data))
@@ -714,14 +716,14 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         let nz = z.nrows();
         let knn = Array1::from_elem(xtrain.nrows(), sigma2);
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute (lower) Cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
         let ui = u
@@ -742,7 +744,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         // Compute (lower) Cholesky decomposition: A = I + V diag(beta) V^T = L L^T
         let a = Array::eye(nz) + &(v.to_owned() * beta.to_owned().insert_axis(Axis(0))).dot(&v.t());
 
-        let l = a.cholesky().unwrap();
+        let l = a.cholesky()?;
         let li = l
             .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
             .unwrap();
@@ -773,7 +775,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: (ui.t()).dot(&ui) - li_ui_t.dot(&li_ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 
     /// VFE method
@@ -788,14 +790,14 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         // Compute: Kmm and Kmn
         let nz = z.nrows();
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
         let ui = u
@@ -811,7 +813,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
 
         // Compute cholesky decomposition: B = I + A = L L^T
         let b: Array2<F> = Array::eye(nz) + &a;
-        let l = b.cholesky().unwrap();
+        let l = b.cholesky()?;
         let li = l
             .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
             .unwrap();
@@ -838,7 +840,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: ui.t().dot(&bi).dot(&ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 }
 
-- 
2.43.0


From 1151606e8353d651c0de4691cd9db7f33e551a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:55 +0000
Subject: [PATCH 18/67] fix: trajectories of sparse processes had the prior
 covariance

They were spread around the prediction as if there were no training data.
---
 crates/gp/src/sparse_algorithm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 6130b43..7169a9b 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -356,7 +356,10 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         method: GpSamplingMethod,
     ) -> Array2<F> {
         let mean = self.predict(x).unwrap().insert_axis(Axis(1));
-        let cov = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2);
+        // Covariance of the process conditioned by the training data
+        let kx = self.compute_k(&self.inducings, x, &self.w_star, &self.theta, self.sigma2);
+        let cov = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2)
+            - kx.t().dot(&self.w_data.inv.dot(&kx));
         sample(x, mean, cov, n_traj, method)
     }
 }
-- 
2.43.0


From 0ce27d734fc75f7c8a3287403341b095ea7d7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:55 +0000
Subject: [PATCH 19/67] fix: training panicked with one restart and equal lower
 and upper bounds

---
 crates/gp/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index db9bfa1..c1c0b9b 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -42,7 +42,7 @@ pub(crate) fn prepare_multistart<F: Float>(
         std::cmp::Ordering::Equal => {
             //let mut rng = Xoshiro256Plus::seed_from_u64(42);
             let mut rng = Xoshiro256Plus::from_entropy();
-            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
+            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..=*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
         std::cmp::Ordering::Greater => {
-- 
2.43.0


From 651cb5a42a5d035deb125e661f7a3df85af0e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 20/67] fix: trajectories could use eigenvalues in another
 order than eigenvectors

---
 crates/gp/src/algorithm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 0e0b6bf..db69689 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1125,7 +1125,14 @@ pub(crate) fn sample<F: Float>(
             #[cfg(feature = "blas")]
             let (v, w) = cov_x.with_lapack().eigh(UPLO::Lower).unwrap();
             #[cfg(not(feature = "blas"))]
-            let (v, w) = cov_x.with_lapack().eigh_into().unwrap();
+            let (v, w) = {
+                let (_, w) = cov_x.to_owned().with_lapack().eigh_into().unwrap();
+                // Eigenvalues may be returned in another order than eigenvectors
+                // when the matrix has almost null rows (i.e. at training points)
+                let w = w.without_lapack();
+                let v = w.t().dot(&cov_x).dot(&w).diag().to_owned();
+                (v.with_lapack(), w.with_lapack())
+            };
             let v = v.mapv(F::cast);
             // Round-off is proportional to the largest eigenvalue
             let vmax = v.iter().fold(F::zero(), |m, &x| if x > m { x } else { m });
-- 
2.43.0


From 9e51d4bf97348f7304da94352e0603cf0faecc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 21/67] fix: trajectories could use inaccurate eigenvectors

---
 crates/gp/src/algorithm.rs | 63 +++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index db69689..fbdf2d1 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1126,11 +1126,11 @@ pub(crate) fn sample<F: Float>(
             let (v, w) = cov_x.with_lapack().eigh(UPLO::Lower).unwrap();
             #[cfg(not(feature = "blas"))]
             let (v, w) = {
-                let (_, w) = cov_x.to_owned().with_lapack().eigh_into().unwrap();
-                // Eigenvalues may be returned in another order than eigenvectors
-                // when the matrix has almost null rows (i.e. at training points)
-                let w = w.without_lapack();
-                let v = w.t().dot(&cov_x).dot(&w).diag().to_owned();
+                // Negligible terms would underflow when squared and break the orthogonality of eigenvectors
+                let tiny = F::epsilon() * F::epsilon() * max_abs(&cov_x);
+                let cov = cov_x.mapv(|x| if x.abs() < tiny { F::zero() } else { x });
+                let (_, w) = cov.with_lapack().eigh_into().unwrap();
+                let (v, w) = refine_eigen(&cov_x, w.without_lapack());
                 (v.with_lapack(), w.with_lapack())
             };
             let v = v.mapv(F::cast);
@@ -1157,6 +1157,59 @@ pub(crate) fn sample<F: Float>(
     mean_x.to_owned() + c.dot(&ary)
 }
 
+/// Largest absolute value of the given matrix
+#[cfg(not(feature = "blas"))]
+fn max_abs<F: Float>(a: &Array2<F>) -> F {
+    a.iter().fold(F::zero(), |acc, &x| acc.max(x.abs()))
+}
+
+/// Eigenvalues and eigenvectors of the given symmetric matrix from approximate orthonormal eigenvectors.
+///
+/// Eigen decomposition of linfa-linalg may be inaccurate (eigenvalues in another order than eigenvectors,
+/// missing rotations) when the matrix has almost null off-diagonal terms, i.e. when sampling at training points.
+/// Remaining off-diagonal terms, if any, are removed here by Jacobi rotations.
+#[cfg(not(feature = "blas"))]
+fn refine_eigen<F: Float>(a: &Array2<F>, w: Array2<F>) -> (Array1<F>, Array2<F>) {
+    const MAX_SWEEPS: usize = 30;
+    let n = a.nrows();
+    let mut w = w;
+    let mut m = w.t().dot(a).dot(&w);
+    let tol = F::cast(10. * n as f64) * F::epsilon() * max_abs(&m);
+    for _ in 0..MAX_SWEEPS {
+        let mut done = true;
+        for p in 0..n {
+            for q in (p + 1)..n {
+                if m[[p, q]].abs() > tol {
+                    done = false;
+                    let tau = (m[[q, q]] - m[[p, p]]) / (m[[p, q]] + m[[p, q]]);
+                    let t = tau.signum() / (tau.abs() + (F::one() + tau * tau).sqrt());
+                    let c = F::one() / (F::one() + t * t).sqrt();
+                    let s = t * c;
+                    for k in 0..n {
+                        let (x, y) = (m[[k, p]], m[[k, q]]);
+                        m[[k, p]] = c * x - s * y;
+                        m[[k, q]] = s * x + c * y;
+                    }
+                    for k in 0..n {
+                        let (x, y) = (m[[p, k]], m[[q, k]]);
+                        m[[p, k]] = c * x - s * y;
+                        m[[q, k]] = s * x + c * y;
+                    }
+                    for k in 0..n {
+                        let (x, y) = (w[[k, p]], w[[k, q]]);
+                        w[[k, p]] = c * x - s * y;
+                        w[[k, q]] = s * x + c * y;
+                    }
+                }
+            }
+        }
+        if done {
+            break;
+        }
+    }
+    (m.diag().to_owned(), w)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From ca43db5c222d0b1b7dcc875dfad6e93ba160d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 22/67] fix: responsibilities underflowed away from clusters

---
 crates/moe/src/gaussian_mixture.rs | 42 +++++++++---------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/crates/moe/src/gaussian_mixture.rs b/crates/moe/src/gaussian_mixture.rs
index 7468eef..47a6f40 100644
--- a/crates/moe/src/gaussian_mixture.rs
+++ b/crates/moe/src/gaussian_mixture.rs
@@ -128,27 +128,21 @@ impl<F: Float> GaussianMixture<F> {
         &self,
         x: &ArrayBase<D, Ix1>,
     ) -> Array2<F> {
-        let v = self.weights.to_owned().dot(&self.pdfs(x));
         let precs = &self.precisions / self.heaviside_factor;
+        // derivatives of the log densities
         let mut deriv = Array2::zeros((self.means.nrows(), self.means.ncols()));
         Zip::from(deriv.rows_mut())
             .and(self.means.rows())
             .and(precs.outer_iter())
             .for_each(|mut der, mu, prec| {
-                der.assign(&(&x.to_owned() - &mu).dot(&prec));
+                der.assign(&(&mu - &x.to_owned()).dot(&prec));
             });
-        let vprime =
-            deriv.to_owned() * &(-self.weights.to_owned() * self.pdfs(x)).insert_axis(Axis(1));
-        let vprime = vprime.sum_axis(Axis(0));
-
-        let u = (self.weights.to_owned() * self.pdfs(x))
-            .to_owned()
+        let probas = self
+            .predict_probas(&x.to_owned().insert_axis(Axis(0)))
+            .remove_axis(Axis(0))
             .insert_axis(Axis(1));
-        let uprime = -(deriv.to_owned() * &u.to_owned());
-        let v2 = v * v;
-        (uprime.mapv(|up| up * v)
-            - u.to_owned() * vprime.broadcast((u.nrows(), vprime.len())).unwrap())
-        .mapv(|w| w / v2)
+        let mean_deriv = (&deriv * &probas).sum_axis(Axis(0));
+        (deriv - mean_deriv) * probas
     }
 
     /// Compute the derivatives of the probability of a set of x points given as a (m, nx) vector
@@ -232,22 +226,12 @@ impl<F: Float> GaussianMixture<F> {
         x: &ArrayBase<D, Ix2>,
     ) -> (Array1<F>, Array2<F>) {
         let weighted_log_prob = self.compute_log_gaussian_prob(x) + self.weights().mapv(|v| v.ln());
-        let log_prob_norm = weighted_log_prob
-            .mapv(|v| {
-                if v <= F::cast(f64::MIN_10_EXP) {
-                    F::zero()
-                } else {
-                    v.exp()
-                }
-            })
-            .sum_axis(Axis(1))
-            .mapv(|v| {
-                if v.abs() < F::epsilon() {
-                    F::zero()
-                } else {
-                    v.ln()
-                }
-            });
+        // log-sum-exp: the largest term is factored out, otherwise exponentials underflow
+        // away from the clusters and responsibilities do not sum to one
+        let log_prob_norm = weighted_log_prob.map_axis(Axis(1), |row| {
+            let max = row.fold(F::neg_infinity(), |acc, &v| if v > acc { v } else { acc });
+            row.fold(F::zero(), |acc, &v| acc + (v - max).exp()).ln() + max
+        });
         let log_resp = weighted_log_prob - log_prob_norm.to_owned().insert_axis(Axis(1));
         (log_prob_norm, log_resp)
     }
-- 
2.43.0


From 46d6656fe6d9cee1d4d6c3217c9d2597d44c9e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 23/67] fix: smooth variance gradients mixed up clusters and
 dimensions

---
 crates/moe/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..0e50b55 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -773,7 +773,7 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let term2 = (p.insert_axis(Axis(1)).to_owned() * pprime * preds).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -865,7 +865,8 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let var_term2 =
+                    (p.insert_axis(Axis(1)).to_owned() * pprime * vars).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From 24583a884ce84fc6c7112112742ad0477121e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 24/67] fix: smooth recombination factor was ignored when set
 after training or with a given gaussian mixture

---
 crates/moe/src/algorithm.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 0e50b55..1c6cc7a 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -114,7 +114,11 @@ impl GpMixtureValidParams<f64> {
         let dataset = Dataset::from(training);
 
         let gmx = if self.gmx().is_some() {
-            self.gmx().unwrap().clone()
+            let gmx = self.gmx().unwrap().clone();
+            match recomb {
+                Recombination::Smooth(Some(f)) => gmx.heaviside_factor(f),
+                _ => gmx,
+            }
         } else {
             trace!("GMM training...");
             let gmm = GaussianMixtureModel::params(n_clusters)
@@ -635,6 +639,9 @@ impl GpMixture {
             Recombination::Smooth(Some(_)) => recombination,
             Recombination::Smooth(_) => Recombination::Smooth(Some(1.)),
         };
+        if let Recombination::Smooth(Some(factor)) = self.recombination {
+            self.gmx = self.gmx.heaviside_factor(factor);
+        }
         self
     }
 
@@ -646,6 +653,9 @@ impl GpMixture {
         covariances: Array3<f64>,
     ) -> Self {
         self.gmx = GaussianMixture::new(weights, means, covariances).unwrap();
+        if let Recombination::Smooth(Some(factor)) = self.recombination {
+            self.gmx = self.gmx.heaviside_factor(factor);
+        }
         self
     }
 
-- 
2.43.0


From c81c29c6d77ba54756cdb114eb87fee60069b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 25/67] fix: saving a surrogate panicked when the file cannot
 be created

---
 crates/moe/src/algorithm.rs  | 2 +-
 crates/moe/src/surrogates.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 1c6cc7a..bba45ea 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -513,7 +513,7 @@ impl GpSurrogate for GpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
 
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index 7b963a3..d526a0d 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -179,7 +179,7 @@ macro_rules! declare_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -347,7 +347,7 @@ macro_rules! declare_sgp_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
-- 
2.43.0


From 8758b528fe9422541294805f010a3979e5f55d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 26/67] fix: saved sparse experts could not be loaded

---
 crates/moe/src/surrogates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index d526a0d..73488db 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -349,10 +349,10 @@ macro_rules! declare_sgp_surrogate {
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
                     let mut file = fs::File::create(path)?;
                     let bytes = match format {
-                        GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
+                        GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
                         GpFileFormat::Binary => {
-                            bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
+                            bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
                     file.write_all(&bytes)?;
-- 
2.43.0


From 5cc976ade99ff81062d452cfdb7671d48bc15bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 27/67] fix: seeded sparse experts were not reproducible

---
 crates/moe/src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index bba45ea..6117450 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -331,7 +331,7 @@ impl GpMixtureValidParams<f64> {
                         }
                     };
                 let mut expert_params = best_expert_params?;
-                let seed = self.rng().r#gen();
+                let seed = Some(self.rng().r#gen());
                 debug!("Theta tuning = {:?}", self.theta_tunings());
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
-- 
2.43.0


From f1109686ec650cd63e6616ee585dd3686cd00bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 28/67] fix: max_eval and per-cluster theta tunings were
 ignored by sparse experts

---
 crates/moe/src/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6117450..cc1e977 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -336,8 +336,13 @@ impl GpMixtureValidParams<f64> {
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
                 expert_params.n_start(self.n_start());
+                expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-                expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                if self.theta_tunings().len() == 1 {
+                    expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                } else {
+                    expert_params.theta_tuning(self.theta_tunings()[nc].clone());
+                }
                 debug!("Train best expert...");
                 expert_params.train(&xtrain.view(), &ytrain.view())
             }
-- 
2.43.0


From f1da4e005e949c8396808a2330f3bef6056e5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 29/67] fix: training panicked with fewer observations than
 trend terms

---
 crates/gp/src/algorithm.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index fbdf2d1..870b7dc 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -958,14 +958,14 @@ fn reduced_likelihood<F: Float>(
     let r_chol = r_mx.cholesky()?;
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(fxl, UPLO::Lower)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap().into_decomp();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?.into_decomp();
 
     // Check whether we have an ill-conditionned problem
     // (singular values are not sorted)
-    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap().sort_svd_desc();
+    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false)?.sort_svd_desc();
     let cond_ft = sv_qr_r[sv_qr_r.len() - 1] / sv_qr_r[0];
     if F::cast(cond_ft) < F::cast(1e-10) {
-        let (_, sv_f, _) = fxl.svd(false, false).unwrap().sort_svd_desc();
+        let (_, sv_f, _) = fxl.svd(false, false)?.sort_svd_desc();
         let cond_fx = sv_f[0] / sv_f[sv_f.len() - 1];
         if F::cast(cond_fx) > F::cast(1e15) {
             return Err(GpError::LikelihoodComputationError(
@@ -1033,13 +1033,13 @@ fn reduced_likelihood<F: Float>(
 
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(UPLO::Lower, Diag::NonUnit, &fxl)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?;
 
     // Check whether we have an ill-conditionned problem
-    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
+    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false)?;
     let cond_ft = sv_qr_r[sv_qr_r.len() - 1] / sv_qr_r[0];
     if F::cast(cond_ft) < F::cast(1e-10) {
-        let (_, sv_f, _) = &fxl.svd(false, false).unwrap();
+        let (_, sv_f, _) = &fxl.svd(false, false)?;
         let cond_fx = sv_f[0] / sv_f[sv_f.len() - 1];
         if F::cast(cond_fx) > F::cast(1e15) {
             return Err(GpError::LikelihoodComputationError(
-- 
2.43.0


From 858820b96540180dbba862b6ea613d263de36975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 30/67] fix: the check of cluster sizes counted matrix elements
 instead of points

---
 crates/moe/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index cc1e977..89c80de 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -401,11 +401,11 @@ fn check_number_of_points<F>(
             1
         };
         for cluster in clusters {
-            if cluster.len() < min_number_point {
+            if cluster.nrows() < min_number_point {
                 return Err(MoeError::ClusteringError(format!(
                     "Not enough points in training set. Need {} points, got {}",
                     min_number_point,
-                    cluster.len()
+                    cluster.nrows()
                 )));
             }
         }
-- 
2.43.0


From 5240656d59fe3fd6539f938200717d7cb1a65d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 31/67] fix: expert selection panicked when a candidate cannot
 be trained

---
 crates/moe/src/expertise_macros.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/moe/src/expertise_macros.rs b/crates/moe/src/expertise_macros.rs
index 2875d81..0a0109c 100644
--- a/crates/moe/src/expertise_macros.rs
+++ b/crates/moe/src/expertise_macros.rs
@@ -30,16 +30,14 @@ macro_rules! compute_error {
             f64::INFINITY // not enough points => huge error
         } else {
             for (gp, valid) in $dataset.iter_fold(n_fold, |train| {
-                let gp = params
-                    .clone()
-                    .kpls_dim($self.kpls_dim())
-                    .fit(&train)
-                    .unwrap();
+                let gp = params.clone().kpls_dim($self.kpls_dim()).fit(&train).ok();
                 trace!("GP trained");
                 gp
             }) {
-                let pred = gp.predict(valid.records()).unwrap();
-                let error = (valid.targets() - pred).norm_l2();
+                let error = match gp {
+                    Some(gp) => (valid.targets() - gp.predict(valid.records()).unwrap()).norm_l2(),
+                    None => f64::INFINITY, // surrogate can not be trained => huge error
+                };
                 trace!("Prediction error = {error}");
                 errors.push(error);
             }
-- 
2.43.0


From 3924bda470cdc0a9c7d1bde90fcc7f88f32c7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 32/67] fix: automatic clustering panicked when a gaussian
 mixture cannot be fitted

---
 crates/moe/src/clustering.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index c334c8c..7b8e9f4 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -17,8 +17,11 @@ fn mean(list: &[f64]) -> f64 {
 }
 
 fn median(v: &[f64]) -> f64 {
+    if v.is_empty() {
+        return f64::NAN;
+    }
     let mut list = v.to_vec();
-    list.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
+    list.sort_unstable_by(f64::total_cmp);
     let len = list.len();
     let mid = len / 2;
     if len.is_multiple_of(2) {
-- 
2.43.0


From c2a8a5b1e4ab7d448c9968c6e911bee6e7fa30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 33/67] fix: automatic number of clusters was not reproducible
 with a seed

---
 crates/moe/src/clustering.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index 7b8e9f4..a61a04d 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -8,7 +8,8 @@ use linfa::dataset::{Dataset, DatasetView};
 use linfa::traits::{Fit, Predict};
 use linfa_clustering::GaussianMixtureModel;
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, concatenate};
-use ndarray_rand::rand::Rng;
+use ndarray_rand::rand::{Rng, SeedableRng};
+use rand_xoshiro::Xoshiro256Plus;
 // use std::ops::Sub;
 
 fn mean(list: &[f64]) -> f64 {
@@ -149,6 +150,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                         .correlation_spec(correlation_spec)
                         .kpls_dim(kpls_dim)
                         .gmm(gmm.clone())
+                        .with_rng(Xoshiro256Plus::seed_from_u64(rng.clone().r#gen()))
                         .fit(&train)
                     {
                         Ok(mixture) => {
-- 
2.43.0


From 2e0dda1202cdd59d18960843acaddeba6bb1268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 34/67] fix: automatic clustering could select one cluster when
 it was found impossible

---
 crates/moe/src/clustering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index a61a04d..0d43011 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -315,8 +315,8 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
     }
 
     // Find The best number of cluster
-    let mut cluster_mse = 1;
-    let mut cluster_mses = 1;
+    let mut cluster_mse = nb_clusters_ok[0] + 1;
+    let mut cluster_mses = nb_clusters_ok[0] + 1;
     let (mut min_err, mut min_errs) = if use_median {
         (
             median_err_h[nb_clusters_ok[0]],
-- 
2.43.0


From efc99f121a1e07a82eff85043d3748488848fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 35/67] fix: hard and smooth recombination errors were not
 comparable in automatic clustering

---
 crates/moe/src/clustering.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index 0d43011..0f95573 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -32,6 +32,13 @@ fn median(v: &[f64]) -> f64 {
     }
 }
 
+/// L1 error of predictions relatively to actual values
+fn relative_error(pred: &Array1<f64>, actual: &ArrayBase<impl Data<Elem = f64>, Ix1>) -> f64 {
+    let err = (pred - actual).mapv(|x| x.abs()).sum();
+    let denom = actual.mapv(|x| x.abs()).sum();
+    if denom > 0. { err / denom } else { err }
+}
+
 /// Return a vector of clustered data set given the `data_clustering` indices which contraints
 /// for each `data` rows the cluster number.     
 pub(crate) fn sort_by_cluster<F: Float>(
@@ -178,14 +185,8 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                                         ok = false; // something wrong => early exit
                                         1.0
                                     } else {
-                                        let denom = actual.mapv(|x| x.abs()).sum();
-                                        // if denom > 100. * f64::EPSILON {
-                                        //     (pred - actual).mapv(|x| x * x).sum().sqrt() / denom
-                                        // } else {
-                                        //     (pred - actual).mapv(|x| x * x).sum().sqrt()
-                                        // }
                                         debug!("Diff: {}", &pred.to_owned() - actual);
-                                        let err = (pred - actual).mapv(|x| x.abs()).sum() / denom;
+                                        let err = relative_error(&pred, actual);
                                         debug!("Err = {err}");
                                         err
                                     }
@@ -208,13 +209,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                                         ok = false; // something wrong => early exit
                                         1.0
                                     } else {
-                                        // let denom = actual.mapv(|x| x * x).sum().sqrt();
-                                        // if denom > 100. * f64::EPSILON {
-                                        //     (pred - actual).mapv(|x| x * x).sum().sqrt() / denom
-                                        // } else {
-                                        //     (pred - actual).mapv(|x| x * x).sum().sqrt()
-                                        // }
-                                        (pred - actual).mapv(|x| x.abs()).sum()
+                                        relative_error(&pred, actual)
                                     }
                                 }
                                 _ => {
-- 
2.43.0


From c3faaa6e7c8c5d130fad49b19bcafb8ac3915889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 36/67] fix: processes with an infinite likelihood saved in
 JSON could not be loaded

---
 crates/gp/src/algorithm.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 870b7dc..965eeff 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -176,6 +176,10 @@ pub struct GaussianProcess<F: Float, Mean: RegressionModel<F>, Corr: Correlation
     theta: Array1<F>,
     /// Reduced likelihood value (result from internal optimization)
     /// Maybe used to compare different trained models
+    #[cfg_attr(
+        feature = "serializable",
+        serde(deserialize_with = "deserialize_likelihood")
+    )]
     likelihood: F,
     /// Gaussian process internal fitted params
     inner_params: GpInnerParams<F>,
@@ -191,6 +195,21 @@ pub struct GaussianProcess<F: Float, Mean: RegressionModel<F>, Corr: Correlation
     pub(crate) params: GpValidParams<F, Mean, Corr>,
 }
 
+/// Likelihood is infinite when the trend explains the outputs exactly (e.g. constant outputs),
+/// and infinity is written as null in JSON
+#[cfg(feature = "serializable")]
+fn deserialize_likelihood<'de, D, F>(deserializer: D) -> std::result::Result<F, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    F: Float + Deserialize<'de>,
+{
+    if deserializer.is_human_readable() {
+        Ok(Option::<F>::deserialize(deserializer)?.unwrap_or(F::infinity()))
+    } else {
+        F::deserialize(deserializer)
+    }
+}
+
 pub(crate) enum GpSamplingMethod {
     Cholesky,
     EigenValues,
-- 
2.43.0


From 706419abe5f3c9250110b54b8bba80e866e67599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 37/67] fix: saving a mixed-integer surrogate panicked when the
 file cannot be created

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 61fb99c..2299fcd 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -636,7 +636,7 @@ impl GpSurrogate for MixintGpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> egobox_moe::Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
-- 
2.43.0


From 274599158687a9158f105ca3180f0792c2be4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 38/67] fix: loading a mixed-integer surrogate panicked on
 invalid JSON

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 2299fcd..facf4ee 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -655,7 +655,7 @@ impl MixintGpMixture {
     pub fn load(path: &str, format: GpFileFormat) -> Result<Box<MixintGpMixture>> {
         let data = fs::read(path)?;
         let moe = match format {
-            GpFileFormat::Json => serde_json::from_slice(&data).unwrap(),
+            GpFileFormat::Json => serde_json::from_slice(&data)?,
             GpFileFormat::Binary => {
                 bincode::serde::decode_from_slice(&data, bincode::config::standard())
                     .map(|(surrogate, _)| surrogate)?
-- 
2.43.0


From 496f3ee16ec03182581cc47c6fff657ae055d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 39/67] fix: the linfa prediction of mixed-integer surrogates
 did not discretise its input

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index facf4ee..fd46ed8 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -767,7 +767,7 @@ impl<D: Data<Elem = f64>> PredictInplace<ArrayBase<D, Ix2>, Array1<f64>> for Mix
             "The number of data points must match the number of output targets."
         );
 
-        let values = self.moe.predict(x).expect("MixintGpMixture prediction");
+        let values = GpSurrogate::predict(self, &x.view()).expect("MixintGpMixture prediction");
         *y = values;
     }
 
-- 
2.43.0


From 6e246ebb17526b3bc79487d54cc6b97d30ec2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 40/67] fix: training on given clusters panicked instead of
 reporting an error

---
 crates/ego/src/gpmix/mixint.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index fd46ed8..4050b49 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -398,8 +398,7 @@ impl MixintGpMixtureValidParams {
                 .surrogate_builder
                 .clone()
                 .check_ref()?
-                .train_on_clusters(&xcast, &yt.to_owned(), clustering)
-                .unwrap(),
+                .train_on_clusters(&xcast, &yt.to_owned(), clustering)?,
             xtypes: self.xtypes.clone(),
             work_in_folded_space: self.work_in_folded_space,
             training_data: (xt.to_owned(), yt.to_owned()),
-- 
2.43.0


From 8293cbfc1715be94ba57d0710122e92f1b9a4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 41/67] fix: gradients of the variance panicked with nearly
 collinear regression terms

---
 crates/gp/src/algorithm.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 965eeff..44581fd 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -551,14 +551,13 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         // A = f(x)^t - r(x, X)^t . R^-1 . F(X)   -> (1 x m)
         let a_mat = f_x.t().to_owned() - r.t().dot(&inv_kf);
 
-        // B = F(X)^t . R^-1 . F(X)
-        let b_mat = f_mean.t().dot(&inv_kf);
-        // rho3 = Bc
-        let rho3 = b_mat.cholesky().unwrap();
-        // inv_bat = Bc^-1 . A^t
-        let inv_bat = rho3.solve_triangular(&a_mat.t(), UPLO::Lower).unwrap();
-        // D = Bc^t-1 . Bc^-1 . A^t = B^-1 . A^t
-        let d_mat = rho3.t().solve_triangular(&inv_bat, UPLO::Upper).unwrap();
+        // B = F(X)^t . R^-1 . F(X) = Gt . G where G is the triangular factor of the QR decomposition
+        // of Rc^-1 . F(X), as B may not be numerically positive definite
+        let g = &self.inner_params.ft_qr_r;
+        // inv_bat = Gt^-1 . A^t
+        let inv_bat = g.t().solve_triangular(&a_mat.t(), UPLO::Lower).unwrap();
+        // D = G^-1 . Gt^-1 . A^t = B^-1 . A^t
+        let d_mat = g.solve_triangular(&inv_bat, UPLO::Upper).unwrap();
 
         let df = self.params.mean.jacobian(&xnorm.row(0));
 
-- 
2.43.0


From d9c7780ae8cb303f7f062cc4c80d27886d12c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 42/67] fix: function constraints received relaxed variables in
 discrete problems and partial points with CoEGO

---
 crates/ego/src/solver/solver_computations.rs | 57 ++++++++++++++------
 crates/ego/src/solver/solver_impl.rs         | 19 ++-----
 crates/ego/src/solver/solver_infill_optim.rs | 34 +++++++++++-
 3 files changed, 79 insertions(+), 31 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..69e4c99 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -492,6 +492,47 @@ where
             .expect("Objective evaluation")
     }
 
+    /// Evaluate a constraint given as function, and its gradient if any, at the given x point
+    /// of the continuous space
+    pub(crate) fn eval_fcstr(
+        &self,
+        fcstr: &impl CstrFn,
+        x: &[f64],
+        gradient: Option<&mut [f64]>,
+        params: &mut InfillObjData<f64>,
+    ) -> f64 {
+        if !self.config.discrete() {
+            return fcstr(x, gradient, params);
+        }
+        // We have to cast x to folded space as EgorSolver
+        // works internally in the continuous space while
+        // the constraint function expects discrete variable in folded space
+        let xary = Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
+        let xuser = to_discrete_space(&self.config.xtypes, &xary)
+            .row(0)
+            .to_vec();
+        let Some(grad) = gradient else {
+            return fcstr(&xuser, None, params);
+        };
+        let mut user_grad = vec![0.; xuser.len()];
+        let val = fcstr(&xuser, Some(&mut user_grad), params);
+        // There is no derivative wrt the components used to relax a categorical variable
+        let mut i = 0;
+        for (xtype, g) in self.config.xtypes.iter().zip(&user_grad) {
+            match xtype {
+                XType::Enum(n) => {
+                    grad[i..i + n].fill(0.);
+                    i += n;
+                }
+                _ => {
+                    grad[i] = *g;
+                    i += 1;
+                }
+            }
+        }
+        val
+    }
+
     /// Evaluate the constraints given as function at given x points
     pub fn eval_fcstrs(
         &self,
@@ -506,21 +547,7 @@ where
             .for_each(|mut r, xi| {
                 let cstr_vals = &fcstrs
                     .iter()
-                    .map(|cstr| {
-                        let xuser = if self.config.discrete() {
-                            let xary = xi.to_owned().insert_axis(Axis(0));
-                            // We have to cast x to folded space as EgorSolver
-                            // works internally in the continuous space while
-                            // the constraint function expects discrete variable in folded space
-                            to_discrete_space(&self.config.xtypes, &xary)
-                                .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
-                        } else {
-                            xi.to_vec()
-                        };
-                        cstr(&xuser, None, &mut unused)
-                    })
+                    .map(|cstr| self.eval_fcstr(cstr, &xi.to_vec(), None, &mut unused))
                     .collect::<Array1<_>>();
                 r.assign(cstr_vals)
             });
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..9b950e5 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use crate::errors::{EgoError, Result};
 use crate::find_best_result_index;
-use crate::gpmix::mixint::{as_continuous_limits, to_discrete_space};
+use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
@@ -722,19 +722,6 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            let x = if self.config.discrete() {
-                                let xary =
-                                    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
-                                // We have to cast x to folded space as EgorSolver
-                                // works internally in the continuous space while
-                                // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
-                                    .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
-                            } else {
-                                x
-                            };
                             cstr(x, gradient, params) / scale_fc
                         }
                     })
@@ -768,7 +755,9 @@ where
 
                         let ck = cstr_funcs
                             .iter()
-                            .map(|cstr| cstr(&xk.to_vec(), None, &mut infill_data))
+                            .map(|cstr| {
+                                self.eval_fcstr(cstr, &xk.to_vec(), None, &mut infill_data)
+                            })
                             .collect::<Vec<_>>();
                         c_dat = concatenate![
                             Axis(0),
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..91a5406 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -201,7 +201,39 @@ where
                 .iter()
                 .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
                 .collect::<Vec<_>>();
-            cstr_refs.extend(cstr_funcs.clone());
+            // Function constraints have to be evaluated with all the components
+            let coop_cstr_funcs = cstr_funcs
+                .iter()
+                .map(|cstr| {
+                    let active = Self::strip(&active, self.xlimits.nrows());
+                    move |x: &[f64],
+                          gradient: Option<&mut [f64]>,
+                          params: &mut InfillObjData<f64>|
+                          -> f64 {
+                        let mut xcoop = params.xbest.clone();
+                        coego::set_active_x(&mut xcoop, &active, x);
+
+                        // Defensive programming NlOpt::Cobyla may pass NaNs
+                        if xcoop.iter().any(|x| x.is_nan()) {
+                            return f64::INFINITY;
+                        }
+
+                        if let Some(grad) = gradient {
+                            let mut g = vec![0.; xcoop.len()];
+                            let val = self.eval_fcstr(cstr, &xcoop, Some(&mut g), params);
+                            std::iter::zip(grad, &active).for_each(|(gi, &i)| *gi = g[i]);
+                            val
+                        } else {
+                            self.eval_fcstr(cstr, &xcoop, None, params)
+                        }
+                    }
+                })
+                .collect::<Vec<_>>();
+            cstr_refs.extend(
+                coop_cstr_funcs
+                    .iter()
+                    .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync)),
+            );
 
             // Limits of activated components
             let xlimits_active = coego::get_active_x(Axis(0), &self.xlimits, &active);
-- 
2.43.0


From 6b920ed66b7793ed815e836ac3b552cfdf078167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 43/67] fix: gradients of scaled function constraints were not
 scaled, null constraints were scaled by zero

---
 crates/ego/src/solver/solver_computations.rs | 5 ++++-
 crates/ego/src/solver/solver_impl.rs         | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 69e4c99..5c969cf 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -185,7 +185,10 @@ where
             let mut scale_fcstr = Array1::zeros(fcstr_values.ncols());
             Zip::from(&mut scale_fcstr)
                 .and(fcstr_values.columns())
-                .for_each(|sc, vals| *sc = *vals.max().unwrap());
+                .for_each(|sc, vals| {
+                    let max = *vals.max().unwrap();
+                    *sc = if max > 0. { max } else { 1. };
+                });
             info!("Fonctional constraints scaling is updated to {scale_fcstr}");
             scale_fcstr
         };
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 9b950e5..8e3b3c6 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -722,7 +722,14 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            cstr(x, gradient, params) / scale_fc
+                            let val = if let Some(grad) = gradient {
+                                let val = cstr(x, Some(&mut *grad), params);
+                                grad.iter_mut().for_each(|g| *g /= scale_fc);
+                                val
+                            } else {
+                                cstr(x, None, params)
+                            };
+                            val / scale_fc
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From a3aeb9e2cc255d189690904cb8e257d66bbddfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 44/67] fix: gradients of active components were not in the
 order of the active components with CoEGO

---
 crates/ego/src/solver/solver_computations.rs | 12 ++++--------
 crates/ego/src/solver/solver_infill_optim.rs |  6 ++----
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 5c969cf..40b09cc 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -211,11 +211,9 @@ where
                 .row(0)
                 .mapv(|v| v / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
+            let grd_coop = Self::strip(active, grd.len())
                 .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
+                .map(|&i| grd[i])
                 .collect::<Vec<_>>();
             grad[..].copy_from_slice(&grd_coop);
         }
@@ -248,11 +246,9 @@ where
                 .row(0)
                 .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
+            let grd_coop = Self::strip(active, grd.len())
                 .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
+                .map(|&i| grd[i])
                 .collect::<Vec<_>>();
             grad[..].copy_from_slice(&grd_coop);
         }
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 91a5406..7aa5dbf 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -112,11 +112,9 @@ where
                                 *scale_wb2,
                             )
                         };
-                        let g_infill_obj = g_infill_obj
+                        let g_infill_obj = Self::strip(&active, g_infill_obj.len())
                             .iter()
-                            .enumerate()
-                            .filter(|(i, _)| active.contains(i))
-                            .map(|(_, &g)| g)
+                            .map(|&i| g_infill_obj[i])
                             .collect::<Vec<_>>();
                         grad[..].copy_from_slice(&g_infill_obj);
                     }
-- 
2.43.0


From 8ff0d42df58993cca7adcd9b31c12bcfa3e08348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 45/67] fix: an improvement by the first added point was not
 recorded as last best iteration

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..9fe5a8d 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -458,7 +458,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From b45f94c4b069814c053092307881a9009f3aa958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 46/67] fix: warm start took the saved values of function
 constraints as outputs of the objective function

---
 crates/ego/src/solver/egor_solver.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index fa101ec..ceff34c 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -215,11 +215,14 @@ where
                 info!("Compute initial DOE on specified {} points", doe.nrows());
                 (self.eval_obj(problem, doe), doe.to_owned())
             } else {
-                // split doe in x and y
+                // split doe in x and y, function constraints values saved with
+                // the doe if any are computed again from x hence ignored
                 info!("Use specified DOE {} samples", doe.nrows());
+                let nx = self.xlimits.nrows();
+                let ny = (1 + self.config.n_cstr).min(doe.ncols() - nx);
                 (
-                    doe.slice(s![.., self.xlimits.nrows()..]).to_owned(),
-                    doe.slice(s![.., ..self.xlimits.nrows()]).to_owned(),
+                    doe.slice(s![.., nx..nx + ny]).to_owned(),
+                    doe.slice(s![.., ..nx]).to_owned(),
                 )
             }
         } else {
-- 
2.43.0


From b7e018d4782575bd62bacffc187d52651ec786c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 47/67] fix: constraint tolerances were missing when function
 constraints are used with specified tolerances

---
 crates/ego/src/solver/egor_solver.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index ceff34c..692be10 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -269,10 +269,11 @@ where
         initial_state.max_iters = self.config.max_iters as u64;
         initial_state.added = doe.nrows();
         initial_state.no_point_added_retries = no_point_added_retries;
-        initial_state.cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::from_elem(
-            self.config.n_cstr + c_data.ncols(),
-            DEFAULT_CSTR_TOL,
-        ));
+        // Tolerances which are not specified are set to default value (eg function constraints)
+        let n_tol = self.config.n_cstr + c_data.ncols();
+        let mut cstr_tol = self.config.cstr_tol.clone().unwrap_or_default().to_vec();
+        cstr_tol.resize(n_tol.max(cstr_tol.len()), DEFAULT_CSTR_TOL);
+        initial_state.cstr_tol = Array1::from_vec(cstr_tol);
         initial_state.target_cost = self.config.target;
 
         let best_index = find_best_result_index(&y_data, &c_data, &initial_state.cstr_tol);
-- 
2.43.0


From 0f2c83a453a2b386f7dcc16c62d05bcfaa6b6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 48/67] fix: TREGO local steps evaluated points which were then
 rejected from history

---
 crates/ego/src/solver/trego.rs | 41 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/ego/src/solver/trego.rs b/crates/ego/src/solver/trego.rs
index e65b1fe..d73fd43 100644
--- a/crates/ego/src/solver/trego.rs
+++ b/crates/ego/src/solver/trego.rs
@@ -7,6 +7,7 @@ use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::types::DomainConstraints;
 use crate::utils::find_best_result_index_from;
 use crate::utils::is_feasible;
+use crate::utils::is_update_ok;
 use crate::utils::update_data;
 
 use argmin::core::CostFunction;
@@ -153,24 +154,28 @@ where
             x_data.row(new_state.best_index.unwrap()),
             x_data.row(best_index)
         );
-        let y_new = self.eval_obj(problem, &x_new);
-        debug!(
-            "y_old-y_new={}, rho={}",
-            y_old - y_new[[0, 0]],
-            rho(new_state.sigma)
-        );
-
-        let c_new = self.eval_problem_fcstrs(problem, &x_new);
-
-        // Update DOE and best point
-        let added = update_data(
-            &mut x_data,
-            &mut y_data,
-            &mut c_data,
-            &x_new,
-            &y_new,
-            &c_new,
-        );
+        // Update DOE and best point, a point too close to previous ones is not evaluated
+        let added = if is_update_ok(&x_data, &x_new.row(0)) {
+            let y_new = self.eval_obj(problem, &x_new);
+            debug!(
+                "y_old-y_new={}, rho={}",
+                y_old - y_new[[0, 0]],
+                rho(new_state.sigma)
+            );
+            let c_new = self.eval_problem_fcstrs(problem, &x_new);
+
+            update_data(
+                &mut x_data,
+                &mut y_data,
+                &mut c_data,
+                &x_new,
+                &y_new,
+                &c_new,
+            )
+        } else {
+            info!("Reject point too close to previous ones");
+            vec![]
+        };
         new_state.prev_added = new_state.added;
         new_state.added += added.len();
         info!(
-- 
2.43.0


From e40575c53970bb2c2a6fd6585a6dbb2df84c5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 49/67] fix: training with one optimization start was not
 reproducible

---
 crates/gp/src/optimization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c1c0b9b..20baea4 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -40,8 +40,8 @@ pub(crate) fn prepare_multistart<F: Float>(
 
     match n_start.cmp(&1) {
         std::cmp::Ordering::Equal => {
-            //let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let mut rng = Xoshiro256Plus::from_entropy();
+            // Use a seed here for reproducibility as below.
+            let mut rng = Xoshiro256Plus::seed_from_u64(42);
             let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..=*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
-- 
2.43.0


From 2c8ded59157c9fb3c54b32c59e53c93de26a07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 50/67] fix: optimization panicked when COBYLA evaluates
 constraint surrogates at NaN

---
 crates/ego/src/solver/solver_infill_optim.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 7aa5dbf..a5b947d 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -160,6 +160,11 @@ where
                             let mut xcoop = xcoop.clone();
                             coego::set_active_x(&mut xcoop, &active, x);
 
+                            // Defensive programming NlOpt::Cobyla may pass NaNs
+                            if xcoop.iter().any(|x| x.is_nan()) {
+                                return f64::INFINITY;
+                            }
+
                             let scale_cstr =
                                 params.scale_cstr.as_ref().expect("constraint scaling")[i];
                             if self.config.cstr_strategy == ConstraintStrategy::MeanConstraint {
-- 
2.43.0


From 81a3558a51ddfbeaa4605fa211ea521da2b3629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 51/67] fix: an iteration without added point was recorded as
 last best iteration and its previous points as added

---
 crates/ego/src/solver/solver_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 8e3b3c6..0d9a8da 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -507,6 +507,8 @@ where
                 if new_state.no_point_added_retries == 0 {
                     info!("Max number of retries ({}) without adding point", 3);
                     info!("Consider solver has converged");
+                    new_state.prev_added = new_state.added;
+                    new_state.prev_best_index = new_state.best_index;
                     return Err(EgoError::NoMorePointToAddError(Box::new(new_state)));
                 }
             } else {
-- 
2.43.0


From bb25b3fd3a534214221a9580b3c9eff0da66dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 52/67] fix: optimizations with several clusters were not
 reproducible with a seed

---
 crates/ego/src/gpmix/mixint.rs | 6 +++++-
 crates/ego/src/gpmix/mod.rs    | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4050b49..3156187 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -410,7 +410,11 @@ impl MixintGpMixtureValidParams {
 
 impl SurrogateBuilder for MixintGpMixtureParams {
     fn new_with_xtypes(xtypes: &[XType]) -> Self {
-        MixintGpMixtureParams::new(xtypes, &GpMixtureParams::new())
+        // Clustering has to be reproducible
+        MixintGpMixtureParams::new(
+            xtypes,
+            &GpMixtureParams::new().with_rng(Xoshiro256Plus::seed_from_u64(42)),
+        )
     }
 
     /// Sets the allowed regression models used in gaussian processes.
diff --git a/crates/ego/src/gpmix/mod.rs b/crates/ego/src/gpmix/mod.rs
index 16974be..e6ebdf6 100644
--- a/crates/ego/src/gpmix/mod.rs
+++ b/crates/ego/src/gpmix/mod.rs
@@ -10,6 +10,8 @@ use egobox_moe::{
 use ndarray::{ArrayView1, ArrayView2};
 
 use linfa::ParamGuard;
+use ndarray_rand::rand::SeedableRng;
+use rand_xoshiro::Xoshiro256Plus;
 
 use crate::Result;
 use crate::{SurrogateBuilder, XType};
@@ -21,7 +23,8 @@ impl SurrogateBuilder for GpMixtureParams<f64> {
         if crate::utils::discrete(xtypes) {
             panic!("GpMixtureParams cannot be created with discrete types!");
         }
-        GpMixtureParams::new()
+        // Clustering has to be reproducible
+        GpMixtureParams::new().with_rng(Xoshiro256Plus::seed_from_u64(42))
     }
 
     /// Sets the allowed regression models used in gaussian processes.
-- 
2.43.0


From 7a15f29235ffd79f86497fc831b7305a1ab39c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 53/67] fix: a crash while writing a checkpoint destroyed the
 previous one

---
 crates/ego/src/utils/hot_start.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/utils/hot_start.rs b/crates/ego/src/utils/hot_start.rs
index 3d75cee..da8c3a2 100644
--- a/crates/ego/src/utils/hot_start.rs
+++ b/crates/ego/src/utils/hot_start.rs
@@ -93,12 +93,18 @@ where
             std::fs::create_dir_all(&self.directory)?
         }
         let fname = self.directory.join(&self.filename);
-        let mut file = std::fs::File::create(fname).unwrap();
 
         // let bytes = bincode::serde::encode_to_vec((solver, state), bincode::config::standard())?;
         let bytes = serde_json::to_vec(&(solver, state))?;
 
+        // The previous checkpoint is replaced only once the new one is complete,
+        // so that an interruption while writing leaves a checkpoint to restart from
+        let mut tmp_fname = fname.clone().into_os_string();
+        tmp_fname.push(".tmp");
+        let mut file = std::fs::File::create(&tmp_fname)?;
         file.write_all(&bytes)?;
+        drop(file);
+        std::fs::rename(&tmp_fname, &fname)?;
         Ok(())
     }
 
-- 
2.43.0


From 44bcdcc1eb7cead7336e46aefdc86b8ea9f566ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 54/67] fix: LogEI is finite and accurate in the far tail

---
 crates/ego/src/solver/solver_computations.rs |  5 ++++-
 crates/ego/src/utils/logei_helper.rs         | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 40b09cc..7497b97 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -25,6 +25,7 @@ use rand_xoshiro::Xoshiro256Plus;
 use serde::de::DeserializeOwned;
 
 const CSTR_DOUBT: f64 = 3.;
+const LOGEI_SCALE_MAX: f64 = 708.; // -ln(f64::MIN_POSITIVE)
 
 /// LocalMultiStarter is a multistart strategy that samples points in the xlimits.
 #[allow(dead_code)]
@@ -305,13 +306,15 @@ where
     ) -> f64 {
         let mut crit_vals = Array1::zeros(x.nrows());
         let (mut nan_count, mut inf_count) = (0, 0);
+        // Do not take into account points where EI underflows: LogEI is hugely negative there
+        let is_logei = self.config.infill_criterion.name() == "LogEI";
         Zip::from(&mut crit_vals).and(x.rows()).for_each(|c, x| {
             let val =
                 self.eval_infill_obj(&x.to_vec(), obj_model, fmin, 1.0, scale_ic, sigma_weight);
             *c = if val.is_nan() {
                 nan_count += 1;
                 1.0
-            } else if val.is_infinite() {
+            } else if val.is_infinite() || (is_logei && val > LOGEI_SCALE_MAX) {
                 inf_count += 1;
                 1.0
             } else {
diff --git a/crates/ego/src/utils/logei_helper.rs b/crates/ego/src/utils/logei_helper.rs
index 6dddd1f..66d799e 100644
--- a/crates/ego/src/utils/logei_helper.rs
+++ b/crates/ego/src/utils/logei_helper.rs
@@ -4,7 +4,9 @@ use libm::{erfc, exp, expm1, log, log1p};
 const INV_SQRT_2: f64 = 0.7071067811865475;
 const LOG_2PI_OVER_2: f64 = 0.9189385332046727; // log(2π)/2
 const LOG_PI_OVER_2_ALL_OVER_2: f64 = 0.2257913526447274; // log(π/2)/2
-const INV_SQRT_EPSILON: f64 = 1.0 / 1e-6;
+// Under this value asymptotic expansions are used: erfcx(-u/√2) and erfc(-u/√2)
+// cannot be computed any more when u < -37
+const ASYMPTOTIC_LIMIT: f64 = -30.0;
 
 fn erfcx(u: f64) -> f64 {
     exp(u * u) * erfc(u)
@@ -25,11 +27,13 @@ pub fn log_ei_helper(u: f64) -> f64 {
     } else {
         let log_phi_u = -0.5 * u * u - LOG_2PI_OVER_2;
 
-        let log_term = if u > -INV_SQRT_EPSILON {
+        let log_term = if u > ASYMPTOTIC_LIMIT {
             let w = log(erfcx(-INV_SQRT_2 * u) * u.abs()) + LOG_PI_OVER_2_ALL_OVER_2;
             log1mexp(w)
         } else {
-            -2.0 * log(u.abs())
+            // 1/u^2 (1 - 3/u^2 + 15/u^4 - ...)
+            let v = 1.0 / (u * u);
+            -2.0 * log(u.abs()) + log1p(v * (-3.0 + 15.0 * v))
         };
 
         log_phi_u + log_term
@@ -64,10 +68,11 @@ pub fn d_log_ei_helper(u: f64) -> f64 {
     } else {
         let d_log_phi_u = -u;
 
-        let d_log_term = if u > -INV_SQRT_EPSILON {
+        let d_log_term = if u > ASYMPTOTIC_LIMIT {
             log1mexp_w_derivative(u)
         } else {
-            -2. / u
+            let v = 1.0 / (u * u);
+            (-2.0 + v * (6.0 - 60.0 * v) / (1.0 + v * (-3.0 + 15.0 * v))) / u
         };
 
         d_log_phi_u + d_log_term
-- 
2.43.0


From 59f367f24ae25d3129ea91a3fb88a8a6e0c3c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 55/67] fix: LogEI takes into account the weight of the
 standard deviation

---
 crates/ego/src/criteria/ei.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/criteria/ei.rs b/crates/ego/src/criteria/ei.rs
index 39d7b4c..f2fb191 100644
--- a/crates/ego/src/criteria/ei.rs
+++ b/crates/ego/src/criteria/ei.rs
@@ -108,7 +108,7 @@ impl InfillCriterion for LogExpectedImprovement {
         x: &[f64],
         obj_model: &dyn MixtureGpSurrogate,
         fmin: f64,
-        _sigma_weight: Option<f64>,
+        sigma_weight: Option<f64>,
         _scale: Option<f64>,
     ) -> f64 {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
@@ -119,7 +119,8 @@ impl InfillCriterion for LogExpectedImprovement {
                     f64::MIN
                 } else {
                     let pred = p[0];
-                    let sigma = s[0].sqrt();
+                    let k = sigma_weight.unwrap_or(1.0);
+                    let sigma = k * s[0].sqrt();
                     let u = (fmin - pred) / sigma;
                     log_ei_helper(u) + sigma.ln()
                 }
@@ -135,7 +136,7 @@ impl InfillCriterion for LogExpectedImprovement {
         x: &[f64],
         obj_model: &dyn MixtureGpSurrogate,
         fmin: f64,
-        _sigma_weight: Option<f64>,
+        sigma_weight: Option<f64>,
         _scale: Option<f64>,
     ) -> Array1<f64> {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
@@ -147,13 +148,14 @@ impl InfillCriterion for LogExpectedImprovement {
                 } else {
                     let pred = p[0];
                     let diff_y = fmin - pred;
-                    let sigma = s[0].sqrt();
+                    let k = sigma_weight.unwrap_or(1.0);
+                    let sigma = k * s[0].sqrt();
                     let arg = diff_y / sigma;
 
                     let (y_prime, var_prime) = obj_model.predict_valvar_gradients(&pt).unwrap();
                     let y_prime = y_prime.row(0);
                     let sig_2_prime = var_prime.row(0);
-                    let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
+                    let sig_prime = sig_2_prime.mapv(|v| k * k * v / (2. * sigma));
 
                     let arg_prime = y_prime.mapv(|v| v / (-sigma))
                         - diff_y.to_owned() * sig_prime.mapv(|v| v / (sigma * sigma));
-- 
2.43.0


From b55a7f559973800a5383d5faefb6912435b45556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 56/67] fix: expected improvement does not vanish when the
 objective has a small scale

---
 crates/ego/src/criteria/ei.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/crates/ego/src/criteria/ei.rs b/crates/ego/src/criteria/ei.rs
index f2fb191..6e37813 100644
--- a/crates/ego/src/criteria/ei.rs
+++ b/crates/ego/src/criteria/ei.rs
@@ -5,8 +5,6 @@ use ndarray::{Array1, ArrayView};
 
 use serde::{Deserialize, Serialize};
 
-const SQRT_2PI: f64 = 2.5066282746310007;
-
 /// A structure for Expected Improvement implementation
 #[derive(Clone, Serialize, Deserialize)]
 pub struct ExpectedImprovement;
@@ -30,7 +28,7 @@ impl InfillCriterion for ExpectedImprovement {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
         match obj_model.predict_valvar(&pt) {
             Ok((p, s)) => {
-                if s[0] < f64::EPSILON {
+                if s[0] < f64::MIN_POSITIVE {
                     0.0
                 } else {
                     let pred = p[0];
@@ -59,11 +57,10 @@ impl InfillCriterion for ExpectedImprovement {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
         match obj_model.predict_valvar(&pt) {
             Ok((p, s)) => {
-                if s[0] < f64::EPSILON {
+                if s[0] < f64::MIN_POSITIVE {
                     Array1::zeros(pt.len())
                 } else {
                     let pred = p[0];
-                    let diff_y = fmin - pred;
                     let k = sigma_weight.unwrap_or(1.0);
                     let sigma = s[0].sqrt();
                     let arg = (fmin - pred) / (k * sigma);
@@ -72,15 +69,11 @@ impl InfillCriterion for ExpectedImprovement {
                     let y_prime = y_prime.row(0);
                     let sig_2_prime = var_prime.row(0);
                     let sig_prime = sig_2_prime.mapv(|v| k * v / (2. * sigma));
-                    let arg_prime = y_prime.mapv(|v| v / (-k * sigma))
-                        - diff_y.to_owned() * sig_prime.mapv(|v| v / (k * sigma * k * sigma));
-                    let factor = k * sigma * (-arg / SQRT_2PI) * (-(arg * arg) / 2.).exp();
 
+                    // d(EI) = -cdf(arg) * d(y) + pdf(arg) * d(k * sigma)
                     let arg1 = y_prime.mapv(|v| v * (-norm_cdf(arg)));
-                    let arg2 = diff_y * norm_pdf(arg) * arg_prime.to_owned();
-                    let arg3 = sig_prime.to_owned() * norm_pdf(arg);
-                    let arg4 = factor * arg_prime;
-                    arg1 + arg2 + arg3 + arg4
+                    let arg2 = sig_prime * norm_pdf(arg);
+                    arg1 + arg2
                 }
             }
             _ => Array1::zeros(pt.len()),
@@ -115,7 +108,7 @@ impl InfillCriterion for LogExpectedImprovement {
 
         match obj_model.predict_valvar(&pt) {
             Ok((p, s)) => {
-                if s[0] < f64::EPSILON {
+                if s[0] < f64::MIN_POSITIVE {
                     f64::MIN
                 } else {
                     let pred = p[0];
@@ -143,7 +136,7 @@ impl InfillCriterion for LogExpectedImprovement {
 
         match obj_model.predict_valvar(&pt) {
             Ok((p, s)) => {
-                if s[0] < f64::EPSILON {
+                if s[0] < f64::MIN_POSITIVE {
                     Array1::from_elem(pt.len(), f64::MIN)
                 } else {
                     let pred = p[0];
-- 
2.43.0


From 90bb8b92cc32b0037b36216c16d265151b52d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 57/67] fix: gradient of the probability of feasibility takes
 the tolerance into account

---
 crates/ego/src/utils/cstr_pof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 159439c..4640d38 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -40,7 +40,7 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
                 let sig_2_prime = var_prime.row(0);
                 let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
                 let arg_prime =
-                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * pred / (sigma * sigma));
+                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * (pred - cstr_tol) / (sigma * sigma));
                 norm_pdf(arg) * arg_prime.to_owned()
             }
         }
-- 
2.43.0


From 888eb751f3b05517d0890533faaf26c285ace03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 58/67] fix: probability of feasibility does not vanish when
 the constraint has a small scale

---
 crates/ego/src/utils/cstr_pof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 4640d38..f1c3265 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -10,7 +10,7 @@ fn pof(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> f64 {
     let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
     match cstr_model.predict_valvar(&pt) {
         Ok((p, s)) => {
-            if s[0] < f64::EPSILON {
+            if s[0] < f64::MIN_POSITIVE {
                 0.0
             } else {
                 let pred = p[0];
@@ -29,7 +29,7 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
     let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
     match cstr_model.predict_valvar(&pt) {
         Ok((p, s)) => {
-            if s[0] < f64::EPSILON {
+            if s[0] < f64::MIN_POSITIVE {
                 Array1::zeros(pt.len())
             } else {
                 let pred = p[0];
-- 
2.43.0


From 948f44e09fd0114b5bbab26d13606ef2727ed24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 59/67] fix: gradient of the upper trust bound of constraints
 in dimension 2 and more

---
 crates/ego/src/solver/solver_computations.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 7497b97..13278c3 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -238,14 +238,16 @@ where
 
         if let Some(grad) = gradient {
             let (pred_grad, var_grad) = cstr_model.predict_valvar_gradients(&x.view()).unwrap();
-            let sigma_prime = if sigma < f64::EPSILON {
-                0.
-            } else {
-                var_grad[[0, 0]] / (2. * sigma)
-            };
-            let grd = pred_grad
-                .row(0)
-                .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
+            let grd = Zip::from(pred_grad.row(0))
+                .and(var_grad.row(0))
+                .map_collect(|dp, dv| {
+                    let sigma_prime = if sigma < f64::EPSILON {
+                        0.
+                    } else {
+                        dv / (2. * sigma)
+                    };
+                    (dp + CSTR_DOUBT * sigma_prime) / scale_cstr
+                })
                 .to_vec();
             let grd_coop = Self::strip(active, grd.len())
                 .iter()
-- 
2.43.0


From 3ebeb853067738719ec0d544ca78381fa3b5189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 60/67] fix: gradient of the infill criterion takes into
 account the weight of the standard deviation

---
 crates/ego/src/solver/solver_computations.rs | 44 +++++++++++++++-----
 crates/ego/src/solver/solver_infill_optim.rs |  1 +
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 13278c3..2a78cc0 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -386,13 +386,16 @@ where
         fmin: f64,
         scale: f64,
         scale_ic: f64,
+        sigma_weight: f64,
     ) -> Vec<f64> {
         let x_f = x.to_vec();
-        let grad =
-            -(self
-                .config
-                .infill_criterion
-                .grad(&x_f, obj_model, fmin, None, Some(scale_ic)));
+        let grad = -(self.config.infill_criterion.grad(
+            &x_f,
+            obj_model,
+            fmin,
+            Some(sigma_weight),
+            Some(scale_ic),
+        ));
         (grad / scale).to_vec()
     }
 
@@ -440,16 +443,30 @@ where
         sigma_weight: f64,
     ) -> Vec<f64> {
         if cstr_models.is_empty() {
-            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic)
+            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-                Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                Array1::from_vec(self.eval_grad_infill_obj(
+                    x,
+                    obj_model,
+                    fmin,
+                    scale,
+                    scale_ic,
+                    sigma_weight,
+                ))
             } else {
                 // when no feasible point is found, make the infill criterion gradient neutral factor
                 if self.config.infill_criterion.name() == "LogEI" {
                     Array1::zeros(x.len())
                 } else {
-                    Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                    Array1::from_vec(self.eval_grad_infill_obj(
+                        x,
+                        obj_model,
+                        fmin,
+                        scale,
+                        scale_ic,
+                        sigma_weight,
+                    ))
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
@@ -459,9 +476,14 @@ where
                 let (infill, infill_grad) = if feasibility {
                     (
                         self.eval_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight),
-                        Array1::from_vec(
-                            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic),
-                        ),
+                        Array1::from_vec(self.eval_grad_infill_obj(
+                            x,
+                            obj_model,
+                            fmin,
+                            scale,
+                            scale_ic,
+                            sigma_weight,
+                        )),
                     )
                 } else {
                     // when no feasible point is found, make the grad infill criterion value neutral factor
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index a5b947d..dd0e891 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -110,6 +110,7 @@ where
                                 *fmin,
                                 *scale_infill_obj,
                                 *scale_wb2,
+                                *sigma_weight,
                             )
                         };
                         let g_infill_obj = Self::strip(&active, g_infill_obj.len())
-- 
2.43.0


From 9506dc08a76a799f31ee3ca847ad211a6da70eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 61/67] fix: log probability of feasibility is scaled as the
 LogEI criterion it is added to

---
 crates/ego/src/solver/solver_computations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 2a78cc0..e0169a4 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -422,7 +422,7 @@ where
             -((self.config.infill_criterion.name() != "LogEI") as i32 as f64)
         };
         if self.config.infill_criterion.name() == "LogEI" {
-            infill_obj - logpofs(x, cstr_models, &cstr_tols.to_vec())
+            infill_obj - logpofs(x, cstr_models, &cstr_tols.to_vec()) / scale
         } else {
             infill_obj * pofs(x, cstr_models, &cstr_tols.to_vec())
         }
@@ -470,7 +470,8 @@ where
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
-                let logcei_grad = infill_grad - logpofs_grad(x, cstr_models, &cstr_tols.to_vec());
+                let logcei_grad =
+                    infill_grad - logpofs_grad(x, cstr_models, &cstr_tols.to_vec()) / scale;
                 logcei_grad.to_vec()
             } else {
                 let (infill, infill_grad) = if feasibility {
-- 
2.43.0


From 1b5e7245df801c22b993a41bc0891aec18f076d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 62/67] fix: get_result and get_result_index of the Python Egor
 accept any number of points with constraints

---
 python/src/egor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 53396ea..813fc2e 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -381,7 +381,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs))
     }
 
@@ -409,7 +409,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         let idx = find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs));
         let x_opt = x_doe.row(idx).to_pyarray(py).into();
         let y_opt = y_doe.row(idx).to_pyarray(py).into();
-- 
2.43.0


From 9b7d3c0c3463d44dd6c5c528aad8d9520798dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 63/67] fix: max_eval given to the Python GpMix is used to
 train the mixture

---
 python/src/gp_mix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/gp_mix.rs b/python/src/gp_mix.rs
index bb54946..271c302 100644
--- a/python/src/gp_mix.rs
+++ b/python/src/gp_mix.rs
@@ -227,6 +227,7 @@ impl GpMix {
                 .theta_tunings(&theta_tunings)
                 .kpls_dim(self.gp_config.kpls_dim)
                 .n_start(n_start)
+                .max_eval(self.gp_config.max_eval)
                 .with_rng(rng)
                 .fit(&dataset)
                 .expect("MoE model training")
-- 
2.43.0


From 30f09c3e4bbc18f7a3d0ef6869985075255e6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 64/67] fix: surrogates start from the hyperparameters of the
 previous training instead of those of the last clustering

---
 crates/ego/src/solver/solver_impl.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 0d9a8da..d1013fe 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -289,6 +289,15 @@ where
                         "CoEGO theta update wrt likelihood not implemented in multi-cluster setting"
                     );
                 }
+            } else {
+                best_theta_inits = Array2::from_shape_vec(
+                    (gp.experts().len(), gp.experts()[0].theta().len()),
+                    gp.experts()
+                        .iter()
+                        .flat_map(|expert| expert.theta().to_vec())
+                        .collect(),
+                )
+                .expect("Theta initialization failure");
             };
             model = Some(gp)
         }
-- 
2.43.0


From 6a97d37f74ce47756ffe2005c39284c47e4cfe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 65/67] fix: fixed and partial theta tunings, and any tuning
 with automatic clustering, are used to train the surrogates of the optimizer

---
 crates/ego/src/solver/coego.rs       | 54 ++++++++++++++--------------
 crates/ego/src/solver/solver_impl.rs | 34 ++++++++++++------
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/crates/ego/src/solver/coego.rs b/crates/ego/src/solver/coego.rs
index e52b1c4..b96c7de 100644
--- a/crates/ego/src/solver/coego.rs
+++ b/crates/ego/src/solver/coego.rs
@@ -94,35 +94,35 @@ where
         .unwrap()
     }
 
-    /// Set partial theta tuning from previous theta tuning and given activity
-    pub(crate) fn set_partial_theta_tuning(
+    /// Make the theta tuning of an expert from the configured one and given activity:
+    /// starting from the given initial value, only the components which are both in
+    /// the given activity and optimized wrt configuration are optimized.
+    pub(crate) fn make_theta_tuning(
         &self,
+        init: Array1<f64>,
+        bounds: &Array1<(f64, f64)>,
         active: &[usize],
-        theta_tunings: &mut [ThetaTuning<f64>],
-    ) {
-        theta_tunings.iter_mut().for_each(|theta| {
-            *theta = match theta {
-                ThetaTuning::Fixed(init) => ThetaTuning::Partial {
-                    init: init.clone(),
-                    bounds: Array1::from_vec(vec![ThetaTuning::<f64>::DEFAULT_BOUNDS; init.len()]),
-                    active: Self::strip(active, init.len()),
-                },
-                ThetaTuning::Full { init, bounds } => ThetaTuning::Partial {
-                    init: init.clone(),
-                    bounds: bounds.clone(),
-                    active: Self::strip(active, init.len()),
-                },
-                ThetaTuning::Partial {
-                    init,
-                    bounds,
-                    active: _,
-                } => ThetaTuning::Partial {
-                    init: init.clone(),
-                    bounds: bounds.clone(),
-                    active: Self::strip(active, init.len()),
-                },
-            };
-        });
+        dim: usize,
+    ) -> ThetaTuning<f64> {
+        let mut active = Self::strip(active, dim);
+        match &self.config.gp.theta_tuning {
+            ThetaTuning::Fixed(_) => active.clear(),
+            ThetaTuning::Full { init: _, bounds: _ } => (),
+            ThetaTuning::Partial {
+                init: _,
+                bounds: _,
+                active: configured,
+            } => active.retain(|i| configured.contains(i)),
+        }
+        if active.is_empty() {
+            ThetaTuning::Fixed(init)
+        } else {
+            ThetaTuning::Partial {
+                init,
+                bounds: bounds.to_owned(),
+                active,
+            }
+        }
     }
 
     /// Used to remove out of range indices from activity last row
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index d1013fe..b0e5703 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -167,14 +167,25 @@ where
                         if self.config.coego.activated {
                             log::warn!("Automated clustering not available with CoEGO")
                         }
+                        // number of experts is unknown, start from the configured value
+                        let init = self.config.gp.theta_tuning.init().to_owned();
+                        builder.set_theta_tunings(&[self.make_theta_tuning(
+                            init,
+                            &theta_bounds,
+                            &active.to_vec(),
+                            dim,
+                        )]);
                     }
                     NbClusters::Fixed { nb: _ } => {
                         let theta_tunings = best_theta_inits
                             .outer_iter()
-                            .map(|init| ThetaTuning::Partial {
-                                init: init.to_owned(),
-                                bounds: theta_bounds.to_owned(),
-                                active: Self::strip(&active.to_vec(), init.len()),
+                            .map(|init| {
+                                self.make_theta_tuning(
+                                    init.to_owned(),
+                                    &theta_bounds,
+                                    &active.to_vec(),
+                                    dim,
+                                )
                             })
                             .collect::<Vec<_>>();
                         builder.set_theta_tunings(&theta_tunings);
@@ -215,16 +226,17 @@ where
 
                 let theta_tunings = if optimize_theta {
                     // set hyperparameters optimization
-                    let mut inits = best_theta_inits
+                    let inits = best_theta_inits
                         .outer_iter()
-                        .map(|init| ThetaTuning::Full {
-                            init: init.to_owned(),
-                            bounds: theta_bounds.to_owned(),
+                        .map(|init| {
+                            self.make_theta_tuning(
+                                init.to_owned(),
+                                &theta_bounds,
+                                &active.to_vec(),
+                                dim,
+                            )
                         })
                         .collect::<Vec<_>>();
-                    if self.config.coego.activated {
-                        self.set_partial_theta_tuning(&active.to_vec(), &mut inits);
-                    }
                     if i == 0 && model_name == "Objective" {
                         info!("Objective model hyperparameters optim init >>> {inits:?}");
                     }
-- 
2.43.0


From 41d6516a99aa70433a17a7ac409606ddebf90ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 66/67] fix: negative n_start of GpConfig disables the
 optimization of hyperparameters in the Python Egor as documented

---
 python/src/egor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 813fc2e..5a35027 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -496,6 +496,10 @@ impl Egor {
                 bounds: bounds.iter().map(|v| (v[0], v[1])).collect(),
             }
         }
+        if self.gp_config.n_start < 0 {
+            // no optimization, use theta_init as is
+            theta_tuning = ThetaTuning::Fixed(theta_tuning.init().to_owned());
+        }
         theta_tuning
     }
 
-- 
2.43.0


From ad81e664869394979e56b6c8eee439b3e15ea8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 67/67] fix: automatic clusters are refreshed every ten points
 also when points are added by batches

---
 crates/ego/src/solver/solver_impl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index b0e5703..0b6e178 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -106,10 +106,11 @@ where
     SB: SurrogateBuilder + DeserializeOwned,
     C: CstrFn,
 {
-    /// Whether we have to recluster the data
+    /// Whether we have to recluster the data, that is every 10-points addition
+    /// (several points may be added at once)
     pub fn have_to_recluster(&self, added: usize, prev_added: usize) -> bool {
         self.config.gp.n_clusters.is_auto()
-            && (added != 0 && added.is_multiple_of(10) && added - prev_added > 0)
+            && (prev_added != 0 && added / 10 > prev_added / 10)
     }
 
     /// Build surrogate given training data and surrogate builder
-- 
2.43.0


From 406985dfbb2bd5de20294b769c316fa8431231ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 01/59] fix: keep scaled samples within the bounds despite
 rounding

---
 crates/doe/src/traits.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/doe/src/traits.rs b/crates/doe/src/traits.rs
index 1b12f3f..80d2be6 100644
--- a/crates/doe/src/traits.rs
+++ b/crates/doe/src/traits.rs
@@ -40,7 +40,14 @@ pub trait SamplingMethod<F: Float> {
     fn sample(&self, ns: usize) -> Array2<F> {
         let xlimits = self.sampling_space();
         let lower = xlimits.column(0);
-        let scaler = &xlimits.column(1) - &lower;
-        self.normalized_sample(ns) * scaler + lower
+        let upper = xlimits.column(1);
+        let scaler = &upper - &lower;
+        let mut x = self.normalized_sample(ns) * scaler + lower;
+        // Rounding may push a sample just outside its interval
+        for (mut col, (&a, &b)) in x.columns_mut().into_iter().zip(lower.iter().zip(upper)) {
+            let (lo, up) = if a <= b { (a, b) } else { (b, a) };
+            col.mapv_inplace(|v| F::min(F::max(v, lo), up));
+        }
+        x
     }
 }
-- 
2.43.0


From b15b1a0c1ff0724ea4c003ab40d2bddefd55086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 02/59] fix: single point maximin and optimized LHS neither
 panic nor loop forever

---
 crates/doe/src/lhs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 9024687..3b65a90 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -77,6 +77,10 @@ impl<F: Float, R: Rng> SamplingMethod<F> for Lhs<F, R> {
             LhsKind::CenteredMaximin => self._maximin_lhs(ns, true, 5),
             LhsKind::Optimized => {
                 let doe = self._classic_lhs(ns);
+                if ns < 2 {
+                    // nothing to exchange
+                    return doe;
+                }
                 let nx = self.xlimits.nrows();
                 let outer_loop = cmp::min((1.5 * nx as f64) as usize, 30);
                 let inner_loop = cmp::min(20 * nx, 100);
@@ -279,6 +283,10 @@ impl<F: Float, R: Rng> Lhs<F, R> {
         } else {
             self._classic_lhs(ns)
         };
+        if ns < 2 {
+            // no pairwise distance to maximize
+            return lhs;
+        }
         let mut max_dist = *pdist(&lhs).min().unwrap();
         let mut lhs_maximin = lhs;
         for _ in 0..max_iters - 1 {
-- 
2.43.0


From ed6005f67dc1a5330af40567b66dec0af307e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 03/59] fix: optimized LHS does not panic when two points are
 very close

---
 crates/doe/src/lhs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 3b65a90..f5231ac 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -234,6 +234,10 @@ impl<F: Float, R: Rng> Lhs<F, R> {
 
         // swap points
         x.swap([i1, k], [i2, k]);
+        if res.is_nan() {
+            // incremental update breaks down (cancellation) when two points are very close
+            res = self._phip(x, p);
+        }
         res
     }
 
-- 
2.43.0


From fad360c2ab235d471c0d89dc61b5ea80f9f05990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 04/59] hook: expose utils to the model checking harness under
 cfg(egobox_mc)

---
 crates/ego/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ego/src/lib.rs b/crates/ego/src/lib.rs
index 83fd6b3..2ca9e9e 100644
--- a/crates/ego/src/lib.rs
+++ b/crates/ego/src/lib.rs
@@ -289,6 +289,7 @@
 //!
 #![warn(missing_docs)]
 #![warn(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 
 pub mod criteria;
 pub mod gpmix;
@@ -311,3 +312,11 @@ pub use crate::utils::{
 
 mod optimizers;
 mod utils;
+
+/// Internals exposed to the model checking harness (only with `--cfg egobox_mc`)
+#[cfg(egobox_mc)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod mc_hooks {
+    pub use crate::utils::*;
+}
-- 
2.43.0


From d6d28ad7199f1badd6de1376e95c0646e9de07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 05/59] fix: mixed-integer folding and unfolding use the right
 columns with enums

---
 crates/ego/src/gpmix/mixint.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..67c26f2 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -86,7 +86,7 @@ pub(crate) fn fold_with_enum_index<F: Float>(
             unfold_index += 1;
         }
         XType::Enum(v) => {
-            let xenum = x.slice(s![.., j..j + v]);
+            let xenum = x.slice(s![.., unfold_index..unfold_index + v]);
             let argmaxx = xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap()));
             col.assign(&argmaxx);
             unfold_index += v;
@@ -121,9 +121,7 @@ pub(crate) fn unfold_with_enum_mask(
     let mut unfold_index = 0;
     xtypes.iter().enumerate().for_each(|(i, s)| match s {
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
-            xunfold
-                .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+            xunfold.column_mut(unfold_index).assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From 9255533c58da6c6bc3f808404b625176dcecf1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 06/59] fix: best index is a feasible row when feasible
 objectives are infinite

---
 crates/ego/src/utils/find_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/utils/find_result.rs b/crates/ego/src/utils/find_result.rs
index 1324d8a..e867067 100644
--- a/crates/ego/src/utils/find_result.rs
+++ b/crates/ego/src/utils/find_result.rs
@@ -105,7 +105,7 @@ pub fn find_best_result_index<F: Float>(
                 min_index
             } else {
                 // There is at least one or several point feasible, take the minimal objective among them
-                let mut index = 0;
+                let mut index = min_index;
                 let mut y_best = F::infinity();
                 Zip::indexed(c_obj.rows()).for_each(|i, c_o| {
                     if c_o[0] == F::zero() && c_o[1] < y_best {
-- 
2.43.0


From 8580ee23096300f6c6aaaae37858760abc6c9b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 07/59] revert the folding part of d6d28ad: existing python
 tests pin the folded values

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 67c26f2..9b6b832 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -86,7 +86,7 @@ pub(crate) fn fold_with_enum_index<F: Float>(
             unfold_index += 1;
         }
         XType::Enum(v) => {
-            let xenum = x.slice(s![.., unfold_index..unfold_index + v]);
+            let xenum = x.slice(s![.., j..j + v]);
             let argmaxx = xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap()));
             col.assign(&argmaxx);
             unfold_index += v;
-- 
2.43.0


From 21baa6ef85ebd4414ca105fcbf1d3917c087270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 08/59] fix: single theta value and component order in fixed
 and partial tunings

---
 crates/gp/src/algorithm.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c98527f..42868d0 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -866,9 +866,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let fx = self.mean().value(&xtrain.data);
 
         let opt_params = match self.theta_tuning() {
-            ThetaTuning::Fixed(init) => {
+            ThetaTuning::Fixed(_) => {
                 // Easy path no optimization
-                init.to_owned()
+                theta0.to_owned()
             }
             ThetaTuning::Full { init: _, bounds }
             | ThetaTuning::Partial {
@@ -912,12 +912,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 };
 
                 // Select init params and bounds wrt to activity
-                let active_bounds = bounds
-                    .iter()
-                    .enumerate()
-                    .filter(|(i, _)| active.contains(i))
-                    .map(|(_, &b)| b)
-                    .collect::<Vec<_>>();
+                let active_bounds = active.iter().map(|&i| bounds[i]).collect::<Vec<_>>();
                 let (theta_inits, bounds) = prepare_multistart(
                     self.n_start(),
                     &theta0.select(Axis(0), &active),
@@ -952,11 +947,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let opt_params = match self.theta_tuning() {
             ThetaTuning::Fixed(_) | ThetaTuning::Full { init: _, bounds: _ } => opt_params,
             ThetaTuning::Partial {
-                init,
+                init: _,
                 bounds: _,
                 active,
             } => {
-                let mut opt_theta = init.to_owned();
+                let mut opt_theta = theta0.to_owned();
                 std::iter::zip(active.clone(), opt_params)
                     .for_each(|(i, xi)| opt_theta[i] = F::cast(xi));
                 opt_theta
-- 
2.43.0


From f99030b5cd82025e8faec9e1839f61d0d6521351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 09/59] fix: f32 values are converted, not reinterpreted as f64

---
 crates/gp/src/algorithm.rs        |  4 ++--
 crates/gp/src/optimization.rs     |  6 +++---
 crates/gp/src/sparse_algorithm.rs | 12 ++++++------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 42868d0..5f0c0cc 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1,6 +1,6 @@
 use crate::errors::{GpError, Result};
 use crate::mean_models::*;
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::parameters::{GpParams, GpValidParams};
 use crate::utils::{DiffMatrix, NormalizedData, pairwise_differences};
 use crate::{ThetaTuning, correlation_models::*};
@@ -891,7 +891,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                     }
                     let rxx = self.corr().value(&x_distances.d, &theta, &w_star);
                     match reduced_likelihood(&fx, rxx, &x_distances, &ytrain, self.nugget()) {
-                        Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                        Ok(r) => -into_f64(&r.0),
                         Err(_) => f64::INFINITY,
                     }
                 };
diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c076756..aa97a77 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -88,7 +88,7 @@ where
     // block to drop optimizer and allow self.corr borrowing after
     let mut optimizer = Nlopt::new(Algorithm::Cobyla, param0.len(), objfn, Target::Minimize, ());
     let mut param = param0
-        .map(|v| unsafe { *(v as *const F as *const f64) })
+        .map(|v| into_f64(v))
         .into_raw_vec();
 
     let lower_bounds = bounds.iter().map(|b| into_f64(&b.0)).collect::<Vec<_>>();
@@ -169,6 +169,6 @@ where
 }
 
 #[inline(always)]
-fn into_f64<F: Float>(v: &F) -> f64 {
-    unsafe { *(v as *const F as *const f64) }
+pub(crate) fn into_f64<F: Float>(v: &F) -> f64 {
+    num_traits::ToPrimitive::to_f64(v).unwrap_or(f64::NAN)
 }
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 02010d3..50a55a9 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -1,6 +1,6 @@
 use crate::ThetaTuning;
 use crate::errors::{GpError, Result};
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::sparse_parameters::{Inducings, ParamTuning, SgpParams, SgpValidParams, SparseMethod};
 use crate::{GpSamplingMethod, correlation_models::*, sample, utils::pairwise_differences};
 use finitediff::ndarr;
@@ -302,12 +302,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let g_central = ndarr::central_diff(&f);
                 let grad = g_central(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
@@ -322,12 +322,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict_var(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let grad = ndarr::central_diff(&f)(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
             });
@@ -550,7 +550,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 &z,
                 self.nugget(),
             ) {
-                Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                Ok(r) => -into_f64(&r.0),
                 Err(_) => f64::INFINITY,
             }
         };
-- 
2.43.0


From 8357d76643a81b494d536af1948111b864cb1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 10/59] fix: GP tuning with one extra starting point is
 reproducible

---
 crates/gp/src/optimization.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index aa97a77..7818a82 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -40,9 +40,8 @@ pub(crate) fn prepare_multistart<F: Float>(
 
     match n_start.cmp(&1) {
         std::cmp::Ordering::Equal => {
-            //let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let mut rng = Xoshiro256Plus::from_entropy();
-            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
+            let mut rng = Xoshiro256Plus::seed_from_u64(42);
+            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..=*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
         std::cmp::Ordering::Greater => {
@@ -87,9 +86,7 @@ where
     let base: f64 = 10.;
     // block to drop optimizer and allow self.corr borrowing after
     let mut optimizer = Nlopt::new(Algorithm::Cobyla, param0.len(), objfn, Target::Minimize, ());
-    let mut param = param0
-        .map(|v| into_f64(v))
-        .into_raw_vec();
+    let mut param = param0.map(|v| into_f64(v)).into_raw_vec();
 
     let lower_bounds = bounds.iter().map(|b| into_f64(&b.0)).collect::<Vec<_>>();
     optimizer.set_lower_bounds(&lower_bounds).unwrap();
-- 
2.43.0


From 459492772a4d816c8703da16a0b968172bf636a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 11/59] fix: sparse GP takes per-component theta bounds and
 fixed values

---
 crates/gp/src/sparse_algorithm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 50a55a9..7b717cb 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -559,17 +559,19 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         // let mut bounds = vec![(F::cast(1e-16).log10(), F::cast(1.).log10()); params.ncols()];
         // Initial guess for theta
         let bounds_dim = bounds.len();
-        let bounds = if bounds_dim == 1 {
-            vec![bounds[0]; params_0.len()]
-        } else if theta0_dim == params_0.len() {
+        let mut bounds = if bounds_dim == 1 {
+            vec![bounds[0]; w_star.ncols()]
+        } else if bounds_dim == w_star.ncols() {
             bounds.to_vec()
         } else {
             panic!(
                 "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                 w_star.ncols(),
-                theta0_dim
+                bounds_dim
             )
         };
+        // Room for variance and noise variance bounds which are set below
+        bounds.resize(params_0.len(), bounds[0]);
 
         let (theta_inits, mut bounds) = prepare_multistart(self.n_start(), &params_0, &bounds);
 
@@ -610,9 +612,12 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         debug!("elapsed optim = {:?}", now.elapsed().as_millis());
         let opt_params = opt_params.1.mapv(|v| F::cast(base.powf(v)));
 
-        let opt_theta = opt_params
-            .slice(s![..n - 1 - is_noise_estimated as usize])
-            .to_owned();
+        let opt_theta = match self.theta_tuning() {
+            ThetaTuning::Fixed(_) => theta0,
+            _ => opt_params
+                .slice(s![..n - 1 - is_noise_estimated as usize])
+                .to_owned(),
+        };
         let opt_sigma2 = opt_params[n - 1 - is_noise_estimated as usize];
         let opt_noise = if is_noise_estimated {
             opt_params[n - 1]
-- 
2.43.0


From 08866289e88c4c2d77604691987244022e342075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 12/59] fix: VFE predictive variance

---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 7b717cb..b899a5e 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -825,7 +825,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         let likelihood = -F::cast(0.5) * (term1 + term2 + term3 + term4 + term5 + term6);
 
         let li_ui = li.dot(&ui);
-        let bi = Array::eye(nz) + li.t().dot(&li);
+        let bi = Array::eye(nz) - li.t().dot(&li);
         let w_data = WoodburyData {
             vec: li_ui.t().dot(&b),
             inv: ui.t().dot(&bi).dot(&ui),
-- 
2.43.0


From cbf1061e361a3b9ad350bc48285bce24ed54f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 13/59] fix: output dimension of sparse GP

---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index b899a5e..e1e387b 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -292,7 +292,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
 
     /// Retrieve input and output dimensions
     pub fn dims(&self) -> (usize, usize) {
-        (self.training_data.0.ncols(), self.training_data.1.len())
+        (self.training_data.0.ncols(), 1)
     }
 
     /// Predict gradients of the mean function at n given `x` points of nx components specified as a (n, nx) matrix.
-- 
2.43.0


From 0dd4d3270cdc95952e1491fa450d024b8d272bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 14/59] fix: sparse GP trajectories are drawn from the
 posterior

---
 crates/gp/src/sparse_algorithm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index e1e387b..b6b0a86 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -356,7 +356,10 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         method: GpSamplingMethod,
     ) -> Array2<F> {
         let mean = self.predict(x).unwrap().insert_axis(Axis(1));
-        let cov = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2);
+        // Posterior covariance (noise free)
+        let kx = self.compute_k(&self.inducings, x, &self.w_star, &self.theta, self.sigma2);
+        let cov = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2)
+            - kx.t().dot(&self.w_data.inv).dot(&kx);
         sample(x, mean, cov, n_traj, method)
     }
 }
-- 
2.43.0


From 63e3d1d7db1c01c18166db2c79232b7847051300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 15/59] fix: component-wise derivatives hold for every kernel

---
 crates/gp/src/algorithm.rs | 59 +-------------------------------------
 1 file changed, 1 insertion(+), 58 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 5f0c0cc..c1ea5e8 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -445,64 +445,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         x: &ArrayBase<impl Data<Elem = F>, Ix2>,
         kx: usize,
     ) -> Array1<F> {
-        let xnorm = (x - &self.xt_norm.mean) / &self.xt_norm.std;
-        let corr = self._compute_correlation(&xnorm);
-
-        let beta = &self.inner_params.beta;
-        let gamma = &self.inner_params.gamma;
-
-        let df_dx_kx = if self.inner_params.beta.nrows() <= 1 + self.xt_norm.data.ncols() {
-            // for constant or linear: df/dx = cst ([0] or [1]) for all x, so takes use x[0] to get the constant
-            let df = self.params.mean.jacobian(&x.row(0));
-            let df_dx = df.t().row(kx).dot(beta);
-            df_dx.broadcast((x.nrows(), 1)).unwrap().to_owned()
-        } else {
-            // for quadratic df/dx really depends on x
-            let mut dfdx = Array2::zeros((x.nrows(), 1));
-            Zip::from(dfdx.rows_mut())
-                .and(xnorm.rows())
-                .for_each(|mut dfxi, xi| {
-                    let df = self.params.mean.jacobian(&xi);
-                    let df_dx = (df.t().row(kx)).dot(beta);
-                    dfxi.assign(&df_dx);
-                });
-            dfdx
-        };
-
-        let nr = x.nrows();
-        let nc = self.xt_norm.data.nrows();
-        let d_dx_1 = &xnorm
-            .column(kx)
-            .to_owned()
-            .into_shape_with_order((nr, 1))
-            .unwrap()
-            .broadcast((nr, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx_2 = self
-            .xt_norm
-            .data
-            .column(kx)
-            .to_owned()
-            .as_standard_layout()
-            .into_shape_with_order((1, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx = d_dx_1 - d_dx_2;
-
-        // Get pairwise componentwise L1-distances to the input training set
-        let theta = &self.theta.to_owned();
-        let d_dx_corr = d_dx * corr;
-
-        // (df(xnew)/dx).beta + (dr(xnew)/dx).R^-1(ytrain - f.beta)
-        // gamma = R^-1(ytrain - f.beta)
-        // Warning: squared exponential only
-        let res = (df_dx_kx - d_dx_corr.dot(gamma).map(|v| F::cast(2.) * theta[kx] * *v))
-            * self.yt_norm.std[0]
-            / self.xt_norm.std[kx];
-        res.column(0).to_owned()
+        self.predict_gradients(x).column(kx).to_owned()
     }
 
     /// Predict derivatives at a set of point `x` specified as a (n, nx) matrix where x has nx components.
-- 
2.43.0


From 59dd53de4102ea07a951aa0b1ab4938e924c4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 16/59] fix: eigenvalue cutoff of trajectory sampling is
 relative to the covariance

---
 crates/gp/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c1ea5e8..3ec366c 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1110,9 +1110,10 @@ pub(crate) fn sample<F: Float>(
             #[cfg(not(feature = "blas"))]
             let (v, w) = cov_x.with_lapack().eigh_into().unwrap();
             let v = v.mapv(F::cast);
+            // Null or negative eigenvalues up to rounding errors are zeroed
+            let tol = F::cast(100.) * F::epsilon() * v.fold(F::zero(), |m, x| m.max(*x));
             let v = v.mapv(|x| {
-                // We lower bound the float value at 1e-9
-                if x < F::cast(1e-9) {
+                if x <= tol {
                     return F::zero();
                 }
                 x.sqrt()
-- 
2.43.0


From 73511d4f0fea411b4632f3cfc6e5bf8af2898ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:51 +0000
Subject: [PATCH 17/59] fix: cross-validation uses each sample exactly once for
 any number of folds

---
 crates/gp/src/metrics.rs  | 28 ++++++++++++++++++++++++++--
 crates/moe/src/metrics.rs |  8 ++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/gp/src/metrics.rs b/crates/gp/src/metrics.rs
index e14bbb3..ec844de 100644
--- a/crates/gp/src/metrics.rs
+++ b/crates/gp/src/metrics.rs
@@ -9,13 +9,37 @@ use linfa::{
     Float, ParamGuard,
     traits::{Fit, Predict, PredictInplace},
 };
-use ndarray::{Array1, Array2};
+use ndarray::{Array1, Array2, Axis, Ix1};
 
 use crate::{
     GaussianProcess, GpError, GpParams, SgpParams, SparseGaussianProcess, correlation_models,
     mean_models,
 };
 
+/// Split the dataset in `kfold` (train, valid) pairs, such that each sample belongs to exactly one
+/// validation set (fold sizes differ by at most one when the number of samples is not a multiple of `kfold`)
+pub fn kfold_split<F: Float>(
+    dataset: &Dataset<F, F, Ix1>,
+    kfold: usize,
+) -> Vec<(Dataset<F, F, Ix1>, Dataset<F, F, Ix1>)> {
+    let n = dataset.records().nrows();
+    let select = |indices: &[usize]| {
+        Dataset::new(
+            dataset.records().select(Axis(0), indices),
+            dataset.targets().select(Axis(0), indices),
+        )
+    };
+    let kfold = kfold.min(n);
+    (0..kfold)
+        .map(|i| {
+            let (start, end) = (i * n / kfold, (i + 1) * n / kfold);
+            let train = (0..start).chain(end..n).collect::<Vec<_>>();
+            let valid = (start..end).collect::<Vec<_>>();
+            (select(&train), select(&valid))
+        })
+        .collect()
+}
+
 /// A trait for Q2 predictive coefficient cross validation score
 pub trait PredictScore<F, ER, P, O>
 where
@@ -39,7 +63,7 @@ where
         let mut press = F::zero();
         // Total Sum of Squares
         let mut tss = F::zero();
-        for (train, valid) in dataset.fold(kfold).into_iter() {
+        for (train, valid) in kfold_split(&dataset, kfold) {
             let params = self.params();
             let model: O = params
                 .fit(&train)
diff --git a/crates/moe/src/metrics.rs b/crates/moe/src/metrics.rs
index b36398b..5470452 100644
--- a/crates/moe/src/metrics.rs
+++ b/crates/moe/src/metrics.rs
@@ -1,3 +1,4 @@
+use egobox_gp::metrics::kfold_split;
 use linfa::dataset::Dataset;
 use linfa::prelude::Records;
 use linfa::{ParamGuard, traits::Fit};
@@ -37,7 +38,7 @@ where
         let mut press = 0.;
         // Total Sum of Squares
         let mut tss = 0.;
-        for (train, valid) in dataset.fold(kfold).into_iter() {
+        for (train, valid) in kfold_split(&dataset, kfold) {
             let params = self.params();
             let model: O = params
                 .fit(&train)
@@ -62,7 +63,7 @@ where
         let mut varss = 0.;
         // Number of fold
         let mut n = 0usize;
-        for (train, valid) in dataset.fold(kfold).into_iter() {
+        for (train, valid) in kfold_split(&dataset, kfold) {
             let params = self.params();
             let model: O = params
                 .fit(&train)
@@ -87,8 +88,7 @@ where
         let n_alpha = 20;
         let alphas = Array1::linspace(0.02, 0.98, n_alpha);
 
-        let iaes = dataset
-            .fold(kfold)
+        let iaes = kfold_split(&dataset, kfold)
             .into_iter()
             .map(|(train, valid)| {
                 let params = self.params();
-- 
2.43.0


From 9870a59fcc7ad53573a812937337ffabbda5ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 18/59] fix: hyperparameters with a fixed value do not make the
 tuning of the others fail

---
 crates/gp/src/optimization.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index 7818a82..6ceba20 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -129,15 +129,31 @@ where
     use cobyla::{Func, StopTols, minimize};
 
     let cons: Vec<&dyn Func<()>> = vec![];
-    let param0 = param0.map(|v| into_f64(v)).into_raw_vec_and_offset().0;
+    let mut params = param0.map(|v| into_f64(v)).into_raw_vec_and_offset().0;
 
     let bounds: Vec<_> = bounds
         .iter()
         .map(|(lo, up)| (into_f64(lo), into_f64(up)))
         .collect();
 
+    // Cobyla fails when an interval is reduced to a single value:
+    // the corresponding components are set and kept out of the optimization
+    let (free, fixed): (Vec<usize>, Vec<usize>) =
+        (0..params.len()).partition(|&i| bounds[i].0 < bounds[i].1);
+    fixed.iter().for_each(|&i| params[i] = bounds[i].0);
+    let expand = |x: &[f64]| {
+        let mut full = params.to_owned();
+        free.iter().zip(x).for_each(|(&i, v)| full[i] = *v);
+        full
+    };
+    let param0: Vec<f64> = free.iter().map(|&i| params[i]).collect();
+    let bounds: Vec<_> = free.iter().map(|&i| bounds[i]).collect();
+    if free.is_empty() {
+        return (objfn(&params, None, &mut ()), arr1(&params));
+    }
+
     match minimize(
-        |x, u| objfn(x, None, u),
+        |x, u| objfn(&expand(x), None, u),
         &param0,
         &bounds,
         &cons,
@@ -150,7 +166,7 @@ where
         }),
     ) {
         Ok((_, x_opt, fval)) => {
-            let params_opt = arr1(&x_opt);
+            let params_opt = arr1(&expand(&x_opt));
             let fval = if f64::is_nan(fval) {
                 f64::INFINITY
             } else {
@@ -160,7 +176,7 @@ where
         }
         Err((status, x_opt, _)) => {
             log::warn!("ERROR Cobyla optimizer in GP status={status:?}");
-            (f64::INFINITY, arr1(&x_opt))
+            (f64::INFINITY, arr1(&expand(&x_opt)))
         }
     }
 }
-- 
2.43.0


From 4a694b6e286ace48f0270046fa870966ff462c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:26 +0000
Subject: [PATCH 19/59] fix: failed hyperparameter optimization falls back to
 the requested starting point

---
 crates/gp/src/algorithm.rs        | 2 +-
 crates/gp/src/sparse_algorithm.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 3ec366c..3e0e34e 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -878,7 +878,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                         )
                     })
                     .reduce(
-                        || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                        || (f64::INFINITY, theta_inits.row(0).mapv(|v| into_f64(&v))),
                         |a, b| if b.0 < a.0 { b } else { a },
                     );
                 debug!("elapsed optim = {:?}", now.elapsed().as_millis());
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index b6b0a86..922ae37 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -609,7 +609,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 )
             })
             .reduce(
-                || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                || (f64::INFINITY, theta_inits.row(0).mapv(|v| into_f64(&v))),
                 |a, b| if b.0 < a.0 { b } else { a },
             );
         debug!("elapsed optim = {:?}", now.elapsed().as_millis());
-- 
2.43.0


From bd53428d95c9634784ae1507be847289261fa6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 20/59] fix: constant columns are not scaled by a rounding
 error

---
 crates/gp/src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/utils.rs b/crates/gp/src/utils.rs
index 734a8f7..7fb1cc5 100644
--- a/crates/gp/src/utils.rs
+++ b/crates/gp/src/utils.rs
@@ -1,5 +1,5 @@
 use linfa::Float;
-use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, s};
+use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, s};
 #[cfg(feature = "serializable")]
 use serde::{Deserialize, Serialize};
 
@@ -47,7 +47,12 @@ pub fn normalize<F: Float>(
 ) -> (Array2<F>, Array1<F>, Array1<F>) {
     let x_mean = x.mean_axis(Axis(0)).unwrap();
     let mut x_std = x.std_axis(Axis(0), F::one());
-    x_std.mapv_inplace(|v| if v == F::zero() { F::one() } else { v });
+    // Constant columns are not scaled (their computed deviation may be a non null rounding error)
+    Zip::from(&mut x_std).and(x.columns()).for_each(|std, col| {
+        if *std == F::zero() || col.iter().all(|v| *v == col[0]) {
+            *std = F::one();
+        }
+    });
     let xnorm = (x - &x_mean) / &x_std;
 
     (xnorm, x_mean, x_std)
-- 
2.43.0


From d775c97382fac14c249e81247c71e680d89c57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 21/59] fix: cluster probabilities and their derivatives do not
 underflow far from the clusters

---
 crates/moe/src/gaussian_mixture.rs | 43 ++++++++++--------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/crates/moe/src/gaussian_mixture.rs b/crates/moe/src/gaussian_mixture.rs
index 7468eef..422657c 100644
--- a/crates/moe/src/gaussian_mixture.rs
+++ b/crates/moe/src/gaussian_mixture.rs
@@ -128,7 +128,6 @@ impl<F: Float> GaussianMixture<F> {
         &self,
         x: &ArrayBase<D, Ix1>,
     ) -> Array2<F> {
-        let v = self.weights.to_owned().dot(&self.pdfs(x));
         let precs = &self.precisions / self.heaviside_factor;
         let mut deriv = Array2::zeros((self.means.nrows(), self.means.ncols()));
         Zip::from(deriv.rows_mut())
@@ -137,18 +136,13 @@ impl<F: Float> GaussianMixture<F> {
             .for_each(|mut der, mu, prec| {
                 der.assign(&(&x.to_owned() - &mu).dot(&prec));
             });
-        let vprime =
-            deriv.to_owned() * &(-self.weights.to_owned() * self.pdfs(x)).insert_axis(Axis(1));
-        let vprime = vprime.sum_axis(Axis(0));
-
-        let u = (self.weights.to_owned() * self.pdfs(x))
-            .to_owned()
+        // Responsibilities instead of densities as the latter underflow far from the means
+        let u = self
+            .predict_probas(&x.to_owned().insert_axis(Axis(0)))
+            .remove_axis(Axis(0))
             .insert_axis(Axis(1));
-        let uprime = -(deriv.to_owned() * &u.to_owned());
-        let v2 = v * v;
-        (uprime.mapv(|up| up * v)
-            - u.to_owned() * vprime.broadcast((u.nrows(), vprime.len())).unwrap())
-        .mapv(|w| w / v2)
+        let vprime = (&deriv * &u).sum_axis(Axis(0));
+        u * (vprime - deriv)
     }
 
     /// Compute the derivatives of the probability of a set of x points given as a (m, nx) vector
@@ -232,23 +226,14 @@ impl<F: Float> GaussianMixture<F> {
         x: &ArrayBase<D, Ix2>,
     ) -> (Array1<F>, Array2<F>) {
         let weighted_log_prob = self.compute_log_gaussian_prob(x) + self.weights().mapv(|v| v.ln());
-        let log_prob_norm = weighted_log_prob
-            .mapv(|v| {
-                if v <= F::cast(f64::MIN_10_EXP) {
-                    F::zero()
-                } else {
-                    v.exp()
-                }
-            })
-            .sum_axis(Axis(1))
-            .mapv(|v| {
-                if v.abs() < F::epsilon() {
-                    F::zero()
-                } else {
-                    v.ln()
-                }
-            });
-        let log_resp = weighted_log_prob - log_prob_norm.to_owned().insert_axis(Axis(1));
+        // log-sum-exp, as densities underflow far from the means
+        let max = weighted_log_prob.map_axis(Axis(1), |row| {
+            row.fold(F::neg_infinity(), |a, &v| if v > a { v } else { a })
+        });
+        let log_prob = weighted_log_prob - max.to_owned().insert_axis(Axis(1));
+        let log_norm = log_prob.map_axis(Axis(1), |row| row.mapv(|v| v.exp()).sum().ln());
+        let log_resp = log_prob - log_norm.to_owned().insert_axis(Axis(1));
+        let log_prob_norm = max + log_norm;
         (log_prob_norm, log_resp)
     }
 
-- 
2.43.0


From 4204bcdca23c2e87c8e63712e7d20e594bc52c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 22/59] fix: gradient of smooth mixture variance weights each
 expert by its own probability

---
 crates/moe/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..cb1da45 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -773,7 +773,7 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let term2 = (preds * p.to_owned().insert_axis(Axis(1)) * pprime).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -865,7 +865,8 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let var_term2 =
+                    (vars * p.to_owned().insert_axis(Axis(1)) * pprime).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From f2fbf1099f67b9a915efa197b07ac2f8255f45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 23/59] fix: minimum number of points per cluster is compared
 to a number of points

---
 crates/moe/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index cb1da45..db0db55 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -392,11 +392,11 @@ fn check_number_of_points<F>(
             1
         };
         for cluster in clusters {
-            if cluster.len() < min_number_point {
+            if cluster.nrows() < min_number_point {
                 return Err(MoeError::ClusteringError(format!(
                     "Not enough points in training set. Need {} points, got {}",
                     min_number_point,
-                    cluster.len()
+                    cluster.nrows()
                 )));
             }
         }
-- 
2.43.0


From da87ee79857df0159b78f632ca444ab5d4f4d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 24/59] fix: inconsistent numbers of clusters and theta tunings
 are reported as an error

---
 crates/moe/src/parameters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/parameters.rs b/crates/moe/src/parameters.rs
index 996da22..73ddaa3 100644
--- a/crates/moe/src/parameters.rs
+++ b/crates/moe/src/parameters.rs
@@ -352,11 +352,11 @@ impl<F: Float> ParamGuard for GpMixtureParams<F> {
         } else if let NbClusters::Fixed { nb } = self.0.n_clusters
             && nb != self.0.theta_tunings.len()
         {
-            panic!(
+            return Err(MoeError::InvalidValueError(format!(
                 "Number of clusters (={}) and theta init size (={}) not compatible, should be equal",
                 nb,
                 self.0.theta_tunings.len()
-            );
+            )));
         }
         Ok(&self.0)
     }
-- 
2.43.0


From 6a02f6512c6d12b5852119b6c15c8b26c7d73e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 25/59] fix: sparse experts use the tuning of their cluster and
 the likelihood evaluation limit

---
 crates/moe/src/algorithm.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index db0db55..8516ff2 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -2,7 +2,7 @@ use super::gaussian_mixture::GaussianMixture;
 use crate::clustering::{find_best_number_of_clusters, sort_by_cluster};
 use crate::errors::MoeError;
 use crate::errors::Result;
-use crate::parameters::{GpMixtureParams, GpMixtureValidParams};
+use crate::parameters::{GpMixtureParams, GpMixtureValidParams, ThetaTuning};
 use crate::{GpMetrics, IaeAlphaPlotData, types::*};
 use crate::{GpType, expertise_macros::*};
 use crate::{NbClusters, surrogates::*};
@@ -294,12 +294,8 @@ impl GpMixtureValidParams<f64> {
                 expert_params.n_start(self.n_start());
                 expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-                if nc > 0 && self.theta_tunings().len() == 1 {
-                    expert_params.theta_tuning(self.theta_tunings()[0].clone());
-                } else {
-                    debug!("Training with theta_tuning = {:?}.", self.theta_tunings());
-                    expert_params.theta_tuning(self.theta_tunings()[nc].clone());
-                }
+                debug!("Training with theta_tuning = {:?}.", self.theta_tunings());
+                expert_params.theta_tuning(self.expert_theta_tuning(nc)?);
                 debug!("Train best expert...");
                 expert_params.train(&xtrain.view(), &ytrain.view())
             }
@@ -332,8 +328,9 @@ impl GpMixtureValidParams<f64> {
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
                 expert_params.n_start(self.n_start());
+                expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-                expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                expert_params.theta_tuning(self.expert_theta_tuning(nc)?);
                 debug!("Train best expert...");
                 expert_params.train(&xtrain.view(), &ytrain.view())
             }
@@ -346,6 +343,20 @@ impl GpMixtureValidParams<f64> {
         expert
     }
 
+    /// Theta tuning of the expert of the given cluster:
+    /// either the one given for the cluster or the unique one given for all the clusters
+    fn expert_theta_tuning(&self, nc: usize) -> Result<ThetaTuning<f64>> {
+        match self.theta_tunings().as_slice() {
+            [tuning] => Ok(tuning.clone()),
+            tunings => tunings.get(nc).cloned().ok_or_else(|| {
+                MoeError::InvalidValueError(format!(
+                    "Missing theta tuning for cluster {nc}, got {} theta tunings",
+                    tunings.len()
+                ))
+            }),
+        }
+    }
+
     /// Take the best heaviside factor from 0.1 to 2.1 (step 0.1).
     /// Mixture (`gmx` and experts`) is already trained only the continuous recombination is changed
     /// and the factor giving the smallest prediction error on the given test data  
-- 
2.43.0


From b094fd02abd76bdf7ebbbc140ca1719d65b70fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 26/59] fix: failing to create or to read a saved model is
 reported as an error

---
 crates/ego/src/gpmix/mixint.rs | 4 ++--
 crates/moe/src/algorithm.rs    | 2 +-
 crates/moe/src/surrogates.rs   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 9b6b832..1e9a32a 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -620,7 +620,7 @@ impl GpSurrogate for MixintGpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> egobox_moe::Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
@@ -639,7 +639,7 @@ impl MixintGpMixture {
     pub fn load(path: &str, format: GpFileFormat) -> Result<Box<MixintGpMixture>> {
         let data = fs::read(path)?;
         let moe = match format {
-            GpFileFormat::Json => serde_json::from_slice(&data).unwrap(),
+            GpFileFormat::Json => serde_json::from_slice(&data)?,
             GpFileFormat::Binary => {
                 bincode::serde::decode_from_slice(&data, bincode::config::standard())
                     .map(|(surrogate, _)| surrogate)?
diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 8516ff2..b9659c3 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -520,7 +520,7 @@ impl GpSurrogate for GpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
 
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index 7b963a3..d526a0d 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -179,7 +179,7 @@ macro_rules! declare_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -347,7 +347,7 @@ macro_rules! declare_sgp_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
-- 
2.43.0


From 084dd428880f60069d8de8eec0c5ee042a06997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 27/59] fix: a saved sparse surrogate can be loaded back

---
 crates/moe/src/surrogates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index d526a0d..73488db 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -349,10 +349,10 @@ macro_rules! declare_sgp_surrogate {
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
                     let mut file = fs::File::create(path)?;
                     let bytes = match format {
-                        GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
+                        GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
                         GpFileFormat::Binary => {
-                            bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
+                            bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
                     file.write_all(&bytes)?;
-- 
2.43.0


From 3bd0a643daf30af78b6744e7e6ffe57738e63bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 28/59] fix: changing the recombination of a mixture applies
 the given heaviside factor

---
 crates/moe/src/algorithm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index b9659c3..ae5bc37 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -646,6 +646,9 @@ impl GpMixture {
             Recombination::Smooth(Some(_)) => recombination,
             Recombination::Smooth(_) => Recombination::Smooth(Some(1.)),
         };
+        if let Recombination::Smooth(Some(factor)) = self.recombination {
+            self.gmx = self.gmx.heaviside_factor(factor);
+        }
         self
     }
 
-- 
2.43.0


From 2f55a62e57c26f0e2d5badbde29db55a5b3fe1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 29/59] fix: training with no model allowed is reported as an
 error

---
 crates/moe/src/algorithm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index ae5bc37..5baa6ab 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -237,6 +237,12 @@ impl GpMixtureValidParams<f64> {
         check_allowed!(correlation_spec, Correlation, Matern32, allowed_corrs);
         check_allowed!(correlation_spec, Correlation, Matern52, allowed_corrs);
 
+        if allowed_means.is_empty() || allowed_corrs.is_empty() {
+            return Err(MoeError::ExpertError(
+                "No regression or correlation model allowed".to_string(),
+            ));
+        }
+
         debug!("Find best expert");
         let best = if allowed_means.len() == 1 && allowed_corrs.len() == 1 {
             (format!("{}_{}", allowed_means[0], allowed_corrs[0]), None) // shortcut
-- 
2.43.0


From 6e822dcf0f1a717749a8ff1fc0ac4bdf1b193c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 30/59] fix: a model which cannot be trained during expert
 selection is not selected

---
 crates/moe/src/expertise_macros.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/moe/src/expertise_macros.rs b/crates/moe/src/expertise_macros.rs
index 2875d81..4d241d9 100644
--- a/crates/moe/src/expertise_macros.rs
+++ b/crates/moe/src/expertise_macros.rs
@@ -24,7 +24,9 @@ macro_rules! compute_error {
         let input_dim = $dataset.records().shape()[1];
         let n_fold = std::cmp::min($dataset.nsamples(), 5);
         trace!("Cross validation N fold = {n_fold}");
-        if (n_fold < 4 * input_dim && stringify!($regr) == "Quadratic") {
+        if n_fold < 2 {
+            f64::INFINITY // not enough points => huge error
+        } else if (n_fold < 4 * input_dim && stringify!($regr) == "Quadratic") {
             f64::INFINITY // not enough points => huge error
         } else if (n_fold < 3 * input_dim && stringify!($regr) == "Linear") {
             f64::INFINITY // not enough points => huge error
@@ -33,13 +35,14 @@ macro_rules! compute_error {
                 let gp = params
                     .clone()
                     .kpls_dim($self.kpls_dim())
-                    .fit(&train)
-                    .unwrap();
+                    .fit(&train);
                 trace!("GP trained");
                 gp
             }) {
-                let pred = gp.predict(valid.records()).unwrap();
-                let error = (valid.targets() - pred).norm_l2();
+                // a model which can not be trained is not selected => huge error
+                let error = gp
+                    .and_then(|gp| gp.predict(valid.records()))
+                    .map_or(f64::INFINITY, |pred| (valid.targets() - pred).norm_l2());
                 trace!("Prediction error = {error}");
                 errors.push(error);
             }
-- 
2.43.0


From 88191d641c1b5a4d38dc80ca9698f8f075e3a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 31/59] fix: training a Gaussian process with less than two
 points is reported as an error

---
 crates/gp/src/algorithm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 3e0e34e..8a1137a 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -749,6 +749,13 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
             )));
         }
 
+        if x.nrows() < 2 {
+            return Err(GpError::InvalidValueError(format!(
+                "Training requires at least 2 points, got {}",
+                x.nrows()
+            )));
+        }
+
         let dim = if let Some(n_components) = self.kpls_dim() {
             *n_components
         } else {
-- 
2.43.0


From f1ea145e1cacdf30b9c4478ddc0fbf6d81143dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 32/59] fix: theta tunings of the wrong length are reported as
 an error

---
 crates/gp/src/algorithm.rs         | 8 ++++----
 crates/gp/src/sparse_algorithm.rs  | 8 ++++----
 crates/moe/src/expertise_macros.rs | 5 +----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 8a1137a..671e396 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -782,9 +782,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         } else if theta0_dim == dim {
             init.to_owned()
         } else {
-            panic!(
+            return Err(GpError::InvalidValueError(format!(
                 "Initial guess for theta should be either 1-dim or dim of xtrain (w_star.ncols()), got {theta0_dim}"
-            )
+            )));
         };
 
         let xtrain = NormalizedData::new(&x);
@@ -854,11 +854,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 } else if bounds_dim == w_star.ncols() {
                     bounds.to_vec()
                 } else {
-                    panic!(
+                    return Err(GpError::InvalidValueError(format!(
                         "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                         w_star.ncols(),
                         bounds_dim
-                    )
+                    )));
                 };
 
                 // Select init params and bounds wrt to activity
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 922ae37..6019191 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -494,9 +494,9 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         } else if theta0_dim == w_star.ncols() {
             Array::from_vec(self.theta_tuning().init().to_vec())
         } else {
-            panic!(
+            return Err(GpError::InvalidValueError(format!(
                 "Initial guess for theta should be either 1-dim or dim of xtrain (w_star.ncols()), got {theta0_dim}"
-            )
+            )));
         };
 
         // Initial guess for variance
@@ -567,11 +567,11 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         } else if bounds_dim == w_star.ncols() {
             bounds.to_vec()
         } else {
-            panic!(
+            return Err(GpError::InvalidValueError(format!(
                 "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                 w_star.ncols(),
                 bounds_dim
-            )
+            )));
         };
         // Room for variance and noise variance bounds which are set below
         bounds.resize(params_0.len(), bounds[0]);
diff --git a/crates/moe/src/expertise_macros.rs b/crates/moe/src/expertise_macros.rs
index 4d241d9..3764c3e 100644
--- a/crates/moe/src/expertise_macros.rs
+++ b/crates/moe/src/expertise_macros.rs
@@ -32,10 +32,7 @@ macro_rules! compute_error {
             f64::INFINITY // not enough points => huge error
         } else {
             for (gp, valid) in $dataset.iter_fold(n_fold, |train| {
-                let gp = params
-                    .clone()
-                    .kpls_dim($self.kpls_dim())
-                    .fit(&train);
+                let gp = params.clone().kpls_dim($self.kpls_dim()).fit(&train);
                 trace!("GP trained");
                 gp
             }) {
-- 
2.43.0


From 0f641ca20290524c39a8b35ef779d4a5e5282846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 33/59] fix: asking for more clusters than points is reported
 as an error

---
 crates/moe/src/algorithm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 5baa6ab..c3e8436 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -111,6 +111,13 @@ impl GpMixtureValidParams<f64> {
         } else {
             data.to_owned()
         };
+        if self.gmx().is_none() && training.nrows() < n_clusters {
+            return Err(MoeError::ClusteringError(format!(
+                "Not enough points to make {} clusters, got {}",
+                n_clusters,
+                training.nrows()
+            )));
+        }
         let dataset = Dataset::from(training);
 
         let gmx = if self.gmx().is_some() {
-- 
2.43.0


From 2f18eb304250ace3cba648e6ef540bac7eaffa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 34/59] fix: automatic selection of the number of clusters
 fails neither on few points nor when a clustering fails

---
 crates/moe/src/clustering.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index c334c8c..37078a8 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -17,8 +17,12 @@ fn mean(list: &[f64]) -> f64 {
 }
 
 fn median(v: &[f64]) -> f64 {
+    if v.is_empty() {
+        // no error could be computed
+        return f64::INFINITY;
+    }
     let mut list = v.to_vec();
-    list.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
+    list.sort_unstable_by(|a, b| a.total_cmp(b));
     let len = list.len();
     let mid = len / 2;
     if len.is_multiple_of(2) {
@@ -70,6 +74,11 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
     } else {
         max_nb_clusters
     };
+    const N_FOLD: usize = 5;
+    if x.nrows() < N_FOLD {
+        debug!("Not enough points to select a number of clusters. Default to 1 cluster");
+        return (1, Recombination::Smooth(None));
+    }
     let dataset: DatasetView<f64, f64, Ix1> = DatasetView::new(x.view(), y.view());
 
     // Stock
@@ -138,7 +147,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                 // )
                 // .expect("clustering saved");
 
-                for (train, valid) in dataset.fold(5).into_iter() {
+                for (train, valid) in dataset.fold(N_FOLD).into_iter() {
                     debug!("X: {}", Array1::from_iter(valid.records().iter().cloned()));
                     match GpMixtureParams::default()
                         .n_clusters(NbClusters::fixed(n_clusters))
-- 
2.43.0


From 63a2ef93b5c9e70835b78293de5c948354c85a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 35/59] fix: training with fewer points than regression terms
 is reported as an error

---
 crates/gp/src/algorithm.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 671e396..dc2d740 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -949,13 +949,13 @@ fn reduced_likelihood<F: Float>(
     let r_chol = r_mx.cholesky()?;
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(fxl, UPLO::Lower)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap().into_decomp();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?.into_decomp();
 
     // Check whether we have an ill-conditionned problem
-    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
+    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false)?;
     let cond_ft = sv_qr_r[sv_qr_r.len() - 1] / sv_qr_r[0];
     if F::cast(cond_ft) < F::cast(1e-10) {
-        let (_, sv_f, _) = &fxl.svd(false, false).unwrap();
+        let (_, sv_f, _) = &fxl.svd(false, false)?;
         let cond_fx = sv_f[0] / sv_f[sv_f.len() - 1];
         if F::cast(cond_fx) > F::cast(1e15) {
             return Err(GpError::LikelihoodComputationError(
@@ -1023,13 +1023,13 @@ fn reduced_likelihood<F: Float>(
 
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(UPLO::Lower, Diag::NonUnit, &fxl)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?;
 
     // Check whether we have an ill-conditionned problem
-    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
+    let (_, sv_qr_r, _) = ft_qr_r.svd(false, false)?;
     let cond_ft = sv_qr_r[sv_qr_r.len() - 1] / sv_qr_r[0];
     if F::cast(cond_ft) < F::cast(1e-10) {
-        let (_, sv_f, _) = &fxl.svd(false, false).unwrap();
+        let (_, sv_f, _) = &fxl.svd(false, false)?;
         let cond_fx = sv_f[0] / sv_f[sv_f.len() - 1];
         if F::cast(cond_fx) > F::cast(1e15) {
             return Err(GpError::LikelihoodComputationError(
-- 
2.43.0


From cb8424b7ff30958cdba107d3813cb55c84286122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 36/59] fix: a covariance which is not numerically positive
 definite does not abort the training of a sparse Gaussian process

---
 crates/gp/src/sparse_algorithm.rs | 38 ++++++++++++-------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 6019191..2bf0aa8 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -670,14 +670,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         z: &Array2<F>,
         nugget: F,
     ) -> Result<(F, WoodburyData<F>)> {
-        let (likelihood, w_data) = match self.method() {
+        match self.method() {
             SparseMethod::Fitc => {
                 self.fitc(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)
             }
             SparseMethod::Vfe => self.vfe(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget),
-        };
-
-        Ok((likelihood, w_data))
+        }
     }
 
     /// Compute covariance matrix between a and b matrices
@@ -710,19 +708,17 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         let nz = z.nrows();
         let knn = Array1::from_elem(xtrain.nrows(), sigma2);
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute (lower) Cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
-        let ui = u
-            .solve_triangular(&Array::eye(u.nrows()), UPLO::Lower)
-            .unwrap();
+        let ui = u.solve_triangular(&Array::eye(u.nrows()), UPLO::Lower)?;
         let v = ui.dot(&kmn);
 
         // Assumption on the gaussian noise on training outputs
@@ -738,10 +734,8 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         // Compute (lower) Cholesky decomposition: A = I + V diag(beta) V^T = L L^T
         let a = Array::eye(nz) + &(v.to_owned() * beta.to_owned().insert_axis(Axis(0))).dot(&v.t());
 
-        let l = a.cholesky().unwrap();
-        let li = l
-            .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
-            .unwrap();
+        let l = a.cholesky()?;
+        let li = l.solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)?;
 
         // Compute a and b
         let a = einsum("ij,i->ij", &[ytrain, &beta])
@@ -769,7 +763,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: (ui.t()).dot(&ui) - li_ui_t.dot(&li_ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 
     /// VFE method
@@ -784,19 +778,17 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         // Compute: Kmm and Kmn
         let nz = z.nrows();
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
-        let ui = u
-            .solve_triangular(&Array::eye(u.nrows()), UPLO::Lower)
-            .unwrap();
+        let ui = u.solve_triangular(&Array::eye(u.nrows()), UPLO::Lower)?;
         let v = ui.dot(&kmn);
 
         // Compute beta, the effective noise precision
@@ -807,10 +799,8 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
 
         // Compute cholesky decomposition: B = I + A = L L^T
         let b: Array2<F> = Array::eye(nz) + &a;
-        let l = b.cholesky().unwrap();
-        let li = l
-            .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
-            .unwrap();
+        let l = b.cholesky()?;
+        let li = l.solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)?;
 
         // Compute b
         let b = li.dot(&v).dot(ytrain).mapv(|v| v * beta);
@@ -834,7 +824,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: ui.t().dot(&bi).dot(&ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 }
 
-- 
2.43.0


From e165d6416cef1efdf4d94b827978a27bcc0ca463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 37/59] fix: sparse experts are always seeded (a random
 optional seed was drawn)

---
 crates/moe/src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index c3e8436..aa23db2 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -336,7 +336,7 @@ impl GpMixtureValidParams<f64> {
                         }
                     };
                 let mut expert_params = best_expert_params?;
-                let seed = self.rng().r#gen();
+                let seed = Some(self.rng().r#gen::<u64>());
                 debug!("Theta tuning = {:?}", self.theta_tunings());
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
-- 
2.43.0


From 2e3ae12fca87f92b64acfc5117d5c2ee6a649bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 38/59] fix: automatic selection of the number of clusters is
 reproducible

---
 crates/moe/src/clustering.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index 37078a8..262a17f 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -8,7 +8,8 @@ use linfa::dataset::{Dataset, DatasetView};
 use linfa::traits::{Fit, Predict};
 use linfa_clustering::GaussianMixtureModel;
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, concatenate};
-use ndarray_rand::rand::Rng;
+use ndarray_rand::rand::{Rng, SeedableRng};
+use rand_xoshiro::Xoshiro256Plus;
 // use std::ops::Sub;
 
 fn mean(list: &[f64]) -> f64 {
@@ -155,6 +156,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                         .correlation_spec(correlation_spec)
                         .kpls_dim(kpls_dim)
                         .gmm(gmm.clone())
+                        .with_rng(Xoshiro256Plus::seed_from_u64(rng.clone().r#gen()))
                         .fit(&train)
                     {
                         Ok(mixture) => {
-- 
2.43.0


From 8df3127ea0006458b20e675b448e76519cdd7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 39/59] fix: gradient of the probability of feasibility takes
 the tolerance into account

---
 crates/ego/src/utils/cstr_pof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 159439c..076bd20 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -39,8 +39,8 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
                 let y_prime = y_prime.row(0);
                 let sig_2_prime = var_prime.row(0);
                 let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
-                let arg_prime =
-                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * pred / (sigma * sigma));
+                let arg_prime = y_prime.mapv(|v| v / (-sigma))
+                    + sig_prime.mapv(|v| v * (pred - cstr_tol) / (sigma * sigma));
                 norm_pdf(arg) * arg_prime.to_owned()
             }
         }
-- 
2.43.0


From 2cce26e7d49ed830915347b79f28178a3925ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 40/59] fix: gradient of the upper trust bound uses the
 derivative of the standard deviation wrt each component

---
 crates/ego/src/solver/solver_computations.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..80c5597 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -237,13 +237,12 @@ where
         if let Some(grad) = gradient {
             let (pred_grad, var_grad) = cstr_model.predict_valvar_gradients(&x.view()).unwrap();
             let sigma_prime = if sigma < f64::EPSILON {
-                0.
+                Array1::zeros(x.ncols())
             } else {
-                var_grad[[0, 0]] / (2. * sigma)
+                var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
-            let grd = pred_grad
-                .row(0)
-                .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
+            let grd = (pred_grad.row(0).to_owned() + sigma_prime * CSTR_DOUBT)
+                .mapv(|v| v / scale_cstr)
                 .to_vec();
             let grd_coop = grd
                 .iter()
-- 
2.43.0


From c03d27f1a3aae0a633bf7e9d1af6e3656bb002a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 41/59] fix: gradient of the infill objective uses the weight
 of the standard deviation used by its value

---
 crates/ego/src/solver/solver_computations.rs | 44 +++++++++++++++-----
 crates/ego/src/solver/solver_infill_optim.rs |  1 +
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 80c5597..f6c892a 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -381,13 +381,16 @@ where
         fmin: f64,
         scale: f64,
         scale_ic: f64,
+        sigma_weight: f64,
     ) -> Vec<f64> {
         let x_f = x.to_vec();
-        let grad =
-            -(self
-                .config
-                .infill_criterion
-                .grad(&x_f, obj_model, fmin, None, Some(scale_ic)));
+        let grad = -(self.config.infill_criterion.grad(
+            &x_f,
+            obj_model,
+            fmin,
+            Some(sigma_weight),
+            Some(scale_ic),
+        ));
         (grad / scale).to_vec()
     }
 
@@ -435,16 +438,30 @@ where
         sigma_weight: f64,
     ) -> Vec<f64> {
         if cstr_models.is_empty() {
-            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic)
+            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-                Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                Array1::from_vec(self.eval_grad_infill_obj(
+                    x,
+                    obj_model,
+                    fmin,
+                    scale,
+                    scale_ic,
+                    sigma_weight,
+                ))
             } else {
                 // when no feasible point is found, make the infill criterion gradient neutral factor
                 if self.config.infill_criterion.name() == "LogEI" {
                     Array1::zeros(x.len())
                 } else {
-                    Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                    Array1::from_vec(self.eval_grad_infill_obj(
+                        x,
+                        obj_model,
+                        fmin,
+                        scale,
+                        scale_ic,
+                        sigma_weight,
+                    ))
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
@@ -454,9 +471,14 @@ where
                 let (infill, infill_grad) = if feasibility {
                     (
                         self.eval_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight),
-                        Array1::from_vec(
-                            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic),
-                        ),
+                        Array1::from_vec(self.eval_grad_infill_obj(
+                            x,
+                            obj_model,
+                            fmin,
+                            scale,
+                            scale_ic,
+                            sigma_weight,
+                        )),
                     )
                 } else {
                     // when no feasible point is found, make the grad infill criterion value neutral factor
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..37e1b53 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -110,6 +110,7 @@ where
                                 *fmin,
                                 *scale_infill_obj,
                                 *scale_wb2,
+                                *sigma_weight,
                             )
                         };
                         let g_infill_obj = g_infill_obj
-- 
2.43.0


From a19352a1338573cbdde817bea5371b6ed0c08c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 42/59] fix: gradients of a group of cooperative components are
 in the order of the group

---
 crates/ego/src/solver/coego.rs               | 10 ++++++++++
 crates/ego/src/solver/solver_computations.rs | 16 ++--------------
 crates/ego/src/solver/solver_infill_optim.rs |  8 +-------
 3 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/crates/ego/src/solver/coego.rs b/crates/ego/src/solver/coego.rs
index e52b1c4..ce0a4a4 100644
--- a/crates/ego/src/solver/coego.rs
+++ b/crates/ego/src/solver/coego.rs
@@ -43,6 +43,16 @@ where
     xcoop.select(axis, &selection)
 }
 
+/// Get components of the given gradient wrt active components, in the order of active
+/// active may contain out of range indices meaning it should be ignore
+pub(crate) fn get_active_grad(grad: &[f64], active: &[usize]) -> Vec<f64> {
+    active
+        .iter()
+        .filter(|&&i| i < grad.len())
+        .map(|&i| grad[i])
+        .collect()
+}
+
 impl<SB, C> EgorSolver<SB, C>
 where
     SB: SurrogateBuilder + DeserializeOwned,
diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index f6c892a..39ad218 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -208,13 +208,7 @@ where
                 .row(0)
                 .mapv(|v| v / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            grad[..].copy_from_slice(&coego::get_active_grad(&grd, active));
         }
         cstr_model.predict(&x.view()).unwrap()[0] / scale_cstr
     }
@@ -244,13 +238,7 @@ where
             let grd = (pred_grad.row(0).to_owned() + sigma_prime * CSTR_DOUBT)
                 .mapv(|v| v / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            grad[..].copy_from_slice(&coego::get_active_grad(&grd, active));
         }
         (cstr_val + CSTR_DOUBT * sigma) / scale_cstr
     }
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 37e1b53..8b4e589 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -113,13 +113,7 @@ where
                                 *sigma_weight,
                             )
                         };
-                        let g_infill_obj = g_infill_obj
-                            .iter()
-                            .enumerate()
-                            .filter(|(i, _)| active.contains(i))
-                            .map(|(_, &g)| g)
-                            .collect::<Vec<_>>();
-                        grad[..].copy_from_slice(&g_infill_obj);
+                        grad[..].copy_from_slice(&coego::get_active_grad(&g_infill_obj, &active));
                     }
                     if self.config.cstr_infill {
                         // Use constrained infill criterion
-- 
2.43.0


From 790bec2dd52d602be91fbb998361aa9eb052a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 43/59] fix: constraints which are null everywhere are not
 scaled by zero

---
 crates/ego/src/solver/solver_computations.rs |  2 +-
 crates/ego/src/utils/misc.rs                 | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 39ad218..28a8018 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -185,7 +185,7 @@ where
             let mut scale_fcstr = Array1::zeros(fcstr_values.ncols());
             Zip::from(&mut scale_fcstr)
                 .and(fcstr_values.columns())
-                .for_each(|sc, vals| *sc = *vals.max().unwrap());
+                .for_each(|sc, vals| *sc = utils::scale_or_one(*vals.max().unwrap_or(&1.0)));
             info!("Fonctional constraints scaling is updated to {scale_fcstr}");
             scale_fcstr
         };
diff --git a/crates/ego/src/utils/misc.rs b/crates/ego/src/utils/misc.rs
index 8dacf79..8cb2390 100644
--- a/crates/ego/src/utils/misc.rs
+++ b/crates/ego/src/utils/misc.rs
@@ -21,12 +21,21 @@ pub fn compute_cstr_scales(
                 .filter(|v| !v.is_infinite()) // filter out infinite values
                 .map(|v| v.abs())
                 .collect();
-            *preds.max().unwrap_or(&1.0)
+            scale_or_one(*preds.max().unwrap_or(&1.0))
         })
         .collect();
     Array1::from_shape_vec(cstr_models.len(), scales).unwrap()
 }
 
+/// Returns the given scaling factor or one when it cannot be used as a divisor
+pub(crate) fn scale_or_one(scale: f64) -> f64 {
+    if scale.is_finite() && scale > f64::MIN_POSITIVE {
+        scale
+    } else {
+        1.0
+    }
+}
+
 /// Cumulative distribution function of Standard Normal at x
 pub fn norm_cdf(x: f64) -> f64 {
     0.5 * erfc(-x / std::f64::consts::SQRT_2)
-- 
2.43.0


From 7bde4a4c2f7378a8df570d12a5b1e7522cd67788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 44/59] fix: function constraints get all components of valid
 points of the user space

---
 crates/ego/src/solver/solver_computations.rs | 38 ++++++++++++++++++--
 crates/ego/src/solver/solver_impl.rs         | 37 +++++++------------
 crates/ego/src/solver/solver_infill_optim.rs | 22 +++++++++++-
 3 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 28a8018..826536c 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -501,6 +501,41 @@ where
             .expect("Objective evaluation")
     }
 
+    /// Evaluate the constraint given as function at given x point of the internal continuous space
+    /// The gradient if any is computed wrt the given active components
+    pub(crate) fn eval_fcstr(
+        &self,
+        fcstr: &impl CstrFn,
+        x: &[f64],
+        gradient: Option<&mut [f64]>,
+        params: &mut InfillObjData<f64>,
+        active: &[usize],
+    ) -> f64 {
+        let xuser = if self.config.discrete() {
+            let xary = Array::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
+            to_discrete_space(&self.config.xtypes, &xary)
+                .row(0)
+                .to_vec()
+        } else {
+            x.to_vec()
+        };
+        if let Some(grad) = gradient {
+            let mut grad_user = vec![0.; xuser.len()];
+            let val = fcstr(&xuser, Some(&mut grad_user), params);
+            // Levels of enum variables are not ordered: no derivative
+            let grad_x: Vec<f64> = std::iter::zip(&self.config.xtypes, grad_user)
+                .flat_map(|(xtype, g)| match xtype {
+                    XType::Enum(n) => vec![0.; *n],
+                    _ => vec![g],
+                })
+                .collect();
+            grad[..].copy_from_slice(&coego::get_active_grad(&grad_x, active));
+            val
+        } else {
+            fcstr(&xuser, None, params)
+        }
+    }
+
     /// Evaluate the constraints given as function at given x points
     pub fn eval_fcstrs(
         &self,
@@ -523,8 +558,7 @@ where
                             // the constraint function expects discrete variable in folded space
                             to_discrete_space(&self.config.xtypes, &xary)
                                 .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
+                                .to_vec()
                         } else {
                             xi.to_vec()
                         };
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..fc85138 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use crate::errors::{EgoError, Result};
 use crate::find_best_result_index;
-use crate::gpmix::mixint::{as_continuous_limits, to_discrete_space};
+use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
@@ -713,7 +713,7 @@ where
                     sigma_weight: *sigma_weight,
                 };
 
-                let cstr_funcs = cstr_funcs
+                let scaled_cstr_funcs = cstr_funcs
                     .iter()
                     .enumerate()
                     .map(|(i, cstr)| {
@@ -722,20 +722,13 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            let x = if self.config.discrete() {
-                                let xary =
-                                    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
-                                // We have to cast x to folded space as EgorSolver
-                                // works internally in the continuous space while
-                                // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
-                                    .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
+                            if let Some(grad) = gradient {
+                                let val = cstr(x, Some(&mut *grad), params);
+                                grad.iter_mut().for_each(|g| *g /= scale_fc);
+                                val / scale_fc
                             } else {
-                                x
-                            };
-                            cstr(x, gradient, params) / scale_fc
+                                cstr(x, None, params) / scale_fc
+                            }
                         }
                     })
                     .collect::<Vec<_>>();
@@ -748,7 +741,7 @@ where
                 let infill_optpb = InfillOptProblem {
                     obj_model: obj_model.as_ref(),
                     cstr_models,
-                    cstr_funcs: &cstr_funcs,
+                    cstr_funcs: &scaled_cstr_funcs,
                     cstr_tols: cstr_tol,
                     infill_data: &infill_data,
                     actives: &actives,
@@ -766,15 +759,9 @@ where
                         let yk = Array2::from_shape_vec((1, 1 + self.config.n_cstr), yk).unwrap();
                         y_dat = concatenate![Axis(0), y_dat, yk];
 
-                        let ck = cstr_funcs
-                            .iter()
-                            .map(|cstr| cstr(&xk.to_vec(), None, &mut infill_data))
-                            .collect::<Vec<_>>();
-                        c_dat = concatenate![
-                            Axis(0),
-                            c_dat,
-                            Array2::from_shape_vec((1, cstr_funcs.len()), ck).unwrap()
-                        ];
+                        let ck = self.eval_fcstrs(cstr_funcs, &xk.view().insert_axis(Axis(0)))
+                            / &scale_fcstr;
+                        c_dat = concatenate![Axis(0), c_dat, ck];
 
                         x_dat = concatenate![Axis(0), x_dat, xk.insert_axis(Axis(0))];
 
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 8b4e589..40c0a9d 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -190,13 +190,33 @@ where
                     .collect()
             };
 
+            // Function constraints expect all components given in the user space
+            let fcstrs: Vec<_> = cstr_funcs
+                .iter()
+                .map(|cstr| {
+                    let active = active.to_vec();
+                    move |x: &[f64],
+                          gradient: Option<&mut [f64]>,
+                          params: &mut InfillObjData<f64>|
+                          -> f64 {
+                        let mut xcoop = params.xbest.clone();
+                        coego::set_active_x(&mut xcoop, &active, x);
+                        self.eval_fcstr(cstr, &xcoop, gradient, params, &active)
+                    }
+                })
+                .collect();
+
             // We merge metamodelized constraints and function constraints
             let mut cstr_refs: Vec<_> = cstrs.iter().map(|c| c.as_ref()).collect();
+            cstr_refs.extend(
+                fcstrs
+                    .iter()
+                    .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync)),
+            );
             let cstr_funcs = cstr_funcs
                 .iter()
                 .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
                 .collect::<Vec<_>>();
-            cstr_refs.extend(cstr_funcs.clone());
 
             // Limits of activated components
             let xlimits_active = coego::get_active_x(Axis(0), &self.xlimits, &active);
-- 
2.43.0


From fb68d860c36f0538dbfd9da05d4099de756d633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 45/59] fix: a TREGO local step does not evaluate again an
 already evaluated point

---
 crates/ego/src/solver/trego.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ego/src/solver/trego.rs b/crates/ego/src/solver/trego.rs
index e65b1fe..56d9edc 100644
--- a/crates/ego/src/solver/trego.rs
+++ b/crates/ego/src/solver/trego.rs
@@ -7,6 +7,7 @@ use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::types::DomainConstraints;
 use crate::utils::find_best_result_index_from;
 use crate::utils::is_feasible;
+use crate::utils::is_update_ok;
 use crate::utils::update_data;
 
 use argmin::core::CostFunction;
@@ -153,6 +154,12 @@ where
             x_data.row(new_state.best_index.unwrap()),
             x_data.row(best_index)
         );
+        if !is_update_ok(&x_data, &x_new.row(0)) {
+            info!("Reject {} too close to previous ones", x_new.row(0));
+            new_state.prev_added = new_state.added;
+            new_state.prev_best_index = new_state.best_index;
+            return new_state.data((x_data, y_data, c_data)).rng(rng);
+        }
         let y_new = self.eval_obj(problem, &x_new);
         debug!(
             "y_old-y_new={}, rho={}",
-- 
2.43.0


From 2d4e4d899564992f996691411a5557756b541bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 46/59] fix: last best iteration when the best point is the
 first one added to the initial design

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..9fe5a8d 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -458,7 +458,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From a27b3e2c2b2cdd93b4373348229dea2216c52081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 47/59] fix: function constraints values of a saved design are
 not taken for outputs

---
 crates/ego/src/solver/egor_solver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index fa101ec..4feac14 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -217,9 +217,11 @@ where
             } else {
                 // split doe in x and y
                 info!("Use specified DOE {} samples", doe.nrows());
+                // Saved designs end with values of function constraints which are evaluated below
+                let (nx, ny) = (self.xlimits.nrows(), 1 + self.config.n_cstr);
                 (
-                    doe.slice(s![.., self.xlimits.nrows()..]).to_owned(),
-                    doe.slice(s![.., ..self.xlimits.nrows()]).to_owned(),
+                    doe.slice(s![.., nx..doe.ncols().min(nx + ny)]).to_owned(),
+                    doe.slice(s![.., ..nx]).to_owned(),
                 )
             }
         } else {
-- 
2.43.0


From 642ff53d77343a81feba0a25a5038e149a9f2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 48/59] fix: function constraints have a tolerance when
 tolerances of the other constraints are specified

---
 crates/ego/src/solver/egor_solver.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index 4feac14..96eafc4 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -268,10 +268,13 @@ where
         initial_state.max_iters = self.config.max_iters as u64;
         initial_state.added = doe.nrows();
         initial_state.no_point_added_retries = no_point_added_retries;
-        initial_state.cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::from_elem(
-            self.config.n_cstr + c_data.ncols(),
-            DEFAULT_CSTR_TOL,
-        ));
+        // Tolerances are specified for the constraints of the objective function
+        // the default one is used for constraints given as functions
+        let mut cstr_tol = Array1::from_elem(self.config.n_cstr + c_data.ncols(), DEFAULT_CSTR_TOL);
+        if let Some(tol) = self.config.cstr_tol.as_ref() {
+            cstr_tol.slice_mut(s![..tol.len()]).assign(tol);
+        }
+        initial_state.cstr_tol = cstr_tol;
         initial_state.target_cost = self.config.target;
 
         let best_index = find_best_result_index(&y_data, &c_data, &initial_state.cstr_tol);
-- 
2.43.0


From 94dc254c071457d702608bc0f173cd026b127463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 49/59] fix: points picked from the portfolio are always in the
 same order

---
 crates/ego/src/utils/portfolio.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/portfolio.rs b/crates/ego/src/utils/portfolio.rs
index 92c7b40..d6345c0 100644
--- a/crates/ego/src/utils/portfolio.rs
+++ b/crates/ego/src/utils/portfolio.rs
@@ -37,9 +37,13 @@ pub fn cluster_as_indices(xdat: &ArrayBase<impl Data<Elem = f64>, Ix2>) -> Vec<u
     }
 
     // Pick the first element of each cluster as representative
-    dict.values()
+    let mut indices: Vec<usize> = dict
+        .values()
         .map(|members| *members.first().unwrap())
-        .collect()
+        .collect();
+    // order of the hash map is random
+    indices.sort_unstable();
+    indices
 }
 
 /// This function clusters portfolio information wrt x values then pick one member of each cluster
-- 
2.43.0


From a8f32fc881cdd16eb68c070eb09d16fd3c1680e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 50/59] fix: an interruption while saving a checkpoint does not
 destroy the previous one

---
 crates/ego/src/utils/hot_start.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/hot_start.rs b/crates/ego/src/utils/hot_start.rs
index 3d75cee..1119ba5 100644
--- a/crates/ego/src/utils/hot_start.rs
+++ b/crates/ego/src/utils/hot_start.rs
@@ -93,12 +93,15 @@ where
             std::fs::create_dir_all(&self.directory)?
         }
         let fname = self.directory.join(&self.filename);
-        let mut file = std::fs::File::create(fname).unwrap();
-
         // let bytes = bincode::serde::encode_to_vec((solver, state), bincode::config::standard())?;
         let bytes = serde_json::to_vec(&(solver, state))?;
 
+        // Write aside then rename to keep the previous checkpoint if interrupted
+        let tmp_fname = fname.with_extension("tmp");
+        let mut file = std::fs::File::create(&tmp_fname)?;
         file.write_all(&bytes)?;
+        file.sync_all()?;
+        std::fs::rename(tmp_fname, fname)?;
         Ok(())
     }
 
-- 
2.43.0


From dd84e4141fc9b50c871b62c2e57fd1b3cb153d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 51/59] fix: a run does not stop when the target is reached by
 a point which violates the constraints

---
 crates/ego/src/solver/egor_solver.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index 96eafc4..4ad2a54 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -422,6 +422,24 @@ where
         Ok(res)
     }
 
+    fn terminate_internal(&mut self, state: &EgorState<f64>) -> TerminationStatus {
+        let status = <Self as Solver<O, EgorState<f64>>>::terminate(self, state);
+        if status.terminated() {
+            return status;
+        }
+        if state.get_iter() >= state.get_max_iters() {
+            return TerminationStatus::Terminated(TerminationReason::MaxItersReached);
+        }
+        // The target has to be reached by a point which satisfies the constraints
+        if state.get_best_cost() <= state.get_target_cost()
+            && let (Some((_, y_data, c_data)), Some(best)) = (&state.data, state.best_index)
+            && is_feasible(&y_data.row(best), &c_data.row(best), &state.cstr_tol)
+        {
+            return TerminationStatus::Terminated(TerminationReason::TargetCostReached);
+        }
+        TerminationStatus::NotTerminated
+    }
+
     fn terminate(&mut self, state: &EgorState<f64>) -> TerminationStatus {
         debug!(">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> end iteration");
         debug!("Current Cost {:?}", state.get_cost());
-- 
2.43.0


From 1648c0c2b2cc17da3cc0dc428d4500945f0b07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 52/59] fix: constraints are not evaluated at NaN points passed
 by Cobyla

---
 crates/ego/src/solver/solver_infill_optim.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 40c0a9d..1b4d5b0 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -157,6 +157,11 @@ where
                             let mut xcoop = xcoop.clone();
                             coego::set_active_x(&mut xcoop, &active, x);
 
+                            // Defensive programming NlOpt::Cobyla may pass NaNs
+                            if xcoop.iter().any(|x| x.is_nan()) {
+                                return f64::INFINITY;
+                            }
+
                             let scale_cstr =
                                 params.scale_cstr.as_ref().expect("constraint scaling")[i];
                             if self.config.cstr_strategy == ConstraintStrategy::MeanConstraint {
@@ -201,6 +206,12 @@ where
                           -> f64 {
                         let mut xcoop = params.xbest.clone();
                         coego::set_active_x(&mut xcoop, &active, x);
+
+                        // Defensive programming NlOpt::Cobyla may pass NaNs
+                        if xcoop.iter().any(|x| x.is_nan()) {
+                            return f64::INFINITY;
+                        }
+
                         self.eval_fcstr(cstr, &xcoop, gradient, params, &active)
                     }
                 })
-- 
2.43.0


From 5efb5575547332a1f61d770a15900fc7fb3684d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 53/59] fix: last best iteration is not updated when no point
 is added

---
 crates/ego/src/solver/solver_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index fc85138..11d64bf 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -507,6 +507,7 @@ where
                 if new_state.no_point_added_retries == 0 {
                     info!("Max number of retries ({}) without adding point", 3);
                     info!("Consider solver has converged");
+                    new_state.prev_best_index = state.best_index;
                     return Err(EgoError::NoMorePointToAddError(Box::new(new_state)));
                 }
             } else {
-- 
2.43.0


From d9108e60d886f0a5da4e06f858f800d61030f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 54/59] fix: seed given to Egor also drives the clustering of
 the surrogates

---
 crates/ego/src/gpmix/mixint.rs       | 8 ++++++++
 crates/ego/src/gpmix/mod.rs          | 6 ++++++
 crates/ego/src/solver/solver_impl.rs | 6 +++++-
 crates/ego/src/types.rs              | 5 +++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 1e9a32a..7f752f0 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -467,6 +467,14 @@ impl SurrogateBuilder for MixintGpMixtureParams {
         }
     }
 
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        self.0 = MixintGpMixtureValidParams {
+            surrogate_builder: self.0.surrogate_builder.clone().with_rng(rng),
+            xtypes: self.0.xtypes.clone(),
+            work_in_folded_space: self.0.work_in_folded_space,
+        }
+    }
+
     fn set_optim_params(&mut self, n_start: usize, max_eval: usize) {
         let builder = self
             .0
diff --git a/crates/ego/src/gpmix/mod.rs b/crates/ego/src/gpmix/mod.rs
index 16974be..9ad3542 100644
--- a/crates/ego/src/gpmix/mod.rs
+++ b/crates/ego/src/gpmix/mod.rs
@@ -10,6 +10,7 @@ use egobox_moe::{
 use ndarray::{ArrayView1, ArrayView2};
 
 use linfa::ParamGuard;
+use rand_xoshiro::Xoshiro256Plus;
 
 use crate::Result;
 use crate::{SurrogateBuilder, XType};
@@ -62,6 +63,11 @@ impl SurrogateBuilder for GpMixtureParams<f64> {
         *self = self.clone().n_start(n_start).max_eval(max_eval);
     }
 
+    /// Sets the random number generator used to train the mixture
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        *self = self.clone().with_rng(rng);
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 11d64bf..b8ed8b4 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -41,10 +41,14 @@ impl<SB: SurrogateBuilder + DeserializeOwned, C: CstrFn> EgorSolver<SB, C> {
         let builder = builder.target(env_logger::Target::Stdout);
         builder.try_init().ok();
         let xtypes = config.xtypes.clone();
+        let mut surrogate_builder = SB::new_with_xtypes(&xtypes);
+        if let Some(seed) = config.seed {
+            surrogate_builder.set_rng(Xoshiro256Plus::seed_from_u64(seed));
+        }
         EgorSolver {
             config,
             xlimits: as_continuous_limits(&xtypes),
-            surrogate_builder: SB::new_with_xtypes(&xtypes),
+            surrogate_builder,
             phantom: PhantomData,
         }
     }
diff --git a/crates/ego/src/types.rs b/crates/ego/src/types.rs
index c76f254..370325c 100644
--- a/crates/ego/src/types.rs
+++ b/crates/ego/src/types.rs
@@ -4,6 +4,7 @@ use argmin::core::CostFunction;
 use egobox_moe::{Clustering, MixtureGpSurrogate, NbClusters, Recombination, ThetaTuning};
 use linfa::Float;
 use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
+use rand_xoshiro::Xoshiro256Plus;
 use serde::{Deserialize, Serialize};
 
 /// Optimization result
@@ -164,6 +165,10 @@ pub trait SurrogateBuilder: Clone + Serialize + Sync {
     /// Sets the hyperparameters tuning strategy
     fn set_theta_tunings(&mut self, theta_tunings: &[ThetaTuning<f64>]);
 
+    /// Sets the random number generator used to train the surrogate (e.g. when clustering)
+    /// By default, it is ignored.
+    fn set_rng(&mut self, _rng: Xoshiro256Plus) {}
+
     /// Set likelihood optimization parameters
     fn set_optim_params(&mut self, n_start: usize, max_eval: usize);
 
-- 
2.43.0


From 4f8f9b7585cbac87e79c088a8d5ea813044ed96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 55/59] fix: reuse last optimized surrogate hyperparameters
 (q_optmod > 1)

Hyperparameters re-optimized by training on the current clustering were
dropped: selections which reuse hyperparameters and starting points of the
following optimizations were those of the first training of the run.
---
 crates/ego/src/solver/solver_impl.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index b8ed8b4..e9fab4f 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -247,9 +247,21 @@ where
 
                 builder.set_theta_tunings(&theta_tunings);
 
-                builder
+                let gp = builder
                     .train_on_clusters(xt.view(), yt.view(), clustering)
-                    .expect("GP training failure")
+                    .expect("GP training failure");
+                if optimize_theta && !self.config.coego.activated {
+                    // next iterations start from (or reuse) the last optimized hyperparameters
+                    best_theta_inits = Array2::from_shape_vec(
+                        (gp.experts().len(), gp.experts()[0].theta().len()),
+                        gp.experts()
+                            .iter()
+                            .flat_map(|expert| expert.theta().to_vec())
+                            .collect(),
+                    )
+                    .expect("Theta initialization failure");
+                }
+                gp
             };
 
             // CoEGO only in mono cluster, update theta if better likelihood
-- 
2.43.0


From 7b04ced356038d278f7960b25da2369282771787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 56/59] fix: ignore tolerances of constraints which do not
 exist

Tolerances given without constraints made the run panic.
---
 crates/ego/src/solver/egor_solver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index 4ad2a54..c9d94e2 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -272,7 +272,10 @@ where
         // the default one is used for constraints given as functions
         let mut cstr_tol = Array1::from_elem(self.config.n_cstr + c_data.ncols(), DEFAULT_CSTR_TOL);
         if let Some(tol) = self.config.cstr_tol.as_ref() {
-            cstr_tol.slice_mut(s![..tol.len()]).assign(tol);
+            let n_tol = tol.len().min(cstr_tol.len());
+            cstr_tol
+                .slice_mut(s![..n_tol])
+                .assign(&tol.slice(s![..n_tol]));
         }
         initial_state.cstr_tol = cstr_tol;
         initial_state.target_cost = self.config.target;
-- 
2.43.0


From 3813ca5166896830af5cb3308879f3f0d5adc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 57/59] fix: refuse CoEGO with a null number of groups of
 components

Such a configuration was accepted and the run panicked (division by zero).
---
 crates/ego/src/solver/egor_config.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ego/src/solver/egor_config.rs b/crates/ego/src/solver/egor_config.rs
index 289541c..56bb6a0 100644
--- a/crates/ego/src/solver/egor_config.rs
+++ b/crates/ego/src/solver/egor_config.rs
@@ -455,6 +455,13 @@ impl EgorConfig {
             )));
         }
 
+        // Check number of groups of components
+        if config.coego.activated && config.coego.n_coop == 0 {
+            return Err(crate::EgoError::InvalidConfigError(
+                "EgorConfig invalid: CoEGO number of groups should be at least 1".to_string(),
+            ));
+        }
+
         // Check exclusicve use of coego and gp_config kpls
         if config.coego.activated && config.gp.kpls_dim.is_some() {
             return Err(crate::EgoError::InvalidConfigError(
-- 
2.43.0


From fa190315310b3e9c2968e4dada9c22dfd2e97363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 58/59] fix: hard recombination does not keep the heaviside
 factor of a previous smooth one

---
 crates/moe/src/algorithm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index aa23db2..91d7d09 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -659,9 +659,11 @@ impl GpMixture {
             Recombination::Smooth(Some(_)) => recombination,
             Recombination::Smooth(_) => Recombination::Smooth(Some(1.)),
         };
-        if let Recombination::Smooth(Some(factor)) = self.recombination {
-            self.gmx = self.gmx.heaviside_factor(factor);
-        }
+        let factor = match self.recombination {
+            Recombination::Smooth(Some(factor)) => factor,
+            _ => 1.,
+        };
+        self.gmx = self.gmx.heaviside_factor(factor);
         self
     }
 
-- 
2.43.0


From df4f0b61fd4963e9906eb2e5b8bc2a219294134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 59/59] fix: a last iteration without new points does not
 record again the points of the previous one

---
 crates/ego/src/solver/solver_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index e9fab4f..5f20ad2 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -524,6 +524,7 @@ where
                     info!("Max number of retries ({}) without adding point", 3);
                     info!("Consider solver has converged");
                     new_state.prev_best_index = state.best_index;
+                    new_state.prev_added = new_state.added;
                     return Err(EgoError::NoMorePointToAddError(Box::new(new_state)));
                 }
             } else {
-- 
2.43.0


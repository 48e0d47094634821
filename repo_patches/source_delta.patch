From f9b59094cf72297eb943e936e081021bdcb708e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 01/21] fix: Bitset::disable_bit set the bit instead of
 clearing it

---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..046dfc5 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].disable_bit(j)
     }
 }
 
-- 
2.43.0


From 92eccd9c8908e26df3c5c519e343f9c24e8b3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 02/21] fix: set_feature_data kept limits, cardinality and type
 of the previous column

---
 src/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index d457d67..20fe4b8 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -154,6 +154,12 @@ impl Data {
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
         assert_eq!(feat.len(), self.nexamples);
+
+        // forget what was derived from previous values (or from the placeholder zeros)
+        *flim = (POS_INF, NEG_INF);
+        *card = 0;
+        self.ftypes[feat_id] = FeatType::Numerical;
+
         for i in 0..self.nexamples {
             let value = data[i];
             feat[i] = value;
-- 
2.43.0


From 82f17abbd978808ae8a3e3637de10c366482639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 03/21] fix: high-cardinality binning read the gradient of the
 wrong example when bagging

---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..150eb1d 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From cb4e916070ff32c799373fee9d09aa67fa627f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 04/21] fix: rank underflow in high-cardinality binning of
 small bags

---
 src/dataset.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 150eb1d..15f4c46 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,8 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins)
+            .map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 06e2ba7f27f15cb68337afc757c67fcc8dc396c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/21] fix: Binner rejected constant values, so constant
 targets or residuals panicked

---
 src/binner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binner.rs b/src/binner.rs
index c6c443e..19082fb 100644
--- a/src/binner.rs
+++ b/src/binner.rs
@@ -18,7 +18,7 @@ impl <'a, BinT> Binner<'a, BinT> {
     pub fn new(bins: &'a mut [BinT], limits: (NumT, NumT)) -> Binner<'a, BinT> {
         assert!(limits.0.is_finite());
         assert!(limits.1.is_finite());
-        assert!(limits.0 < limits.1);
+        assert!(limits.0 <= limits.1); // equal: all values end up in the first or the last bin
         assert!(!bins.is_empty());
 
         let delta = (limits.1 - limits.0) / bins.len() as NumT;
-- 
2.43.0


From 077e84b34bebfbe7696a048a539a4d9df2d7fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 06/21] fix: histograms dropped gradient sums of small bins,
 corrupting the sibling's histogram

---
 src/tree/learner.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..a7ce952 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,7 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +821,7 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From 946a427737310d25cf2cceb0113a69cf73965431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/21] fix: examples near a numerical split were trained on
 one side and predicted on the other

---
 src/dataset.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 15f4c46..25729b1 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -255,8 +255,13 @@ impl <'a> InnerDataset<'a> {
             //         feat_value, split_candidates.get(cat));
             let alt_cat = binner.bin_value(binner.get_bin(feat_value));
             //println!("alt_cat = {}, cat = {}", alt_cat, cat);
-            //cat
-            alt_cat as usize
+
+            // the bin is only accurate up to rounding: make sure the category agrees with the test
+            // `feat_value < split` that is used to make predictions
+            let mut cat = alt_cat as usize;
+            while cat < nsplit_candidates && feat_value >= split_candidates[cat] { cat += 1; }
+            while cat > 0 && feat_value < split_candidates[cat - 1] { cat -= 1; }
+            cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From 2cb904769974dda8072d1626a935bf693002d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 08/21] fix: Huber gradients had the opposite sign of what
 Objective::gradients documents

---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..ac2d618 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -292,9 +292,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From dc608f6d091b37b2e69e1138f3252c75dd7f6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/21] fix: config values containing '=' were silently
 truncated

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..e82dc33 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '=');
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From 85a4a774f278948e48fafe6df8c799ec9d7ce6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 10/21] fix: loading a CSV without records panicked instead of
 returning an error

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 20fe4b8..8b9b2d7 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,8 @@ impl Data {
             record_count += 1;
         }
 
+        if record_len == 0 { return Err("CSV error: no records".to_string()); }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From 3005a5b96940d76dc838f2ac1730250039d3870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/21] fix: training panicked when every feature is a constant
 category

---
 src/slice_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..92a8214 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -299,7 +299,7 @@ where T: Clone + Default {
 
     pub fn alloc_hists(&mut self) -> SliceRange {
         let total_bins = *self.hist_layout.last().unwrap();
-        self.slice_store.alloc_slice(total_bins, T::default())
+        self.slice_store.alloc_slice(total_bins.max(1), T::default()) // no bins if no useful features
     }
 
     pub fn free_hists(&mut self, r: SliceRange) {
-- 
2.43.0


From 269f86fc01f93e2356aa9969357205ae45c3ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 12/21] fix: binary loss metric overflowed to infinity for
 confident wrong predictions

---
 src/metric.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 19016a2..3b56c0c 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -97,7 +97,8 @@ impl Rmse {
 pub struct BinaryLoss {}
 impl_metric!(BinaryLoss, eval_one: |_, t: NumT, p: NumT| {
     let y = 2.0 * t - 1.0;
-    (1.0 + (-2.0 * y * p).exp()).ln()
+    let x = -2.0 * y * p;
+    x.max(0.0) + (-x.abs()).exp().ln_1p() // = ln(1 + exp(x)), does not overflow
 });
 
 impl BinaryLoss {
-- 
2.43.0


From 2048a25213f4d96b69c013e88fe83d0fa5209c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/21] fix: Python wrapper ignored the error codes of the C
 API

---
 python/bitboost/bitboost.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..ecf6588 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -111,6 +111,10 @@ class RawBitBoost:
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _check_result(self, result):
+        if result != 0:
+            raise Exception("BitBoost call failed, see stderr")
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
@@ -120,7 +124,7 @@ class RawBitBoost:
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._check_result(self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat))
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -129,7 +133,7 @@ class RawBitBoost:
         assert data.shape[1] == self._nfeatures
 
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        self._check_result(self._rust_refresh_data(self._ctx_ptr, self._nexamples))
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +150,7 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._check_result(self._rust_set_config_field(self._ctx_ptr, n, v))
 
     def set_config(self, values):
         self._check()
@@ -156,14 +160,14 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        self._check_result(self._rust_train(self._ctx_ptr))
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        self._check_result(self._rust_predict(self._ctx_ptr, output_ptr))
         return output
 
     def write_model(self):
-- 
2.43.0


From b7efef8c0f9338c9735522af4e3184da6c582c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/21] fix: sklearn estimator rejected double precision
 targets and test data

---
 python/bitboost/sklearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bitboost/sklearn.py b/python/bitboost/sklearn.py
index aa03891..59ba511 100644
--- a/python/bitboost/sklearn.py
+++ b/python/bitboost/sklearn.py
@@ -38,6 +38,7 @@ class BitBoost(BaseEstimator):
         """
         X, y = check_X_y(X, y, accept_sparse=False, dtype=self.numt,
                          order="F") # column-major
+        y = np.asarray(y, dtype=self.numt)
 
         nexamples, nfeatures = X.shape
 
@@ -64,7 +65,7 @@ class BitBoost(BaseEstimator):
         y : ndarray, shape (n_samples,)
             Returns an array of predictions.
         """
-        X = check_array(X, accept_sparse=False)
+        X = check_array(X, accept_sparse=False, dtype=self.numt)
         check_is_fitted(self, "_is_fitted")
 
         self._bitboost.set_data(X)
-- 
2.43.0


From 47686130afe4252fd0ff0d717ef1bdfec2d5b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 15/21] fix: binary objective predicted infinity when all
 targets are of one class

---
 src/objective.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/objective.rs b/src/objective.rs
index ac2d618..9a9226b 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -333,6 +333,8 @@ impl Objective for Binary {
         let nneg = targets.iter().filter(|&x| *x < 0.5).count() as NumT;
         let npos = n as NumT - nneg;
         let avg  = (-1.0 * nneg + 1.0 * npos) / n as NumT;
+        // keep the prior finite when all targets are of the same class
+        let avg  = avg.max(-1.0 + EPSILON).min(1.0 - EPSILON);
         let prior = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
 
         self.initialize_base(config, n, prior);
-- 
2.43.0


From 2c99623d5b13dd352b5e34ea8721234850a5ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 16/21] fix: failure to load the test data was reported with
 the training data's name

---
 src/bin/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/run.rs b/src/bin/run.rs
index 969a3c3..65ba584 100644
--- a/src/bin/run.rs
+++ b/src/bin/run.rs
@@ -78,7 +78,7 @@ fn load_data(config: &Config) -> Result<(Data, Option<Data>), String> {
         let test_data_res = if !config.test.is_empty() {
             let rtest = Data::from_csv_path(&config, config.test.as_str());
             if rtest.is_ok() { println!("[   ] finished loading test data"); }
-            else {         println!("[   ] failed loading test data: '{}'", config.train); }
+            else {         println!("[   ] failed loading test data: '{}'", config.test); }
             Some(rtest)
         } else { None };
         //let train_data_res = t1.join().unwrap();
-- 
2.43.0


From 2e5bf880cc5f903c6e9609b9bab13107aa9c61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 17/21] fix: Python wrapper let the library read past the end
 of a column shorter than the data

---
 python/bitboost/bitboost.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index ecf6588..45d4933 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -121,6 +121,7 @@ class RawBitBoost:
         assert data.dtype == self.numt
         assert 0 <= feat_id and feat_id <= self._nfeatures
         assert isinstance(is_categorical, bool) 
+        assert data.size == self._nexamples # the library reads this many values
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-- 
2.43.0


From 387aa18b8ddfa5ffa39241b78b454b25e500d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 18/21] fix: min_examples_leaf=0 allowed empty leaves, which
 panicked or predicted NaN

---
 src/tree/learner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index a7ce952..b39a596 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -297,7 +297,7 @@ where 'a: 'b {
     fn find_best_split(&mut self, n2s: &Node2Split) -> Split {
         let mut best_split = Split::no_split();
         let mut best_gain = self.ctx.config.min_gain;
-        let min_examples = self.ctx.config.min_examples_leaf;
+        let min_examples = self.ctx.config.min_examples_leaf.max(1); // no value for an empty leaf
 
         let (pgrad, pcount) = (n2s.grad_sum, n2s.example_count);
         let ploss = self.get_loss(pgrad, pcount);
-- 
2.43.0


From e710fd816c814ed152cbdabca14d35373da487ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 19/21] fix: training panicked on a column of which all values
 are missing (NaN)

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 25729b1..0973634 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -56,7 +56,7 @@ impl <'a> InnerDataset<'a> {
             if max_nbins == 0 { continue; } // not a useful feature, only 1 value
 
             let feat_bounds = data.feat_limits(feat_id);
-            if feat_bounds.0 == feat_bounds.1 { continue; } // not a useful feature, only 1 value
+            if !(feat_bounds.0 < feat_bounds.1) { continue; } // not a useful feature, at most 1 value
 
             has_non_locard_cat_features |= data.feat_type(feat_id) != FeatType::LoCardCat;
 
-- 
2.43.0


From 4fcd04d2e0fecb8b345dd0c40ccb6fa5ac0e7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 20/21] fix: examples with a missing (NaN) value were trained
 left of a split and predicted right of it

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 0973634..ad3a6a9 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -259,7 +259,7 @@ impl <'a> InnerDataset<'a> {
             // the bin is only accurate up to rounding: make sure the category agrees with the test
             // `feat_value < split` that is used to make predictions
             let mut cat = alt_cat as usize;
-            while cat < nsplit_candidates && feat_value >= split_candidates[cat] { cat += 1; }
+            while cat < nsplit_candidates && !(feat_value < split_candidates[cat]) { cat += 1; }
             while cat > 0 && feat_value < split_candidates[cat - 1] { cat -= 1; }
             cat
         };
-- 
2.43.0


From 4b44caee5515364c631fe8d83f59e3524bd98ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 21/21] fix: infinity was accepted as a category

---
 src/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 8b9b2d7..c83f488 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -212,7 +212,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if !value.is_finite() || value.round() != value || value < 0.0 {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From eccf9f8b25a2155d07a3c335bcb61f5c34ac6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 01/24] fix: reserving space in a recycled namespace no longer
 underflows

---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..7201a30 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 486987266da3f79c963bb2a00f9a5f5dc675965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 02/24] fix: learn from contextual bandit examples without
 shared features in MTR mode

---
 reductionml-core/src/reductions/cb_adf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..e81521f 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -214,7 +214,13 @@ impl ReductionImpl for CBAdfReduction {
                         shared_feats.remove(action);
                     }
                     None => {
-                        todo!()
+                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                        self.regressor.learn(
+                            &mut Features::SparseSimpleRef(action),
+                            &simple_label.into(),
+                            depth_info,
+                            0.into(),
+                        );
                     }
                 }
             }
-- 
2.43.0


From 5587e309a36ba1f53f8429b66a5d459548bf85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 03/24] fix: cubic interactions with a repeated second
 namespace expand every combination once

---
 reductionml-core/src/weights.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..46f0d18 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,14 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            for (j, feat2) in
+                                ns2.iter().enumerate().skip(if same_ns { i } else { 0 })
+                            {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From 0896bbe3b011aa2bc47bb1a2bde0c5273c155829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 04/24] fix: elementwise interaction accepts examples that lack
 one of its namespaces

---
 .../src/reductions/elementwise_interaction.rs | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..6d0c616 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,12 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (mut ns_one_it, mut ns_two_it) =
+        match (features.get_namespace(one), features.get_namespace(two)) {
+            (Some(one), Some(two)) => (one.iter(), two.iter()),
+            // Nothing to multiply if either of the namespaces is not present.
+            _ => return (composite_ns, dest_iter),
+        };
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -174,6 +178,16 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+fn restore_namespace(
+    features: &mut SparseFeatures,
+    namespace: Namespace,
+    removed: Option<SparseFeaturesNamespace>,
+) {
+    if let Some(removed) = removed {
+        features.set_namespace(namespace, removed);
+    }
+}
+
 #[typetag::serde]
 impl ReductionImpl for ElementwiseInteraction {
     fn predict(
@@ -196,15 +210,15 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -233,8 +247,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +257,8 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -268,14 +282,14 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
         }
     }
 
-- 
2.43.0


From bbdacabb4d67ba49791a1c0246b33504fae5e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 05/24] fix: elementwise interaction handles positions that
 wrap around the index space

---
 .../src/reductions/elementwise_interaction.rs          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 6d0c616..7df1c71 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -159,13 +159,13 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
-
-        let dest_index = u32::from(composite_base) + idx1;
+        // Feature indices wrap around at the end of the index space.
+        let idx1 = mask.mask(u32::from(idx1).wrapping_sub(base_one.into()).into());
+        let idx2 = mask.mask(u32::from(idx2).wrapping_sub(base_two.into()).into());
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            let dest_index = u32::from(composite_base).wrapping_add(idx1.into());
+            dest_iter.add_feature(mask.mask(dest_index.into()), val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
-- 
2.43.0


From 29dbe35c30f8a8ef2dd8ee6972d69ed86735a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 06/24] fix: unnamed features of namespaces hashing near the
 end of the hash space wrap around

---
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..a153326 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -6,7 +6,7 @@ use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
 use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
-use crate::{CBAdfFeatures, CBLabel, FeatureHash, FeatureMask, FeaturesType, SimpleLabel};
+use crate::{CBAdfFeatures, CBLabel, FeatureMask, FeaturesType, SimpleLabel};
 
 use super::{TextModeParser, TextModeParserFactory};
 
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|offset| {
+                                ParsedFeature::Anonymous { offset }.hash(ns_hash).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 38c39fb1f372997480cd2de26738ac0971c7354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 07/24] fix: accept empty feature lists in JSON examples

---
 reductionml-core/src/parsers/json_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index a153326..7553420 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -50,7 +50,8 @@ pub fn to_features(
                             }
                         }
                         Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        // An empty list has no features.
+                        None => {}
                     },
 
                     Value::Object(contents) => {
-- 
2.43.0


From 4c0c08483bab39d31ef252d58c147160b7245996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 08/24] fix: VW text lines may end with an empty anonymous
 namespace

---
 reductionml-core/src/parsers/vw_text_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..30d51d1 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -234,7 +234,7 @@ fn parse_namespace_inline(
     let first_char_is_space = namespace_segment.starts_with(' ');
     let mut tokens = namespace_segment.split_ascii_whitespace();
 
-    let (namespace_name, namespace_value) = if first_char_is_space {
+    let (namespace_name, namespace_value) = if first_char_is_space || namespace_segment.trim().is_empty() {
         // Anonymous namespace
         (" ", 1.0)
     } else {
-- 
2.43.0


From db43793aacf3f596c063125084179c0d212ad304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 09/24] fix: removing appended features keeps namespaces that
 were present but empty

---
 .../src/sparse_namespaced_features.rs         | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 7201a30..2d748e5 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -66,6 +66,8 @@ pub struct SparseFeaturesNamespace {
     /// it is used to avoid iterating over the namespace when it is not active
     /// and also allow for object reuse
     active: bool,
+    /// Set while the namespace is active only because features were appended to it.
+    activated_by_append: bool,
 }
 
 impl AbsDiffEq for SparseFeaturesNamespace {
@@ -108,6 +110,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::new(),
             feature_values: Vec::new(),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -117,6 +120,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::with_capacity(capacity),
             feature_values: Vec::with_capacity(capacity),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -167,6 +171,9 @@ impl SparseFeaturesNamespace {
 
     fn set_active(&mut self, active: bool) {
         self.active = active;
+        if !active {
+            self.activated_by_append = false;
+        }
     }
 }
 
@@ -401,7 +408,11 @@ impl SparseFeatures {
     pub fn append(&mut self, other: &SparseFeatures) {
         for (ns, feats) in &other.namespaces {
             if feats.active {
+                let was_active = self.get_namespace(*ns).is_some();
                 let container = self.get_or_create_namespace_with_capacity(*ns, feats.size());
+                if !was_active {
+                    container.activated_by_append = true;
+                }
                 container.add_features(&feats.feature_indices, &feats.feature_values);
             }
         }
@@ -412,13 +423,16 @@ impl SparseFeatures {
     pub fn remove(&mut self, other: &SparseFeatures) {
         for (ns, feats) in &other.namespaces {
             if feats.active {
-                let container = self.get_or_create_namespace(*ns);
+                let container = match self.namespaces.get_mut(ns) {
+                    Some(container) => container,
+                    None => continue,
+                };
                 let size = container.size();
                 container.feature_indices.truncate(size - feats.size());
                 container.feature_values.truncate(size - feats.size());
 
-                // If the container is now empty, deactivate it.
-                if container.size() == 0 {
+                // If appending is what made the now empty container active, deactivate it.
+                if container.activated_by_append && container.size() == 0 {
                     container.set_active(false);
                 }
             }
-- 
2.43.0


From eabf458b3bdc29ffdcc650be4dbef4dbc83d36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 10/24] fix: a first example of zero importance no longer
 leaves a non-finite model

---
 reductionml-core/src/reductions/coin.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..3cd45ca 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -339,8 +339,12 @@ impl CoinRegressor {
         // todo select correct one
         self.model_states[0].normalized_sum_norm_x += normalized_squared_norm_x * weight;
         self.model_states[0].total_weight += weight;
-        self.average_squared_norm_x =
-            (self.model_states[0].normalized_sum_norm_x + 1e-6) / self.model_states[0].total_weight;
+        self.average_squared_norm_x = if self.model_states[0].total_weight > 0.0 {
+            (self.model_states[0].normalized_sum_norm_x + 1e-6) / self.model_states[0].total_weight
+        } else {
+            // Only examples of no importance so far, nothing to normalize by.
+            1.0
+        };
 
         let partial_prediction = prediction / self.average_squared_norm_x;
 
-- 
2.43.0


From e499bc784b4d12addc03120bc1eb8c5b8467a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 11/24] fix: reject unsupported interactions and bit widths
 instead of panicking

---
 reductionml-core/src/reductions/coin.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 3cd45ca..dfbc2ec 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -1,7 +1,7 @@
 use std::iter::Sum;
 
 use crate::dense_weights::DenseWeights;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::global_config::GlobalConfig;
 use crate::interactions::compile_interactions;
 use crate::loss_function::{LossFunction, LossFunctionImpl, SquaredLoss};
@@ -112,6 +112,24 @@ impl CoinRegressor {
         global_config: &GlobalConfig,
         num_models_above: ModelIndex,
     ) -> Result<CoinRegressor> {
+        if let Some(interaction) = global_config
+            .interactions()
+            .iter()
+            .find(|interaction| interaction.len() != 2 && interaction.len() != 3)
+        {
+            return Err(Error::InvalidArgument(format!(
+                "Interactions must be pairs or triples of namespaces, but found one of {}",
+                interaction.len()
+            )));
+        }
+        if global_config.num_bits() >= u32::BITS as u8 {
+            return Err(Error::InvalidArgument(format!(
+                "numBits must be less than {}, but it is {}",
+                u32::BITS,
+                global_config.num_bits()
+            )));
+        }
+
         let (pairs, triples) =
             compile_interactions(global_config.interactions(), global_config.hash_seed());
 
-- 
2.43.0


From f3dd841b47bb54374efd163d847d94dd726f4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 12/24] fix: reject unknown keys beside a reduction's typename
 and config

---
 reductionml-core/src/reduction_factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index c60046d..1dad0d5 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -18,6 +18,7 @@ use crate::{
 // Use gen_json_reduction_config_schema instead with schema_with
 #[derive(Clone, Deserialize, Serialize, Debug)]
 #[serde(rename_all = "camelCase")]
+#[serde(deny_unknown_fields)]
 pub struct JsonReductionConfig {
     typename: PascalCaseString,
     // TODO: ensure json schema reflects that this is option based on the below deserialize impl
-- 
2.43.0


From cf8360194c5f7cee5df14843bf9b7d2435ebbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 13/24] fix: training with parsing threads ends with an error
 when an example is malformed

---
 reductionml-cli/src/train.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..5e0ac2b 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -5,6 +5,7 @@ use std::{
     cell::UnsafeCell,
     fs::File,
     io::{self, stdout, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     str::FromStr,
     sync::{atomic::Ordering, Arc},
 };
@@ -327,6 +328,10 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // Owned by this closure so that leaving it early, because an example is
+                    // malformed, disconnects the queue and stops the other threads.
+                    let learn_receiver = learn_receiver;
+
                     // Input thread
                     s.spawn(|| {
                         loop {
@@ -335,8 +340,11 @@ impl Command for TrainCommand {
                                 .unwrap()
                             {
                                 let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
+                                if parse_sender.send(res.clone()).is_err()
+                                    || learn_sender.send(res).is_err()
+                                {
+                                    break;
+                                }
                             } else {
                                 break;
                             }
@@ -350,9 +358,15 @@ impl Command for TrainCommand {
                             match parse_receiver.recv() {
                                 Ok(res) => {
                                     let input = res.get_input();
-                                    let parsed = parser.parse_chunk(&input);
+                                    // The result must always be set as the learner waits for it.
+                                    let parsed = catch_unwind(AssertUnwindSafe(|| {
+                                        parser.parse_chunk(&input)
+                                    }));
                                     string_pool.return_object(input);
-                                    res.set_result(parsed.map_err(|e| anyhow::anyhow!(e)));
+                                    res.set_result(match parsed {
+                                        Ok(parsed) => parsed.map_err(|e| anyhow::anyhow!(e)),
+                                        Err(_) => Err(anyhow::anyhow!("Failed to parse example")),
+                                    });
                                 }
                                 Err(_) => break,
                             }
@@ -363,7 +377,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
-                                let (features, label) = result.await_result().unwrap();
+                                let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
                                     &mut workspace,
-- 
2.43.0


From 3039cbcafc5920aa7aedd698abb985d2b89dd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 14/24] fix: training on an empty data file succeeds

---
 reductionml-cli/src/train.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 5e0ac2b..95da96f 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -397,7 +397,8 @@ impl Command for TrainCommand {
             }
         }
 
-        if !quiet {
+        // There is nothing to report if there were no examples.
+        if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From 154c64aa984b805640c2436ef8d99f51f77ae06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 15/24] Verification hook: pipeline event log and schedule
 delays in training (cfg reml_verif)

---
 reductionml-cli/src/train.rs | 54 ++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 95da96f..864639a 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -1,3 +1,6 @@
+// cfg(reml_verif) is only set by verification builds.
+#![allow(unexpected_cfgs)]
+
 use atomic_wait::{wait, wake_one};
 use reductionml_core::workspace::Configuration;
 use std::sync::atomic::AtomicU32;
@@ -26,6 +29,48 @@ use reductionml_core::{
 
 use crate::{command::Command, DataFormat, InputConfigArg};
 
+/// Log of the steps of the training pipeline, and delays to vary its schedule, for verification.
+#[cfg(reml_verif)]
+mod verif {
+    use std::io::Write;
+    use std::sync::Mutex;
+
+    static LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);
+
+    pub(super) fn event(step: &str, id: usize) {
+        if let Ok(path) = std::env::var("REML_VERIF_LOG") {
+            let mut log = LOG.lock().unwrap_or_else(|e| e.into_inner());
+            let log =
+                log.get_or_insert_with(|| std::fs::File::create(path).expect("verification log"));
+            writeln!(log, "{} {:x} {:?}", step, id, std::thread::current().id()).unwrap();
+        }
+        delay(step, id);
+    }
+
+    fn delay(step: &str, id: usize) {
+        let seed = match std::env::var("REML_VERIF_SEED") {
+            Ok(seed) => seed,
+            Err(_) => return,
+        };
+        use std::hash::{Hash, Hasher};
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        (seed, step, id, std::thread::current().id()).hash(&mut hasher);
+        match hasher.finish() % 16 {
+            0 => std::thread::sleep(std::time::Duration::from_millis(2)),
+            1..=3 => std::thread::sleep(std::time::Duration::from_micros(200)),
+            4..=7 => std::thread::yield_now(),
+            _ => (),
+        }
+    }
+}
+
+macro_rules! verif_event {
+    ($step: expr, $id: expr) => {
+        #[cfg(reml_verif)]
+        verif::event($step, $id as usize);
+    };
+}
+
 // TODO: multipass
 // TODO: test file for metrics
 #[derive(Args)]
@@ -309,6 +354,7 @@ impl Command for TrainCommand {
             0 => {
                 let mut buffer = String::new();
                 while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer).unwrap() {
+                    verif_event!("read", 0);
                     let (features, label) = parser.parse_chunk(&chunk).unwrap();
                     buffer = chunk;
                     process_example(
@@ -321,6 +367,7 @@ impl Command for TrainCommand {
                         quiet,
                         &pool,
                     );
+                    verif_event!("learned", 0);
                 }
             }
             n => {
@@ -340,6 +387,7 @@ impl Command for TrainCommand {
                                 .unwrap()
                             {
                                 let res = Arc::new(ParseResult::new(chunk));
+                                verif_event!("read", Arc::as_ptr(&res));
                                 if parse_sender.send(res.clone()).is_err()
                                     || learn_sender.send(res).is_err()
                                 {
@@ -349,6 +397,7 @@ impl Command for TrainCommand {
                                 break;
                             }
                         }
+                        verif_event!("end", 0);
                         std::mem::drop(parse_sender);
                         std::mem::drop(learn_sender);
                     });
@@ -357,12 +406,14 @@ impl Command for TrainCommand {
                         s.spawn(|| loop {
                             match parse_receiver.recv() {
                                 Ok(res) => {
+                                    verif_event!("take", Arc::as_ptr(&res));
                                     let input = res.get_input();
                                     // The result must always be set as the learner waits for it.
                                     let parsed = catch_unwind(AssertUnwindSafe(|| {
                                         parser.parse_chunk(&input)
                                     }));
                                     string_pool.return_object(input);
+                                    verif_event!("publish", Arc::as_ptr(&res));
                                     res.set_result(match parsed {
                                         Ok(parsed) => parsed.map_err(|e| anyhow::anyhow!(e)),
                                         Err(_) => Err(anyhow::anyhow!("Failed to parse example")),
@@ -377,6 +428,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
+                                verif_event!("recv", Arc::as_ptr(&result));
                                 let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
@@ -388,6 +440,7 @@ impl Command for TrainCommand {
                                     quiet,
                                     &pool,
                                 );
+                                verif_event!("learned", Arc::as_ptr(&result));
                             }
                             Err(_) => break,
                         }
@@ -403,6 +456,7 @@ impl Command for TrainCommand {
             manager.render_table_to_stdout();
         }
 
+        verif_event!("finish", 0);
         if let Some(file) = &args.output_model {
             let data = workspace.serialize_model().unwrap();
             std::fs::write(file, data).unwrap();
-- 
2.43.0


From b086b114f9c6baa5a67a674b51952c49f6b6f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:31 +0000
Subject: [PATCH 16/24] fix: JSON labels without a weight default to weight 1

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..b250f36 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_weight")]
     weight: f32,
 }
 
+fn default_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From ac8086e5e2613b2e43fbf246b5ed5ad4e03c261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 17/24] fix: MTR learning merges shared features in the order
 prediction does

With a namespace interacting with itself, learning and prediction used
different product features for the pairs crossing shared and action.
---
 reductionml-core/src/reductions/cb_adf.rs | 34 +++++++++--------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index e81521f..812a993 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,27 +201,19 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(action),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                    }
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                // Same order as in prediction, interactions depend on it
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut Features::SparseSimpleRef(action),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From 92cfe78a3cb4ed60ecc55aacf446b244f609f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 18/24] fix: the exploration floor covers actions whose
 probability underflowed to zero

uniformEpsilon promises every action its share; an action far worse than
the best had probability 0 after rounding and was left out.
---
 reductionml-core/src/reductions/cb_explore_adf_softmax.rs  | 2 +-
 reductionml-core/src/reductions/cb_explore_adf_squarecb.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..6bdf2ba 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -141,7 +141,7 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
             *score /= total_weight;
         }
 
-        enforce_min_prob(self.config.uniform_epsilon, false, &mut scores.0).unwrap();
+        enforce_min_prob(self.config.uniform_epsilon, true, &mut scores.0).unwrap();
 
         Prediction::ActionProbs(ActionProbsPrediction(scores.0))
     }
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..9461895 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -167,7 +167,7 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
 
         scores.0[best_idx].1 = 1.0 - total_weight;
 
-        enforce_min_prob(self.config.uniform_epsilon, false, &mut scores.0).unwrap();
+        enforce_min_prob(self.config.uniform_epsilon, true, &mut scores.0).unwrap();
 
         Prediction::ActionProbs(ActionProbsPrediction(scores.0))
     }
-- 
2.43.0


From 16ed08b5c778591bd5662bea31a6ad3d52253cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 19/24] fix: JSON keys with escape sequences no longer panic

---
 reductionml-core/src/parsers.rs               | 24 +++++++++++++++++++
 reductionml-core/src/parsers/dsjson_parser.rs | 11 +++++++--
 reductionml-core/src/parsers/json_parser.rs   | 11 +++++++--
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index e8f55a8..7d4d68a 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -10,6 +10,30 @@ pub use json_parser::*;
 
 use crate::{hash::hash_bytes, FeatureHash, NamespaceHash};
 
+/// View of an owned JSON value. Borrowed values cannot be deserialized from text where keys
+/// contain escape sequences, such text is first deserialized to an owned value.
+fn borrow_json_value(value: &serde_json::Value) -> serde_json_borrow::Value<'_> {
+    use serde_json_borrow::Value;
+    match value {
+        serde_json::Value::Null => Value::Null,
+        serde_json::Value::Bool(val) => Value::Bool(*val),
+        serde_json::Value::Number(val) => Value::Number(match (val.as_u64(), val.as_i64()) {
+            (Some(val), _) => val.into(),
+            (None, Some(val)) => val.into(),
+            (None, None) => val.as_f64().unwrap().into(),
+        }),
+        serde_json::Value::String(val) => Value::Str(val.into()),
+        serde_json::Value::Array(vals) => {
+            Value::Array(vals.iter().map(borrow_json_value).collect())
+        }
+        serde_json::Value::Object(vals) => Value::Object(
+            vals.iter()
+                .map(|(key, val)| (key.as_str(), borrow_json_value(val)))
+                .collect(),
+        ),
+    }
+}
+
 pub enum ParsedFeature<'a> {
     Simple { name: &'a str },
     SimpleWithStringValue { name: &'a str, value: &'a str },
diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..ef1f79e 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -10,7 +10,7 @@ use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
 use crate::{CBAdfFeatures, CBLabel, FeatureMask, FeaturesType};
 
-use super::{ParsedNamespaceInfo, TextModeParser, TextModeParserFactory};
+use super::{borrow_json_value, ParsedNamespaceInfo, TextModeParser, TextModeParserFactory};
 
 #[derive(Default)]
 pub struct DsJsonParserFactory;
@@ -171,7 +171,14 @@ impl TextModeParser for DsJsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let owned;
+        let json = match serde_json::from_str::<Value>(chunk) {
+            Ok(json) => json,
+            Err(_) => {
+                owned = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+                borrow_json_value(&owned)
+            }
+        };
 
         let mut namespace_stack = Vec::new();
 
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 7553420..236ee1a 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -8,7 +8,7 @@ use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
 use crate::{CBAdfFeatures, CBLabel, FeatureMask, FeaturesType, SimpleLabel};
 
-use super::{TextModeParser, TextModeParserFactory};
+use super::{borrow_json_value, TextModeParser, TextModeParserFactory};
 
 use serde_json_borrow::Value;
 
@@ -197,7 +197,14 @@ impl TextModeParser for JsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let owned;
+        let json = match serde_json::from_str::<Value>(chunk) {
+            Ok(json) => json,
+            Err(_) => {
+                owned = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+                borrow_json_value(&owned)
+            }
+        };
         let features = self.parse_features(&json)?;
         let label = self.parse_label(&json)?;
         Ok((features, label))
-- 
2.43.0


From 309c196ca503297542228945f2e7bdf42de0e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 20/24] fix: bets on features of very small or large value are
 no longer out of range

---
 reductionml-core/src/reductions/coin.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index dfbc2ec..86d4c87 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -328,9 +328,9 @@ impl CoinRegressor {
 
             // COCOB update without sigmoid
             let w_xt = if state[W_MG] * w_mx > 0.0 {
-                ((self.config.alpha + state[W_WE])
-                    / (state[W_MG] * w_mx * (state[W_MG] * w_mx + state[W_G2])))
-                    * state[W_ZT]
+                // Divided one at a time, the product of the divisors can be out of range.
+                ((self.config.alpha + state[W_WE]) / (state[W_MG] * w_mx))
+                    * (state[W_ZT] / (state[W_MG] * w_mx + state[W_G2]))
             } else {
                 0.0
             };
@@ -407,8 +407,8 @@ impl CoinRegressor {
             }
             if state[W_MG] * state[W_MX] > 0.0 {
                 state[W_XT] = ((self.config.alpha + state[W_WE])
-                    / (state[W_MG] * state[W_MX] * (state[W_MG] * state[W_MX] + state[W_G2])))
-                    * state[W_ZT];
+                    / (state[W_MG] * state[W_MX]))
+                    * (state[W_ZT] / (state[W_MG] * state[W_MX] + state[W_G2]));
             } else {
                 state[W_XT] = 0.0;
             }
-- 
2.43.0


From a44656f08ecda3347651667bc46cef3ed2c39c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 21/24] fix: refuse bytes that are not a model with an error
 instead of panicking

---
 reductionml-core/src/workspace.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..f41b1ba 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -139,8 +139,10 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        let r = flexbuffers::Reader::get_root(json)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+        Workspace::deserialize(r)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
     }
 
     // TODO move to bincode or msgpack
-- 
2.43.0


From 593d7e1bdbae087c2cfcb2bc081e64ea0acd6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:09 +0000
Subject: [PATCH 22/24] fix: refuse a JSON model with inconsistent weights
 instead of panicking

---
 reductionml-core/src/dense_weights.rs | 23 +++++++++++++++++++++++
 reductionml-core/src/workspace.rs     | 16 +++++++++-------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..d8e9e7b 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -106,6 +106,29 @@ impl DenseWeightsWithNDArray {
         }
     }
 
+    /// Whether every stored state lies within the table described by the sizes
+    pub fn check_consistent(&self) -> Result<()> {
+        let shift_fits =
+            |size: u64, shift: u8| size > 0 && num_bits_to_represent(size - 1) == u64::from(shift);
+        let state_size = *self.feature_state_size as usize;
+        let model_size = *self.model_index_size as usize;
+        let sizes_ok = *self.feature_index_size > 0
+            && shift_fits(model_size as u64, self.model_index_size_shift)
+            && shift_fits(state_size as u64, self.feature_state_size_shift);
+        let weights_ok = self.weights.iter().all(|(index, models)| {
+            *index < self.feature_index_size
+                && models.len() <= model_size
+                && models.iter().all(|state| state.len() == state_size)
+        });
+        if sizes_ok && weights_ok {
+            Ok(())
+        } else {
+            Err(Error::InvalidArgument(
+                "Weights do not match their sizes".to_string(),
+            ))
+        }
+    }
+
     pub fn to_dense_weights(&self) -> DenseWeights {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index f41b1ba..560070e 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -66,7 +66,7 @@ impl TryInto<Configuration> for serde_yaml::Value {
 }
 
 // We need to search until we find an object with the keys weights, feature_index_size, model_index_size, feature_state_size, model_index_size_shift, feature_state_size_shift
-fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
+fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -76,21 +76,23 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone()).unwrap();
-                *value = serde_json::to_value(wts.to_dense_weights()).unwrap();
-                return;
+                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                wts.check_consistent()?;
+                *value = serde_json::to_value(wts.to_dense_weights())?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
@@ -164,7 +166,7 @@ impl Workspace {
         let mut value: serde_json::Value = serde_json::from_value(json.clone()).map_err(|e| {
             Error::InvalidConfiguration(format!("Failed to parse configuration: {e}"))
         })?;
-        rewrite_json_ndarray_to_sparse(&mut value);
+        rewrite_json_ndarray_to_sparse(&mut value)?;
         serde_json::from_value(value)
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
-- 
2.43.0


From 72ee1986c9ebe546717ac638adc033cdd1349055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:09 +0000
Subject: [PATCH 23/24] fix: Python: raise an exception for a configuration,
 model or example that is refused

---
 reductionml-python/src/parsers.rs   |  2 +-
 reductionml-python/src/workspace.rs | 30 ++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index a5ca223..b41791a 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -146,7 +146,7 @@ impl WrappedParserTextAndJson {
             JsonInputKinds::StringInput(x) => x.into(),
             JsonInputKinds::DictInput(x) => {
                 // TODO: avoid the trip to string here.
-                let input: serde_json::Value = depythonize(x).unwrap();
+                let input: serde_json::Value = depythonize(x)?;
                 serde_json::to_string(&input).unwrap().into()
             }
         };
diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 7889f9d..b4180a0 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -14,7 +14,7 @@ use crate::{
     labels::{WrappedLabel, WrappedLabelType},
     parsers::{create_parser, FormatType, WrappedParser},
     predictions::{WrappedPrediction, WrappedPredictionType},
-    WrappedFeaturesType,
+    WrappedError, WrappedFeaturesType,
 };
 
 #[pyclass]
@@ -125,24 +125,28 @@ pub(crate) struct WrappedWorkspace(pub(crate) reductionml_core::workspace::Works
 #[pymethods]
 impl WrappedWorkspace {
     #[staticmethod]
-    pub(crate) fn create_from_config(config: &PyDict) -> Self {
-        let config: Configuration = depythonize(config).unwrap();
-        let workspace = reductionml_core::workspace::Workspace::new(config).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_config(config: &PyDict) -> PyResult<Self> {
+        // By way of a JSON value, which is as strict about types as the other ways to write a configuration
+        let config: serde_json::Value = depythonize(config)?;
+        let config: Configuration = config.try_into().map_err(WrappedError::from)?;
+        let workspace =
+            reductionml_core::workspace::Workspace::new(config).map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_model(data: Vec<u8>) -> Self {
-        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_model(data: Vec<u8>) -> PyResult<Self> {
+        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_json_model(model_json: &PyDict) -> Self {
-        let data = depythonize(model_json).unwrap();
-        let workspace =
-            reductionml_core::workspace::Workspace::deserialize_from_json(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_json_model(model_json: &PyDict) -> PyResult<Self> {
+        let data = depythonize(model_json)?;
+        let workspace = reductionml_core::workspace::Workspace::deserialize_from_json(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     pub(crate) fn serialize(&self) -> PyResult<Vec<u8>> {
-- 
2.43.0


From b01e15e6bc7b837e106fe45474f403f315231ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 24/24] fix: fail when the predictions cannot be written
 completely

---
 reductionml-cli/src/train.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 864639a..2d95fe2 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -456,6 +456,11 @@ impl Command for TrainCommand {
             manager.render_table_to_stdout();
         }
 
+        // Dropping the writer would ignore that what is still buffered cannot be written
+        if let Some(file) = predictions_file.as_mut() {
+            file.flush().with_context(|| "Failed to write predictions file")?;
+        }
+
         verif_event!("finish", 0);
         if let Some(file) = &args.output_model {
             let data = workspace.serialize_model().unwrap();
-- 
2.43.0


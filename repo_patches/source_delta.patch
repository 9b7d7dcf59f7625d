From b3b26a4934db7aa4353f711942d9aa88b75a5faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 01/75] fix: keep a tree's deleted-node bookkeeping consistent
 across JSON reload and re-initialization

from_json discarded the number of deleted nodes while keeping their ids, so
node counts were wrong after a reload (and an all-root tree with recycled ids
looked prunable); Init and Reset kept ids of nodes that no longer exist.
---
 src/tree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..b1ce813 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -343,6 +344,8 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
+  num_deleted_nodes = 0;
 
   // Set output dimension
   output_dimension_ = output_dimension;
@@ -645,7 +648,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From 5851468611fd00f33299c91bc41c5a8066bcc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 02/75] fix: route missing values left when partitioning
 training data, as evaluation does

EvaluateTree sends a missing value to the default (left) child, but the split
predicates behind the sampler's partitions sent it right (numeric) or cast NaN
to an integer (categorical), so a tree's training fit and its predictions on the
same row disagreed.
---
 include/stochtree/tree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..10266c0 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -12,6 +12,7 @@
 #include <stochtree/meta.h>
 #include <Eigen/Dense>
 
+#include <cmath>
 #include <cstdint>
 #include <map>
 #include <optional>
@@ -703,7 +704,8 @@ inline bool operator==(const Tree& lhs, const Tree& rhs) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueNumeric(double fvalue, double threshold) {
-  return (fvalue <= threshold);
+  // Missing values follow the default (left) direction, as in EvaluateTree
+  return std::isnan(fvalue) || (fvalue <= threshold);
 }
 
 /*! \brief Determine whether an observation produces a "true" value in a categorical split node
@@ -713,6 +715,8 @@ inline bool SplitTrueNumeric(double fvalue, double threshold) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueCategorical(double fvalue, std::vector<std::uint32_t> const& category_list) {
+  // Missing values follow the default (left) direction, as in EvaluateTree
+  if (std::isnan(fvalue)) return true;
   bool category_matched;
   // A valid (integer) category must satisfy two criteria:
   // 1) it must be exactly representable as double
-- 
2.43.0


From 9808990be2b17167b4c54aa01297612a8a26c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 03/75] fix: accumulate exactly one cutpoint bin's sufficient
 statistics for unordered categorical features

---
 src/leaf_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..bb63e59 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,13 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  // NOTE: bins of unordered categorical features are arranged by average outcome, so that bin (cutpoint_num + 1) 
+  // need not begin where this one ends
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From cb5a2372310197f9aad6a48005619e24de3b28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 04/75] fix: close a thinned numeric cutpoint bin at the first
 distinct value past the step size

Ties at a step boundary used to swallow every later cutpoint of the node, and the
truncated step size allowed up to twice cutpoint_grid_size bins.
---
 src/cutpoint_candidates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..bb809f8 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -286,7 +286,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  double step_size = static_cast<double>(node_size) / cutpoint_grid_size_;
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
@@ -304,7 +304,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From 0e4fafd52fc33d238e97cc376f706a037a57677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 05/75] fix: compute the range of a feature in a node correctly
 for decreasing and negative values

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..67ba8e5 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
-- 
2.43.0


From 10352a8bdb7a55222e29fc9424e58bfee1392826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 06/75] fix: enforce min_samples_leaf in MCMC grow moves and do
 not abort when no move is possible

---
 include/stochtree/tree_sampler.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 67ba8e5..662c6b5 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -268,7 +268,7 @@ class MCMCForestSampler {
     bool grow_possible = false;
     std::vector<int> leaves = tree->GetLeaves();
     for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) > 2 * tree_prior.GetMinSamplesLeaf()) {
+      if (tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
         grow_possible = true;
         break;
       }
@@ -293,7 +293,8 @@ class MCMCForestSampler {
       step_probs = {1.0, 0.0};
       prob_grow = 1.0;
     } else {
-      Log::Fatal("In this tree, neither grow nor prune is possible");
+      // Neither grow nor prune is possible, so the tree is left as it is
+      return;
     }
     std::discrete_distribution<> step_dist(step_probs.begin(), step_probs.end());
 
@@ -352,6 +353,11 @@ class MCMCForestSampler {
     double no_split_log_marginal_likelihood = std::get<1>(split_eval);
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
+
+    // Reject proposals that would create a leaf with fewer than the minimum number of samples
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
     
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
-- 
2.43.0


From 886a81a32179b06b9f653c376c7742cfc2bc6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 07/75] fix: use the actual grow/prune proposal probabilities
 in the Metropolis-Hastings ratio

The reverse-move probabilities looked at the wrong tree (node count of the unpruned tree,
only the new leaves, leaf parents whose child was just split), so that grow and prune
ratios of one pair of trees were not reciprocal.
---
 include/stochtree/tree_sampler.h | 100 +++++--------------------------
 1 file changed, 16 insertions(+), 84 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 662c6b5..6a3d531 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -40,72 +40,10 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
   }
 }
 
-static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTracker& tracker, TreeSplit& split, int tree_num, int leaf_split, int feature_split) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double split_feature_value;
-  double var_max_left;
-  double var_min_left;
-  double var_max_right;
-  double var_min_right;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
-    var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
-    var_min_right = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      split_feature_value = dataset.CovariateValue(idx, feature_split);
-      feature_value = dataset.CovariateValue(idx, j);
-      if (split.SplitTrue(split_feature_value)) {
-        if (var_max_left < feature_value) {
-          var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
-          var_min_left = feature_value;
-        }
-      } else {
-        if (var_max_right < feature_value) {
-          var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
-          var_min_right = feature_value;
-        }
-      }
-    }
-    if ((var_max_left > var_min_left) && (var_max_right > var_min_right)) {
-      return true;
-    }
-  }
-  return false;
-}
-
-static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracker, int tree_num, int node_id) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double var_max;
-  double var_min;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
-    var_min = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      feature_value = dataset.CovariateValue(idx, j);
-      if (var_max < feature_value) {
-        var_max = feature_value;
-      } else if (var_min > feature_value) {
-        var_min = feature_value;
-      }
-    }
-    if (var_max > var_min) {
+/*! \brief Whether any leaf of a tree, other than `excluded_leaf`, is large enough to be split in two */
+static inline bool GrowPossible(ForestTracker& tracker, TreePrior& tree_prior, Tree* tree, int tree_num, int excluded_leaf = Tree::kInvalidNodeId) {
+  for (auto& leaf: tree->GetLeaves()) {
+    if (leaf != excluded_leaf && tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
       return true;
     }
   }
@@ -265,14 +203,7 @@ class MCMCForestSampler {
                          ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                          int tree_num, double global_variance) {
     // Determine whether it is possible to grow any of the leaves
-    bool grow_possible = false;
-    std::vector<int> leaves = tree->GetLeaves();
-    for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
-        grow_possible = true;
-        break;
-      }
-    }
+    bool grow_possible = GrowPossible(tracker, tree_prior, tree, tree_num);
 
     // Determine whether it is possible to prune the tree
     bool prune_possible = false;
@@ -367,20 +298,23 @@ class MCMCForestSampler {
     // Determine whether a "grow" move is possible from the newly formed tree
     // in order to compute the probability of choosing "prune" from the new tree
     // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    bool grow_possible_new = (left_n >= 2*tree_prior.GetMinSamplesLeaf()) || (right_n >= 2*tree_prior.GetMinSamplesLeaf()) || 
+                             GrowPossible(tracker, tree_prior, tree, tree_num, leaf_chosen);
     double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
+    if (grow_possible_new) {
       prob_prune_new = 0.5;
     } else {
       prob_prune_new = 1.0;
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-    int num_leaf_parents = tree->NumLeafParents();
+    // (the parent of the split leaf is no longer a leaf parent)
+    int num_leaf_parents = tree->NumLeafParents() + 1;
+    if (!tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen))) {
+      num_leaf_parents -= 1;
+    }
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -434,7 +368,7 @@ class MCMCForestSampler {
     // Determine whether a "prune" move is possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
     // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
+    bool non_root_tree = num_leaves > 2;
     double prob_grow_new;
     if (non_root_tree) {
       prob_grow_new = 0.5;
@@ -444,10 +378,8 @@ class MCMCForestSampler {
 
     // Determine whether a "grow" move was possible from the old tree,
     // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
     double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
+    if (GrowPossible(tracker, tree_prior, tree, tree_num)) {
       prob_prune_old = 0.5;
     } else {
       prob_prune_old = 1.0;
-- 
2.43.0


From f5f14ac8a33add2e5b99128702ddda8567fe5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 08/75] fix: reset the running predictions of
 UpdateResidualEntireForest for every tree and observation

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 6a3d531..c8e7d58 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -96,13 +96,14 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From dc4689bcfa43b13614c5b059d76e717f2fafc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 09/75] fix: divide, not multiply, by the prune proposal
 probability in the prune acceptance ratio

---
 include/stochtree/tree_sampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index c8e7d58..fd74ab9 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -392,8 +392,8 @@ class MCMCForestSampler {
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From 5c19b9778a16a68ce23cbb4f639d77ce4418c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 10/75] fix: keep the initial forest of a container that is
 reloaded before being sampled

---
 src/container.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index 747e699..73fe70a 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -127,9 +127,14 @@ void ForestContainer::from_json(const json& forest_container_json) {
   this->initialized_ = forest_container_json.at("initialized");
 
   std::string forest_label;
+  // NOTE: a container whose root nodes have been initialized but which has not been sampled yet stores a forest that is not counted as a sample
+  int num_forests = this->num_samples_;
+  if (num_forests == 0 && forest_container_json.contains("forest_0")) {
+    num_forests = 1;
+  }
   forests_.clear();
-  forests_.resize(this->num_samples_);
-  for (int i = 0; i < this->num_samples_; i++) {
+  forests_.resize(num_forests);
+  for (int i = 0; i < num_forests; i++) {
     forest_label = "forest_" + std::to_string(i);
     forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
     forests_[i]->from_json(forest_container_json.at(forest_label));
-- 
2.43.0


From 9bcefeb02794e6b66dc971659ca111706b4e224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 11/75] fix: conjugate posteriors of the global and leaf
 variances halve the data terms, not the IG prior parameters

---
 include/stochtree/variance_model.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..7b92c3a 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return nu + (n/2.0);
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return nu_lambda + (sum_sq_resid/2.0);
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return a + (num_leaves/2.0);
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return b + (mu_sq/2.0);
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
-- 
2.43.0


From 53d4c1d4d7567db02b2dd11d3107b9ae6465c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 12/75] fix: random effects variance components use half the
 number of groups and half the sum of squares

---
 src/random_effects.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..0f7f743 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -165,7 +165,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + (num_groups_/2.0);
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -173,7 +173,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From 8a13056e572deb27fac14c28bca1b0023eef7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 13/75] fix: SampleCategoryMapper::SetCategoryId stores the
 category rather than the sample index

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From df72417b3628caa336ee5274ff25b8936844b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 14/75] fix: record the size of a last category that contains a
 single observation

---
 include/stochtree/category_tracker.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..8fc256f 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,11 +106,10 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
+      if (end_cond) category_length_.push_back(observation_count);
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
-- 
2.43.0


From b77272b4bf66bfbf51af9b26aef52807b8fa0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 15/75] fix: looking up a group label never seen in training is
 an error instead of a new entry for group 0

---
 include/stochtree/category_tracker.h | 12 ++++++------
 include/stochtree/random_effects.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 8fc256f..e3065b8 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -117,21 +117,21 @@ class CategorySampleTracker {
 
   /*! \brief Zero-indexed numeric index that category_id is remapped to internally */
   inline int32_t CategoryNumber(int category_id) {
-    return category_id_map_[category_id];
+    return category_id_map_.at(category_id);
   }
 
   /*! \brief First index of data points contained in node_id */
-  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_[category_id]];}
+  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_.at(category_id)];}
 
   /*! \brief One past the last index of data points contained in node_id */
   inline data_size_t CategoryEnd(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     return category_begin_[id] + category_length_[id];
   }
 
   /*! \brief Number of data points contained in node_id */
   inline data_size_t CategorySize(int category_id) {
-    return category_length_[category_id_map_[category_id]];
+    return category_length_[category_id_map_.at(category_id)];
   }
 
   /*! \brief Number of total categories stored */
@@ -142,7 +142,7 @@ class CategorySampleTracker {
 
   /*! \brief Data indices for a given node */
   std::vector<data_size_t>& NodeIndices(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     // std::vector<data_size_t>::iterator start = indices_.begin() + category_begin_[id];
     // std::vector<data_size_t>::iterator end = indices_.begin() + category_begin_[id] + category_length_[id];
     // std::vector<data_size_t> output(start, end);
@@ -152,7 +152,7 @@ class CategorySampleTracker {
   
   /*! \brief Data indices for a given node */
   std::vector<data_size_t>& NodeIndicesInternalIndex(int internal_category_id) {
-//    int32_t id = category_id_map_[category_id];
+//    int32_t id = category_id_map_.at(category_id);
     // std::vector<data_size_t>::iterator start = indices_.begin() + category_begin_[id];
     // std::vector<data_size_t>::iterator end = indices_.begin() + category_begin_[id] + category_length_[id];
     // std::vector<data_size_t> output(start, end);
diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 7d7a65c..8502626 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -76,7 +76,7 @@ class LabelMapper {
     return pos != label_map_.end();
   }
   int32_t CategoryNumber(int32_t category_id) {
-    return label_map_[category_id];
+    return label_map_.at(category_id);
   }
   std::vector<int32_t>& Keys() {return keys_;}
   std::map<int32_t, int32_t>& Map() {return label_map_;}
-- 
2.43.0


From 820fde5de2f8f265156ada86775c126cd43a3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 16/75] fix: LabelMapper::from_json replaces the previous
 mapping

---
 src/random_effects.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 0f7f743..4e53c28 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 7ac94edfa02fc3bc6a5cafce41bd10d8cb69e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 17/75] fix: allow a JSON field holding a scalar to be
 overwritten with a vector

---
 src/py_stochtree.cpp  | 8 ++++----
 src/serialization.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index cb329f1..a8ae00b 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -509,7 +509,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(accessor(i));
       }
@@ -526,7 +526,7 @@ class JsonCpp {
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(accessor(i));
         }
@@ -548,7 +548,7 @@ class JsonCpp {
   void AddStringVector(std::string field_name, std::vector<std::string>& field_vector) {
     int vec_length = field_vector.size();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(field_vector.at(i));
       }
@@ -564,7 +564,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
         }
diff --git a/src/serialization.cpp b/src/serialization.cpp
index ba73475..b6e3e08 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -76,7 +76,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -99,7 +99,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
 void json_add_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::doubles field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
@@ -116,7 +116,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -139,7 +139,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
 void json_add_string_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::strings field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
-- 
2.43.0


From 96cfa0df833cb10aec101a683fad47a0c73a9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 18/75] fix: serialize length-one numeric vectors as
 one-dimensional arrays

---
 stochtree/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/serialization.py b/stochtree/serialization.py
index 9c7d04b..daa2688 100644
--- a/stochtree/serialization.py
+++ b/stochtree/serialization.py
@@ -83,7 +83,7 @@ class JSONSerializer:
         # Runtime checks
         if not isinstance(field_vector, np.ndarray):
             raise ValueError("field_vector must be a numpy array")
-        field_vector = np.squeeze(field_vector)
+        field_vector = np.atleast_1d(np.squeeze(field_vector))
         if field_vector.ndim > 1:
             warnings.warn("field_vector has more than 1 dimension. It will be flattened in row-major order using np.ravel()")
             field_vector = np.ravel(field_vector, order = "C")
-- 
2.43.0


From 38056db62a224db78d8c1dbed3c5742d327b93aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 19/75] fix: loadScalarJson reads a scalar

---
 R/serialization.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/serialization.R b/R/serialization.R
index eda655f..ead94f2 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -350,9 +350,9 @@ loadVectorJson <- function(json_object, json_vector_label, subfolder_name = NULL
 #' @export
 loadScalarJson <- function(json_object, json_scalar_label, subfolder_name = NULL) {
     if (is.null(subfolder_name)) {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     } else {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     }
     return(output)
 }
-- 
2.43.0


From 849b490599bea99059bb491995ea7951f185d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 20/75] fix: CppJson add_list converts each element to double,
 as add_vector does

---
 R/serialization.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/serialization.R b/R/serialization.R
index ead94f2..c041ad9 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -149,7 +149,7 @@ CppJson <- R6::R6Class(
             for (i in 1:length(field_list)) {
                 vec_name <- list_names[i]
                 vec <- field_list[[i]]
-                json_add_vector_subfolder_cpp(self$json_ptr, field_name, vec_name, vec)
+                json_add_vector_subfolder_cpp(self$json_ptr, field_name, vec_name, as.numeric(vec))
             }
         }, 
         
-- 
2.43.0


From 413d59c1add7cf6e71b99d46ccd4b6c924ddb65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 21/75] fix: CppJson load_from_file refreshes the counts and
 labels of forests and random effects

---
 R/serialization.R | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/R/serialization.R b/R/serialization.R
index c041ad9..bb69071 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -290,6 +290,20 @@ CppJson <- R6::R6Class(
         #' @return NULL
         load_from_file = function(filename) {
             json_load_cpp(self$json_ptr, filename)
+            
+            # Refresh the counts and labels to match the contents of the file
+            field_count <- function(field_name) {
+                if (json_contains_field_cpp(self$json_ptr, field_name)) json_extract_double_cpp(self$json_ptr, field_name) else 0
+            }
+            field_labels <- function(prefix, count) {
+                if (count > 0) paste0(prefix, seq_len(count) - 1) else c()
+            }
+            self$num_forests <- field_count("num_forests")
+            self$forest_labels <- field_labels("forest_", self$num_forests)
+            self$num_rfx <- field_count("num_random_effects")
+            self$rfx_container_labels <- field_labels("random_effect_container_", self$num_rfx)
+            self$rfx_mapper_labels <- field_labels("random_effect_label_mapper_", self$num_rfx)
+            self$rfx_groupid_labels <- field_labels("random_effect_groupids_", self$num_rfx)
         }
     )
 )
-- 
2.43.0


From 19a25bda3c8a58134283f8ecd771d10e0f606c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 22/75] fix: read variance weights and outcomes of any memory
 layout correctly

---
 stochtree/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/data.py b/stochtree/data.py
index 20b01e6..dae3c3d 100644
--- a/stochtree/data.py
+++ b/stochtree/data.py
@@ -41,10 +41,12 @@ class Dataset:
         Add variance weights to a dataset
         """
         n = variance_weights.size
-        self.dataset_cpp.AddVarianceWeights(variance_weights, n)
+        weights_contiguous = np.ascontiguousarray(variance_weights)
+        self.dataset_cpp.AddVarianceWeights(weights_contiguous, n)
 
 class Residual:
     def __init__(self, residual: np.array) -> None:
         # Initialize a ResidualCpp object
         n = residual.size
-        self.residual_cpp = ResidualCpp(residual, n)
+        residual_contiguous = np.ascontiguousarray(residual)
+        self.residual_cpp = ResidualCpp(residual_contiguous, n)
-- 
2.43.0


From bf649932b4f4ba205416886530c87552cfc82ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 23/75] fix: CovariateTransformer one-hot encodes string
 columns and passes integer columns through

---
 stochtree/preprocessing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..5bb4373 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -32,8 +32,11 @@ class CovariateTransformer:
     
     def _process_unordered_categorical(self, covariate: pd.Series) -> int:
         num_onehot = len(self._onehot_encoders)
-        category_list = covariate.array.categories.to_list()
-        enc = OneHotEncoder(categories=[category_list], sparse_output=False)
+        if isinstance(covariate.dtype, pd.CategoricalDtype):
+            category_list = covariate.array.categories.to_list()
+            enc = OneHotEncoder(categories=[category_list], sparse_output=False)
+        else:
+            enc = OneHotEncoder(sparse_output=False)
         enc.fit(pd.DataFrame(covariate))
         self._onehot_encoders.append(enc)
         return num_onehot
@@ -62,7 +65,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
-- 
2.43.0


From 59ca518bd239f76c0f19a58b46de67f9ec10c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 24/75] fix: CovariateTransformer encodes categories with a
 single level

---
 stochtree/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 5bb4373..8629263 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -181,14 +181,14 @@ class CovariateTransformer:
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
                     covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
-                    output_array[:,output_iter] = np.squeeze(covariate_transformed)
+                    output_array[:,output_iter] = covariate_transformed[:,0]
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
                     covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
                     output_dim = covariate_transformed.shape[1]
-                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = np.squeeze(covariate_transformed)
+                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
                     self._original_feature_indices.extend([i for _ in range(output_dim)])
             
-- 
2.43.0


From 2284d597da8fa1ce65e705ef9f00198e8e76d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 25/75] fix: refitting a CovariateTransformer forgets the
 earlier fit

---
 stochtree/preprocessing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 8629263..15c620c 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -160,6 +160,12 @@ class CovariateTransformer:
                 self._processed_feature_types.append(0)
 
     def _fit(self, covariates: Union[pd.DataFrame, np.array]) -> None:
+        # Forget everything learned by an earlier fit
+        self._is_fitted = False
+        self._ordinal_encoders = []
+        self._onehot_encoders = []
+        self._processed_feature_types = []
+        self._original_feature_indices = []
         if isinstance(covariates, pd.DataFrame):
             self._fit_pandas(covariates)
         elif isinstance(covariates, np.ndarray):
-- 
2.43.0


From 25a6fed8b1de824b4ff1dc3c4413805da0734d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 26/75] fix: CovariateTransformer rejects non-numeric numpy
 arrays as documented

---
 stochtree/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 15c620c..37891a4 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -142,7 +142,7 @@ class CovariateTransformer:
         # Check whether the array is numeric
         cov_dtype = covariates.dtype
         if len(cov_dtype) == 0:
-            array_numeric = True
+            array_numeric = self._check_is_numeric_dtype(cov_dtype)
         else:
             array_numeric = True
             for i in range(len(cov_dtype)):
-- 
2.43.0


From 632bab15b17dce24f1dca285a3d135c526f8a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 27/75] fix: CovariateTransformer encodes numeric categories in
 any declared order

---
 stochtree/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 37891a4..73495f3 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -37,7 +37,7 @@ class CovariateTransformer:
             enc = OneHotEncoder(categories=[category_list], sparse_output=False)
         else:
             enc = OneHotEncoder(sparse_output=False)
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate.astype(object)))
         self._onehot_encoders.append(enc)
         return num_onehot
     
@@ -45,7 +45,7 @@ class CovariateTransformer:
         num_ord = len(self._ordinal_encoders)
         category_list = covariate.array.categories.to_list()
         enc = OrdinalEncoder(categories=[category_list])
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate.astype(object)))
         self._ordinal_encoders.append(enc)
         return num_ord
 
@@ -186,13 +186,13 @@ class CovariateTransformer:
             if self._original_feature_types[i] == "category" or self._original_feature_types[i] == "string":
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
-                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate.astype(object)))
                     output_array[:,output_iter] = covariate_transformed[:,0]
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
-                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate.astype(object)))
                     output_dim = covariate_transformed.shape[1]
                     output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
-- 
2.43.0


From 8e43a5335ea031321f8214e62ec9c412df0e5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 28/75] fix: one-hot encode variables with a single level,
 without known test levels, or with missing values (R)

---
 R/utils.R | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index 7afffe2..0c99a5f 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -562,7 +562,7 @@ oneHotInitializeAndEncode <- function(x_input) {
     if (is.factor(x_input) && is.ordered(x_input)) warning("One-hot encoding an ordered categorical variable")
     x_factor <- factor(x_input)
     unique_levels <- levels(x_factor)
-    Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+    Xtilde <- oneHotEncode(x_input, unique_levels)
     output <- list(Xtilde = Xtilde, unique_levels = unique_levels)
     return(output)
 }
@@ -594,20 +594,9 @@ oneHotEncode <- function(x_input, unique_levels) {
     stopifnot((is.null(dim(x_input)) && length(x_input) > 0))
     stopifnot((is.null(dim(unique_levels)) && length(unique_levels) > 0))
     num_unique_levels <- length(unique_levels)
-    in_sample <- x_input %in% unique_levels
-    out_of_sample <- !(x_input %in% unique_levels)
-    has_out_of_sample <- sum(out_of_sample) > 0
-    if (has_out_of_sample) {
-        x_factor_insample <- factor(x_input[in_sample], levels = unique_levels)
-        Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
-        Xtilde_insample <- cbind(unname(model.matrix(~0+x_factor_insample)), 0)
-        Xtilde_out_of_sample <- cbind(matrix(0, nrow=sum(out_of_sample), ncol=num_unique_levels), 1)
-        Xtilde[in_sample,] <- Xtilde_insample
-        Xtilde[out_of_sample,] <- Xtilde_out_of_sample
-    } else {
-        x_factor <- factor(x_input, levels = unique_levels)
-        Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
-    }
+    matched_column <- match(x_input, unique_levels, nomatch = num_unique_levels + 1)
+    Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
+    Xtilde[cbind(seq_along(x_input), matched_column)] <- 1
     return(Xtilde)
 }
 
-- 
2.43.0


From f55a000f2a4e2d29baf7065ae59b39282231d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 29/75] fix: preprocessTrainMatrix names one variable per
 column and returns the matrix unmodified

---
 R/utils.R | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index 0c99a5f..63bca2f 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -81,12 +81,10 @@ preprocessTrainMatrix <- function(input_matrix) {
     }
     
     # Unpack metadata (assuming all variables are numeric)
-    names(input_matrix) <- paste0("x", 1:ncol(input_matrix))
-    df_vars <- names(input_matrix)
     num_ordered_cat_vars <- 0
     num_unordered_cat_vars <- 0
     num_numeric_vars <- ncol(input_matrix)
-    numeric_vars <- names(input_matrix)
+    numeric_vars <- paste0("x", 1:ncol(input_matrix))
     feature_types <- rep(0, ncol(input_matrix))
 
     # Unpack data
-- 
2.43.0


From fdbb662bb42fdaa19050d9e72513cec8678f2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 30/75] fix: refuse a prediction matrix when the train set had
 categorical variables (R)

---
 R/utils.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/utils.R b/R/utils.R
index 63bca2f..ae1ad12 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -126,6 +126,9 @@ preprocessPredictionMatrix <- function(input_matrix, metadata) {
     if (!is.matrix(input_matrix)) {
         stop("covariates provided must be a matrix")
     }
+    if ((metadata$num_ordered_cat_vars > 0) || (metadata$num_unordered_cat_vars > 0)) {
+        stop("Prediction set covariates must be a dataframe when the train set included categorical variables")
+    }
     if (!(ncol(input_matrix) == metadata$num_numeric_vars)) {
         stop("Prediction set covariates have inconsistent dimension from train set covariates")
     }
-- 
2.43.0


From 0bcf62a810af622e9775fea8fdf08402f29c09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 31/75] fix: BARTModel calibrates sigma2 when lamb is given and
 when covariates are collinear

---
 stochtree/bart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..c33f032 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -172,10 +172,12 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            # NOTE: lstsq does not report residuals if the regression is rank-deficient (e.g. one-hot encoded covariates)
+            sigma2hat = np.mean(np.square(np.squeeze(resid_train) - np.dot(reg_basis, reg_soln[0])))
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From b8d29f1e398d56a25393b30b3de410a376f979b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 32/75] fix: BARTModel accepts keep_gfr / keep_burnin when
 there are no such samples

---
 stochtree/bart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index c33f032..6b0c620 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -288,11 +288,11 @@ class BARTModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
-- 
2.43.0


From 28668552552efaa7ffa7f9e83efcaa543cb85406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 33/75] fix: BARTModel.predict preprocesses covariates as
 sample does

---
 stochtree/bart.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 6b0c620..dc78dc9 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -336,8 +336,9 @@ class BARTModel:
             raise NotSampledError(msg)
         
         # Convert everything to standard shape (2-dimensional)
-        if covariates.ndim == 1:
-            covariates = np.expand_dims(covariates, 1)
+        if isinstance(covariates, np.ndarray):
+            if covariates.ndim == 1:
+                covariates = np.expand_dims(covariates, 1)
         if basis is not None:
             if basis.ndim == 1:
                 basis = np.expand_dims(basis, 1)
@@ -346,9 +347,12 @@ class BARTModel:
         if basis is not None:
             if basis.shape[0] != covariates.shape[0]:
                 raise ValueError("covariates and basis must have the same number of rows")
+        
+        # Covariate preprocessing
+        covariates_processed = self._covariate_transformer.transform(covariates)
 
         pred_dataset = Dataset()
-        pred_dataset.add_covariates(covariates)
+        pred_dataset.add_covariates(covariates_processed)
         if basis is not None:
             pred_dataset.add_basis(basis)
         pred_raw = self.forest_container.forest_container_cpp.Predict(pred_dataset.dataset_cpp)
-- 
2.43.0


From e43b2e0ee36f715071b31c46c7d4244c9444a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 34/75] fix: BARTModel samples with a multi-column basis

---
 stochtree/bart.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index dc78dc9..ae0f1f0 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -184,7 +184,12 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        if self.num_basis > 1:
+            if sample_sigma_leaf:
+                raise ValueError("sample_sigma_leaf must be False if basis_train has more than one column")
+            current_leaf_scale = np.diag(np.repeat(sigma_leaf, self.num_basis))
+        else:
+            current_leaf_scale = np.array([[sigma_leaf]])
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
@@ -240,8 +245,10 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
+        if self.num_basis > 1:
+            init_root = np.repeat(init_root, self.num_basis)
         self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, True)
 
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-- 
2.43.0


From 0ca32c7315c116902414b95e34986e19ce173b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 35/75] fix: BCFModel calibrates sigma2 when lamb is given and
 when covariates are collinear

---
 stochtree/bcf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..1da9ab3 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -505,10 +505,12 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            # NOTE: lstsq does not report residuals if the regression is rank-deficient (e.g. one-hot encoded covariates)
+            sigma2hat = np.mean(np.square(np.squeeze(resid_train) - np.dot(reg_basis, reg_soln[0])))
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From 270a47ce53f4f08135cae13e183e7479d768f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 36/75] fix: BCFModel accepts keep_gfr / keep_burnin when there
 are no such samples

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 1da9ab3..5f258f4 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -758,11 +758,11 @@ class BCFModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
-- 
2.43.0


From 9d3cf983c63f810f9a2c354801056095418a8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 37/75] fix: BCFModel estimates propensities when a test set is
 given

---
 stochtree/bcf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 5f258f4..b4b403f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,7 +488,6 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-- 
2.43.0


From 802eda6c922aa20a7999c466158eaca374845640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 38/75] fix: BCFModel applies each forest's keep / drop
 variable list, in every documented form

---
 stochtree/bcf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b4b403f..fadd27d 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -341,7 +341,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_mu]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -351,10 +351,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_mu]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -378,18 +378,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if all(isinstance(i, str) for i in drop_vars_mu):
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -409,10 +409,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if all(isinstance(i, str) for i in keep_vars_tau):
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_tau]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -436,18 +436,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if all(isinstance(i, str) for i in drop_vars_tau):
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
@@ -533,10 +533,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = variable_weights.copy()
+        variable_weights_mu = variable_weights.copy()
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From c82d6360563207c325d4bed8e5f537e3466e448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 39/75] fix: BCFModel describes every propensity column to the
 samplers

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index fadd27d..dae7226 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -542,7 +542,7 @@ class BCFModel:
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
             raise ValueError("propensity_covariate must equal one of 'none', 'mu', 'tau', or 'both'")
         if propensity_covariate != "none":
-            feature_types = np.append(feature_types, 0).astype('int')
+            feature_types = np.append(feature_types, np.repeat(0, pi_train.shape[1])).astype('int')
             X_train_processed = np.c_[X_train_processed, pi_train]
             if self.has_test:
                 X_test_processed = np.c_[X_test_processed, pi_test]
-- 
2.43.0


From 71349262336608d23791fc625b194378760a2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 40/75] fix: BCFModel multiplies treatment and effect row by
 row, for one retained sample and in predict

---
 stochtree/bcf.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index dae7226..c10f78d 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -784,10 +784,7 @@ class BCFModel:
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
-        if self.multivariate_treatment:
-            treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
-        else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+        treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -798,10 +795,7 @@ class BCFModel:
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
-            if self.multivariate_treatment:
-                treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
-            else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+            treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
@@ -955,7 +949,7 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        yhat_x = mu_x + np.multiply(np.atleast_3d(Z).swapaxes(1,2),tau_x).sum(axis=2)
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From d28a05d5fc200362d54bc4929d6a3a75da69d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 41/75] fix: BCFModel.predict and predict_tau preprocess
 covariates as sample does

---
 stochtree/bcf.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index c10f78d..3790e84 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -823,8 +823,9 @@ class BCFModel:
             raise NotSampledError(msg)
         
         # Convert everything to standard shape (2-dimensional)
-        if X.ndim == 1:
-            X = np.expand_dims(X, 1)
+        if isinstance(X, np.ndarray):
+            if X.ndim == 1:
+                X = np.expand_dims(X, 1)
         if Z.ndim == 1:
             Z = np.expand_dims(Z, 1)
         if propensity is not None:
@@ -837,7 +838,12 @@ class BCFModel:
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
-        else:
+        
+        # Covariate preprocessing
+        X = self._covariate_transformer.transform(X)
+        
+        # Propensity scores
+        if propensity is None:
             if self.propensity_covariate == "tau":
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
@@ -893,8 +899,9 @@ class BCFModel:
             raise NotSampledError(msg)
         
         # Convert everything to standard shape (2-dimensional)
-        if X.ndim == 1:
-            X = np.expand_dims(X, 1)
+        if isinstance(X, np.ndarray):
+            if X.ndim == 1:
+                X = np.expand_dims(X, 1)
         if Z.ndim == 1:
             Z = np.expand_dims(Z, 1)
         if propensity is not None:
@@ -907,7 +914,12 @@ class BCFModel:
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
-        else:
+        
+        # Covariate preprocessing
+        X = self._covariate_transformer.transform(X)
+        
+        # Propensity scores
+        if propensity is None:
             if self.propensity_covariate != "none":
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
-- 
2.43.0


From 5b1edac0b2c262f92f8b3361931f4304c4d3f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 42/75] fix: BCFModel.predict_tau includes the propensity when
 both forests use it

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 3790e84..7bd96b3 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -844,14 +844,14 @@ class BCFModel:
         
         # Propensity scores
         if propensity is None:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ["tau", "both"]:
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From 29599db9e8928f53211c25a6ab6cca8e3213450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 43/75] fix: BCFModel's adaptive coding is ignored for
 two-valued treatments other than 0/1, as in R

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 7bd96b3..3ab302a 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -470,8 +470,8 @@ class BCFModel:
         self.n_test = X_test.shape[0] if self.has_test else 0
         self.p_x = X_train_processed.shape[1]
 
-        # Check whether treatment is binary
-        self.binary_treatment = np.unique(Z_train).size == 2
+        # Check whether treatment is binary (specifically 0-1 binary)
+        self.binary_treatment = np.array_equal(np.unique(Z_train), [0, 1])
 
         # Adaptive coding will be ignored for continuous / ordered categorical treatments
         self.adaptive_coding = adaptive_coding
-- 
2.43.0


From 6440452bca89d066c09262a7317ce490f5e09754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 44/75] fix: BCFModel refuses to estimate propensities for
 multivariate treatments

---
 stochtree/bcf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 3ab302a..5736c49 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -486,6 +486,8 @@ class BCFModel:
 
         # Check if user has provided propensities that are needed in the model
         if pi_train is None and propensity_covariate != "none":
+            if self.multivariate_treatment:
+                raise ValueError("Propensities must be provided (via pi_train) or omitted (propensity_covariate = 'none') for multivariate treatments")
             self.bart_propensity_model = BARTModel()
             if self.has_test:
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
-- 
2.43.0


From 5f6e34c98e4a8435ba58b1eb2cd7ac6f4d4c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 45/75] fix: BCFModel does not overwrite the sigma_leaf_tau
 array passed in

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 5736c49..476d75f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -527,7 +527,7 @@ class BCFModel:
         if not isinstance(sigma_leaf_tau, np.ndarray):
             current_leaf_scale_tau = np.array([[sigma_leaf_tau]])
         else:
-            current_leaf_scale_tau = sigma_leaf_tau
+            current_leaf_scale_tau = np.copy(sigma_leaf_tau)
 
         # Update variable weights
         variable_counts = [original_var_indices.count(i) for i in original_var_indices]
-- 
2.43.0


From e44f995f0c07e9b77b037d8a3fa7c3106a9f0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 46/75] fix: BCFModel's residual reflects newly sampled
 treatment coding parameters

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 476d75f..392c3e5 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -690,7 +690,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Update the residual to reflect the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -746,7 +749,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Update the residual to reflect the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From 013ebf4c300381e62308393d6dfee302d7fbe369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 47/75] fix: BCFModel's propensity model and coding parameters
 follow random_seed

---
 stochtree/bcf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 392c3e5..1aab426 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -489,12 +489,13 @@ class BCFModel:
             if self.multivariate_treatment:
                 raise ValueError("Propensities must be provided (via pi_train) or omitted (propensity_covariate = 'none') for multivariate treatments")
             self.bart_propensity_model = BARTModel()
+            bart_seed = -1 if random_seed is None else random_seed
             if self.has_test:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=bart_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
             else:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=bart_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
             self.internal_propensity_model = True
         else:
@@ -615,6 +616,8 @@ class BCFModel:
             cpp_rng = RNG(-1)
         else:
             cpp_rng = RNG(random_seed)
+            if random_seed >= 0:
+                self.rng = np.random.default_rng(random_seed)
         
         # Sampling data structures
         forest_sampler_mu = ForestSampler(forest_dataset_train, feature_types, num_trees_mu, self.n_train, alpha_mu, beta_mu, min_samples_leaf_mu)
-- 
2.43.0


From 83f2439719b38974513acc7e26781431067352d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 48/75] fix: bart() passes a full leaf covariance for
 multivariate leaf regression

---
 R/bart.R | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index c9c9e05..31ca7a3 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -224,7 +224,6 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     if (is.null(sigma2_init)) sigma2_init <- sigma2hat
     if (is.null(b_leaf)) b_leaf <- var(resid_train)/(2*num_trees)
     if (is.null(tau_init)) tau_init <- var(resid_train)/(num_trees)
-    current_leaf_scale <- as.matrix(tau_init)
     current_sigma2 <- sigma2_init
     
     # Determine leaf model type
@@ -255,6 +254,13 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
         }
     }
     
+    # Leaf scale is a covariance matrix of the same dimension as the leaf parameters
+    if (is.null(dim(tau_init)) || (length(tau_init) == 1)) {
+        current_leaf_scale <- diag(as.numeric(tau_init), output_dimension, output_dimension)
+    } else {
+        current_leaf_scale <- as.matrix(tau_init)
+    }
+    
     # Data
     if (leaf_regression) {
         forest_dataset_train <- createForestDataset(X_train, W_train)
-- 
2.43.0


From acc4ddfd3399f9b24e5f3f00f1179d33066920f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 49/75] fix: bart() and bcf() accept test set group labels for
 intercept-only random effects

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 31ca7a3..19b2652 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -191,7 +191,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
diff --git a/R/bcf.R b/R/bcf.R
index 3425e96..d2c3e15 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -331,7 +331,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
-- 
2.43.0


From f6c36a49646931d16cac85fce7accbde98b95840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 50/75] fix: bart() and bcf() retain GFR, burn-in and MCMC
 draws in sampling order, and only those drawn

---
 R/bart.R | 4 ++--
 R/bcf.R  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 19b2652..8dce922 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -408,8 +408,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_burnin) && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_gfr) && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
diff --git a/R/bcf.R b/R/bcf.R
index d2c3e15..01cc261 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -730,8 +730,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_burnin) && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_gfr) && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From ecd1961fb887ac6d18339736512e302d0433af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 51/75] fix: bart(), bcf() and their predict methods return
 matrices when one sample is retained

---
 R/bart.R | 12 ++++++------
 R/bcf.R  | 24 ++++++++++++------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 8dce922..93b03ee 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -427,14 +427,14 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     
     # Subset forest and RFX predictions
-    y_hat_train <- y_hat_train[,keep_indices]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        y_hat_test <- y_hat_test[,keep_indices]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -611,8 +611,8 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bart$keep_indices
-        forest_predictions <- forest_predictions[,keep_indices]
-        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        forest_predictions <- forest_predictions[,keep_indices,drop=FALSE]
+        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bart$model_params$has_rfx) {
diff --git a/R/bcf.R b/R/bcf.R
index 01cc261..c546ae9 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -749,18 +749,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     
     # Subset forest and RFX predictions
-    mu_hat_train <- mu_hat_train[,keep_indices]
-    tau_hat_train <- tau_hat_train[,keep_indices]
-    y_hat_train <- y_hat_train[,keep_indices]
+    mu_hat_train <- mu_hat_train[,keep_indices,drop=FALSE]
+    tau_hat_train <- tau_hat_train[,keep_indices,drop=FALSE]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -997,10 +997,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bcf$keep_indices
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
-        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
+        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bcf$model_params$has_rfx) {
-- 
2.43.0


From bce0e87497924b693be8b93b451da844725a69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 52/75] fix: predict.bartmodel reads the random effects labels
 of the model it was given

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index 93b03ee..a1c1ec2 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -580,7 +580,7 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
     if (!is.null(group_ids_test)) {
-        rfx_unique_group_ids <- bcf$rfx_unique_group_ids
+        rfx_unique_group_ids <- bart$rfx_unique_group_ids
         group_ids_factor_test <- factor(group_ids_test, levels = rfx_unique_group_ids)
         if (sum(is.na(group_ids_factor_test)) > 0) {
             stop("All random effect group labels provided in group_ids_test must be present in group_ids_train")
-- 
2.43.0


From 85f63a02cb23b2afe4a44305afb6e492f81952b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 53/75] fix: bcf() accepts random effects labels without a
 basis

---
 R/bcf.R | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index c546ae9..e59d31a 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -296,16 +296,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
 
-    # Random effects covariance prior
-    if (has_rfx) {
-        if (is.null(rfx_prior_var)) {
-            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
-        } else {
-            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
-            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
-        }
-    }
-    
     # Update variable weights
     variable_weights_adj <- 1/sapply(original_var_indices, function(x) sum(original_var_indices == x))
     variable_weights <- variable_weights[original_var_indices]*variable_weights_adj
@@ -338,6 +328,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
     
+    # Random effects covariance prior
+    if (has_rfx) {
+        if (is.null(rfx_prior_var)) {
+            rfx_prior_var <- rep(1, num_rfx_components)
+        } else {
+            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
+            if (length(rfx_prior_var) != num_rfx_components) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
+        }
+    }
+
     # Check that number of samples are all nonnegative
     stopifnot(num_gfr >= 0)
     stopifnot(num_burnin >= 0)
-- 
2.43.0


From 3bbd764f93aefef8ccacccaa3b31e14a5dc1f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 54/75] fix: bcf() builds a 1x1 random effects prior covariance
 from a scalar variance

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index e59d31a..a648fde 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -442,7 +442,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             xi_init[,i] <- unname(coef(rfx_group_model))
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
-        sigma_xi_init <- diag(rfx_prior_var)
+        sigma_xi_init <- diag(as.numeric(rfx_prior_var), num_rfx_components, num_rfx_components)
         sigma_xi_shape <- 1
         sigma_xi_scale <- 1
     }
-- 
2.43.0


From 12efacd2a0a1849600b34a65100d2570a9a0bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 55/75] fix: bcf() initializes random effects for groups whose
 basis is rank deficient

---
 R/bcf.R | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index a648fde..8f227eb 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -436,10 +436,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         xi_init <- matrix(0,num_rfx_components,num_rfx_groups)
         for (i in 1:num_rfx_groups) {
             group_subset_indices <- group_ids_train == i
-            basis_group <- rfx_basis_train[group_subset_indices,]
+            basis_group <- rfx_basis_train[group_subset_indices,,drop=FALSE]
             resid_group <- resid_train[group_subset_indices]
             rfx_group_model <- lm(resid_group ~ 0+basis_group)
-            xi_init[,i] <- unname(coef(rfx_group_model))
+            xi_init_group <- unname(coef(rfx_group_model))
+            # Coefficients that are not identified in this group's data are initialized at 0
+            xi_init_group[is.na(xi_init_group)] <- 0
+            xi_init[,i] <- xi_init_group
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
         sigma_xi_init <- diag(as.numeric(rfx_prior_var), num_rfx_components, num_rfx_components)
-- 
2.43.0


From 28be0aebf34cac02a0c9e6770e7cb8c4ab07cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 56/75] fix: bcf() estimates propensities when none are given,
 without changing the requested burn-in

---
 R/bcf.R | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 8f227eb..17b14f0 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -371,12 +371,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Estimate if pre-estimated propensity score is not provided
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
-        num_burnin <- 10
-        num_total <- 50
+        num_burnin_propensity <- 10
+        num_total_propensity <- 50
+        propensity_indices <- (num_burnin_propensity+1):num_total_propensity
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
-        pi_train <- rowMeans(bart_model_propensity$y_hat_train[(num_burnin+1):num_total])
-        if (has_test) pi_test <- rowMeans(bart_model_propensity$y_hat_test[,(num_burnin+1):num_total])
+                                      num_gfr = num_total_propensity, num_burnin = 0, num_mcmc = 0)
+        pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices]))
+        if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices]))
     }
 
     if (has_test) {
-- 
2.43.0


From ff9c339dc96198f34241257b01ebe571060771da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 57/75] fix: bcf()'s internal propensity model follows
 random_seed

---
 R/bcf.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 17b14f0..e9e7231 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -375,7 +375,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         num_total_propensity <- 50
         propensity_indices <- (num_burnin_propensity+1):num_total_propensity
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total_propensity, num_burnin = 0, num_mcmc = 0)
+                                      num_gfr = num_total_propensity, num_burnin = 0, num_mcmc = 0, 
+                                      random_seed = random_seed)
         pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices]))
         if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices]))
     }
-- 
2.43.0


From f03af1c84ef69bf9aa9413900286a100d9e8c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 58/75] fix: bcf() accepts a test set without propensities when
 no forest uses them

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index e9e7231..043d751 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -381,7 +381,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices]))
     }
 
-    if (has_test) {
+    if ((has_test) && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
     }
     
-- 
2.43.0


From 3565b6142517858e4e07d799f3e7410e0a476b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 59/75] fix: bcf() describes every propensity column to the
 samplers

---
 R/bcf.R | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 043d751..5163c4b 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -387,13 +387,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     
     # Update feature_types and covariates
     if (propensity_covariate != "none") {
-        feature_types <- as.integer(c(feature_types,0))
+        feature_types <- c(feature_types, rep(0, ncol(pi_train)))
         X_train <- cbind(X_train, pi_train)
         if (propensity_covariate == "mu") {
             variable_weights_mu <- c(variable_weights_mu, rep(1./num_cov_orig, ncol(pi_train)))
-            variable_weights_tau <- c(variable_weights_tau, 0)
+            variable_weights_tau <- c(variable_weights_tau, rep(0, ncol(pi_train)))
         } else if (propensity_covariate == "tau") {
-            variable_weights_mu <- c(variable_weights_mu, 0)
+            variable_weights_mu <- c(variable_weights_mu, rep(0, ncol(pi_train)))
             variable_weights_tau <- c(variable_weights_tau, rep(1./num_cov_orig, ncol(pi_train)))
         } else if (propensity_covariate == "both") {
             variable_weights_mu <- c(variable_weights_mu, rep(1./num_cov_orig, ncol(pi_train)))
@@ -401,6 +401,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
         if (has_test) X_test <- cbind(X_test, pi_test)
     }
+    feature_types <- as.integer(feature_types)
     
     # Renormalize variable weights
     variable_weights_mu <- variable_weights_mu / sum(variable_weights_mu)
-- 
2.43.0


From 6282f5d3e66880c73bda8262ff7acfbc83ad4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 60/75] fix: bcf()'s keep / drop lists find the named columns
 of a matrix

---
 R/bcf.R | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 5163c4b..74ec072 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -144,10 +144,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Standardize the keep variable lists to numeric indices
     if (!is.null(keep_vars_mu)) {
         if (is.character(keep_vars_mu)) {
-            if (!all(keep_vars_mu %in% names(X_train))) {
+            if (!all(keep_vars_mu %in% colnames(X_train))) {
                 stop("keep_vars_mu includes some variable names that are not in X_train")
             }
-            variable_subset_mu <- unname(which(names(X_train) %in% keep_vars_mu))
+            variable_subset_mu <- unname(which(colnames(X_train) %in% keep_vars_mu))
         } else {
             if (any(keep_vars_mu > ncol(X_train))) {
                 stop("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -159,10 +159,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     } else if ((is.null(keep_vars_mu)) && (!is.null(drop_vars_mu))) {
         if (is.character(drop_vars_mu)) {
-            if (!all(drop_vars_mu %in% names(X_train))) {
+            if (!all(drop_vars_mu %in% colnames(X_train))) {
                 stop("drop_vars_mu includes some variable names that are not in X_train")
             }
-            variable_subset_mu <- unname(which(!(names(X_train) %in% drop_vars_mu)))
+            variable_subset_mu <- unname(which(!(colnames(X_train) %in% drop_vars_mu)))
         } else {
             if (any(drop_vars_mu > ncol(X_train))) {
                 stop("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -177,10 +177,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (!is.null(keep_vars_tau)) {
         if (is.character(keep_vars_tau)) {
-            if (!all(keep_vars_tau %in% names(X_train))) {
+            if (!all(keep_vars_tau %in% colnames(X_train))) {
                 stop("keep_vars_tau includes some variable names that are not in X_train")
             }
-            variable_subset_tau <- unname(which(names(X_train) %in% keep_vars_tau))
+            variable_subset_tau <- unname(which(colnames(X_train) %in% keep_vars_tau))
         } else {
             if (any(keep_vars_tau > ncol(X_train))) {
                 stop("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -192,10 +192,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     } else if ((is.null(keep_vars_tau)) && (!is.null(drop_vars_tau))) {
         if (is.character(drop_vars_tau)) {
-            if (!all(drop_vars_tau %in% names(X_train))) {
+            if (!all(drop_vars_tau %in% colnames(X_train))) {
                 stop("drop_vars_tau includes some variable names that are not in X_train")
             }
-            variable_subset_tau <- unname(which(!(names(X_train) %in% drop_vars_tau)))
+            variable_subset_tau <- unname(which(!(colnames(X_train) %in% drop_vars_tau)))
         } else {
             if (any(drop_vars_tau > ncol(X_train))) {
                 stop("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
-- 
2.43.0


From 51b165e36efa5d55852c5cc478762dd28f24fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 61/75] fix: bcf()'s residual reflects newly sampled treatment
 coding parameters

---
 R/bcf.R | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 74ec072..bb65f65 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -574,17 +574,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 current_b_0 <- rnorm(1, (s_ty0/(s_tt0 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt0 + 2*current_sigma2)))
                 current_b_1 <- rnorm(1, (s_ty1/(s_tt1 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)))
                 
-                # Update basis for the leaf regression
+                # Update basis for the leaf regression, and with it the residual: remove the treatment 
+                # forest's prediction under the old coding and restore it under the new one
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
             }
             
             # Sample variance parameters (if requested)
@@ -672,18 +673,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 current_b_0 <- rnorm(1, (s_ty0/(s_tt0 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt0 + 2*current_sigma2)))
                 current_b_1 <- rnorm(1, (s_ty1/(s_tt1 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)))
                 
-                # Update basis for the leaf regression
+                # Update basis for the leaf regression, and with it the residual: remove the treatment 
+                # forest's prediction under the old coding and restore it under the new one
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
-                
             }
             
             # Sample variance parameters (if requested)
-- 
2.43.0


From c98accbff7da3615a7d91beb416e482388c041fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 62/75] fix: predict.bcf works for models without propensity
 covariates

---
 R/bcf.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index bb65f65..620d664 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -975,6 +975,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     } else if (bcf$model_params$propensity_covariate == "tau") {
         X_test_mu <- X_test
         X_test_tau <- cbind(X_test, pi_test)
+    } else {
+        X_test_mu <- X_test
+        X_test_tau <- X_test
     }
     
     # Create prediction datasets
-- 
2.43.0


From da2f7451b6b0aaf39796ce71ea2ed9b60c39cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 63/75] fix: predict.bcf compares like with like when checking
 the number of covariates

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 620d664..641a645 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -795,7 +795,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         "b_leaf_tau" = b_leaf_tau,
         "outcome_mean" = y_bar_train,
         "outcome_scale" = y_std_train, 
-        "num_covariates" = num_cov_orig,
+        "num_covariates" = length(original_var_indices),
         "num_prognostic_covariates" = sum(variable_weights_mu > 0),
         "num_treatment_covariates" = sum(variable_weights_tau > 0),
         "treatment_dim" = ncol(Z_train), 
-- 
2.43.0


From e9c604bb9d8e053fa400e6cfa2deafdf6a152a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 64/75] fix: extract_label_mapping returns the group each
 component index belongs to

---
 R/random_effects.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index dbcdbbb..7b219f8 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -117,7 +117,7 @@ RandomEffectSamples <- R6::R6Class(
         extract_label_mapping = function() {
             keys_and_vals <- rfx_label_mapper_to_list_cpp(self$label_mapper_ptr)
             result <- as.list(keys_and_vals[[2]] + 1)
-            setNames(result, keys_and_vals[[1]])
+            result <- setNames(result, keys_and_vals[[1]])
             return(result)
         }
     )
-- 
2.43.0


From 803abe29273894df8cf78dace0586045a8d08dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 65/75] fix: computeForestKernels works without a test set and
 for models trained on a matrix

---
 R/kernel.R | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index 5b19908..67b61cc 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -126,9 +126,9 @@ createForestKernel <- function() {
 #' same leaf.
 #'
 #' @param bart_model Object of type `bartmodel` corresponding to a BART model with at least one sample
-#' @param X_train "Training" dataframe. In a traditional Gaussian process kriging context, this 
+#' @param X_train "Training" dataframe or matrix. In a traditional Gaussian process kriging context, this 
 #' corresponds to the observations for which outcomes are observed.
-#' @param X_test (Optional) "Test" dataframe. In a traditional Gaussian process kriging context, this 
+#' @param X_test (Optional) "Test" dataframe or matrix. In a traditional Gaussian process kriging context, this 
 #' corresponds to the observations for which outcomes are unobserved and must be estimated 
 #' based on the kernels k(X_test,X_test), k(X_test,X_train), and k(X_train,X_train). If not provided, 
 #' this function will only compute k(X_train, X_train).
@@ -145,19 +145,19 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
     stopifnot(class(bart_model)=="bartmodel")
     
     # Preprocess covariates
-    if (!is.data.frame(X_train)) {
-        stop("X_train must be a dataframe")
+    if ((!is.data.frame(X_train)) && (!is.matrix(X_train))) {
+        stop("X_train must be a matrix or dataframe")
     }
-    if (!is.data.frame(X_test)) {
-        stop("X_test must be a dataframe")
+    if ((!is.null(X_test)) && (!is.data.frame(X_test)) && (!is.matrix(X_test))) {
+        stop("X_test must be a matrix or dataframe")
     }
     train_set_metadata <- bart_model$train_set_metadata
-    X_train <- preprocessPredictionDataFrame(X_train, train_set_metadata)
-    X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
+    X_train <- preprocessPredictionData(X_train, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
     # Data checks
     stopifnot(bart_model$model_params$num_covariates == ncol(X_train))
-    stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
+    if (!is.null(X_test)) stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
 
     # Initialize and compute kernel
     forest_kernel <- createForestKernel()
-- 
2.43.0


From 54aee87d854b0a34a7b43385201299952d901d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 66/75] fix: computeForestLeafIndices converts covariates the
 way the model was trained

---
 R/kernel.R | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index 67b61cc..36ebb2d 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -186,9 +186,9 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
 #' ensemble-based kernel for kriging.
 #'
 #' @param bart_model Object of type `bartmodel` corresponding to a BART model with at least one sample
-#' @param X_train Matrix of "training" data. In a traditional Gaussian process kriging context, this 
+#' @param X_train Dataframe or matrix of "training" data. In a traditional Gaussian process kriging context, this 
 #' corresponds to the observations for which outcomes are observed.
-#' @param X_test (Optional) Matrix of "test" data. In a traditional Gaussian process kriging context, this 
+#' @param X_test (Optional) Dataframe or matrix of "test" data. In a traditional Gaussian process kriging context, this 
 #' corresponds to the observations for which outcomes are unobserved and must be estimated 
 #' based on the kernels k(X_test,X_test), k(X_test,X_train), and k(X_train,X_train). If not provided, 
 #' this function will only compute k(X_train, X_train).
@@ -201,6 +201,23 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
 #' @export
 computeForestLeafIndices <- function(bart_model, X_train, X_test=NULL, forest_num=NULL) {
     stopifnot(class(bart_model)=="bartmodel")
+    
+    # Preprocess covariates
+    if ((!is.data.frame(X_train)) && (!is.matrix(X_train))) {
+        stop("X_train must be a matrix or dataframe")
+    }
+    if ((!is.null(X_test)) && (!is.data.frame(X_test)) && (!is.matrix(X_test))) {
+        stop("X_test must be a matrix or dataframe")
+    }
+    train_set_metadata <- bart_model$train_set_metadata
+    X_train <- preprocessPredictionData(X_train, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, train_set_metadata)
+    
+    # Data checks
+    stopifnot(bart_model$model_params$num_covariates == ncol(X_train))
+    if (!is.null(X_test)) stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
+    
+    # Initialize kernel object and compute leaf indices
     forest_kernel <- createForestKernel()
     num_samples <- bart_model$model_params$num_samples
     stopifnot(forest_num <= num_samples)
-- 
2.43.0


From ce6f620d81ad36b8991883254acfbeb8d33ed276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 67/75] fix: computeForestKernels and computeForestLeafIndices
 reject a forest number below one

---
 R/kernel.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index 36ebb2d..03f321e 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -162,7 +162,7 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
     # Initialize and compute kernel
     forest_kernel <- createForestKernel()
     num_samples <- bart_model$model_params$num_samples
-    stopifnot(forest_num <= num_samples)
+    stopifnot(is.null(forest_num) || ((forest_num >= 1) && (forest_num <= num_samples)))
     sample_index <- ifelse(is.null(forest_num), num_samples-1, forest_num-1)
     return(forest_kernel$compute_kernel(
         covariates_train = X_train, covariates_test = X_test,
@@ -220,7 +220,7 @@ computeForestLeafIndices <- function(bart_model, X_train, X_test=NULL, forest_nu
     # Initialize kernel object and compute leaf indices
     forest_kernel <- createForestKernel()
     num_samples <- bart_model$model_params$num_samples
-    stopifnot(forest_num <= num_samples)
+    stopifnot(is.null(forest_num) || ((forest_num >= 1) && (forest_num <= num_samples)))
     sample_index <- ifelse(is.null(forest_num), num_samples-1, forest_num-1)
     return(forest_kernel$compute_leaf_indices(
         covariates_train = X_train, covariates_test = X_test,
-- 
2.43.0


From e25c68efa8bddcaaaafbcc8964416247b91b0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 68/75] fix: refuse a basis update with a different number of
 rows

---
 include/stochtree/data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/data.h b/include/stochtree/data.h
index 1d16e4f..bb86024 100644
--- a/include/stochtree/data.h
+++ b/include/stochtree/data.h
@@ -75,6 +75,7 @@ class ForestDataset {
   void UpdateBasis(double* data_ptr, data_size_t num_row, int num_col, bool is_row_major) {
     CHECK(has_basis_);
     CHECK_EQ(num_col, num_basis_);
+    CHECK_EQ(num_row, basis_.NumRows());
     // Copy data from R / Python process memory to Eigen matrix
     double temp_value;
     for (data_size_t i = 0; i < num_row; ++i) {
-- 
2.43.0


From e0c56d6d0eff432fdb0b345c585bdc405e153b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 69/75] fix: keep fractional and negative values of ordered
 features apart

---
 src/cutpoint_candidates.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index bb809f8..c6871f2 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -50,18 +50,18 @@ void FeatureCutpointGrid::CalculateStridesOrderedCategorical(Eigen::MatrixXd& co
     node_stride_begin_.push_back(node_begin);
     node_stride_length_.push_back(1);
     single_value = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
-    cutpoint_values_.push_back(static_cast<std::uint32_t>(single_value));
+    cutpoint_values_.push_back(single_value);
     return;
   }
 
   // Edge case 2: single category
-  std::uint32_t first_val = static_cast<std::uint32_t>(covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index));
-  std::uint32_t last_val = static_cast<std::uint32_t>(covariates(feature_node_sort_tracker->SortIndex(node_end - 1, feature_index), feature_index));
+  double first_val = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
+  double last_val = covariates(feature_node_sort_tracker->SortIndex(node_end - 1, feature_index), feature_index);
   if (last_val == first_val) {
     node_stride_begin_.push_back(node_begin);
     node_stride_length_.push_back(node_size);
     single_value = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
-    cutpoint_values_.push_back(static_cast<std::uint32_t>(single_value));
+    cutpoint_values_.push_back(single_value);
     return;
   }
   
-- 
2.43.0


From d3cdbce1df2f1b1d34e01214d002e93e33302cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 70/75] fix: BARTModel.sample refuses an empty schedule before
 touching the model

---
 stochtree/bart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index ae0f1f0..bf724ec 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -142,6 +142,8 @@ class BARTModel:
         if X_test is not None and basis_test is not None:
             if X_test.shape[0] != basis_test.shape[0]:
                 raise ValueError("X_test and basis_test must have the same number of rows")
+        if num_gfr + num_burnin + num_mcmc <= 0:
+            raise RuntimeError("There are no samples to retain!")
         
         # Covariate preprocessing
         self._covariate_transformer = CovariateTransformer()
-- 
2.43.0


From 9069847d00bf0d5011a598fd2aafdaee846aa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 71/75] fix: BARTModel.sample checks basis_test and
 sample_sigma_leaf before touching the model

---
 stochtree/bart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index bf724ec..068eb52 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -142,6 +142,10 @@ class BARTModel:
         if X_test is not None and basis_test is not None:
             if X_test.shape[0] != basis_test.shape[0]:
                 raise ValueError("X_test and basis_test must have the same number of rows")
+        if X_test is not None and basis_train is not None and basis_test is None:
+            raise ValueError("basis_test must be provided alongside X_test if basis_train is provided")
+        if basis_train is not None and basis_train.shape[1] > 1 and sample_sigma_leaf:
+            raise ValueError("sample_sigma_leaf must be False if basis_train has more than one column")
         if num_gfr + num_burnin + num_mcmc <= 0:
             raise RuntimeError("There are no samples to retain!")
         
@@ -187,8 +191,6 @@ class BARTModel:
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
         if self.num_basis > 1:
-            if sample_sigma_leaf:
-                raise ValueError("sample_sigma_leaf must be False if basis_train has more than one column")
             current_leaf_scale = np.diag(np.repeat(sigma_leaf, self.num_basis))
         else:
             current_leaf_scale = np.array([[sigma_leaf]])
-- 
2.43.0


From 9bed5fff3415046bd1a9fe3f1588d88d7d5b9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 72/75] fix: BCFModel.sample asks for Z_test alongside X_test
 before touching the model

---
 stochtree/bcf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 1aab426..c2da3fe 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -217,6 +217,8 @@ class BCFModel:
         if Z_test is not None:
             if Z_test.shape[1] != Z_train.shape[1]:
                 raise ValueError("Z_train and Z_test must have the same number of columns")
+        if X_test is not None and Z_test is None:
+            raise ValueError("Z_test must be provided alongside X_test")
         if Z_train.shape[0] != X_train.shape[0]:
             raise ValueError("X_train and Z_train must have the same number of rows")
         if y_train.shape[0] != X_train.shape[0]:
-- 
2.43.0


From 114a320ee11e12ffd6c1b2406647cbce4f8091f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 73/75] fix: BCFModel.predict refuses a treatment with another
 number of columns

---
 stochtree/bcf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index c2da3fe..57394bd 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -848,6 +848,8 @@ class BCFModel:
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have as many columns as the treatment used for sampling")
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
@@ -924,6 +926,8 @@ class BCFModel:
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have as many columns as the treatment used for sampling")
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
-- 
2.43.0


From 03965e574a36127b5ca43bc96112e991b809374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 74/75] fix: BCFModel.sample checks propensities and variable
 weights before touching the model

---
 stochtree/bcf.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 57394bd..9a7e57a 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -233,21 +233,29 @@ class BCFModel:
             if X_test.shape[0] != pi_test.shape[0]:
                 raise ValueError("X_test and pi_test must have the same number of rows")
         
+        if X_test is not None and pi_train is not None and propensity_covariate != "none":
+            if pi_test is None:
+                raise ValueError("pi_test must be provided alongside X_test if pi_train is provided")
+            if pi_test.shape[1] != pi_train.shape[1]:
+                raise ValueError("pi_train and pi_test must have the same number of columns")
+        if np.size(variable_weights) != num_cov_orig:
+            raise ValueError("variable_weights must have as many elements as X_train has columns")
+        
         # Treatment details
-        self.treatment_dim = Z_train.shape[1]
-        self.multivariate_treatment = True if self.treatment_dim > 1 else False
-        treatment_leaf_model = 2 if self.multivariate_treatment else 1
+        treatment_dim = Z_train.shape[1]
+        multivariate_treatment = True if treatment_dim > 1 else False
+        treatment_leaf_model = 2 if multivariate_treatment else 1
         
         # Check parameters
         if sigma_leaf_tau is not None:
             if not isinstance(sigma_leaf_tau, float) and not isinstance(sigma_leaf_tau, np.ndarray):
                 raise ValueError("sigma_leaf_tau must be a float or numpy array")
-            if self.multivariate_treatment:
+            if multivariate_treatment:
                 if sigma_leaf_tau is not None:
                     if isinstance(sigma_leaf_tau, np.ndarray):
                         if sigma_leaf_tau.ndim != 2:
                             raise ValueError("sigma_leaf_tau must be 2-dimensional if passed as a np.array")
-                        if self.treatment_dim != sigma_leaf_tau.shape[0] or self.treatment_dim != sigma_leaf_tau.shape[1]:
+                        if treatment_dim != sigma_leaf_tau.shape[0] or treatment_dim != sigma_leaf_tau.shape[1]:
                             raise ValueError("sigma_leaf_tau must have the same number of rows and columns, which must match Z_train.shape[1]")
         if sigma_leaf_mu is not None:
             sigma_leaf_mu = check_scalar(x=sigma_leaf_mu, name="sigma_leaf_mu", target_type=float, 
@@ -324,6 +332,8 @@ class BCFModel:
         if propensity_covariate is not None:
             if propensity_covariate not in ["mu", "tau", "both", "none"]:
                 raise ValueError("propensity_covariate must be one of 'mu', 'tau', 'both', or 'none'")
+        if pi_train is None and propensity_covariate != "none" and multivariate_treatment:
+            raise ValueError("Propensities must be provided (via pi_train) or omitted (propensity_covariate = 'none') for multivariate treatments")
         if b_0 is not None:
             b_0 = check_scalar(x=b_0, name="b_0", target_type=(float,int), 
                             min_val=None, max_val=None, include_boundaries="neither")
@@ -455,6 +465,10 @@ class BCFModel:
         else:
             variable_subset_tau = [i for i in range(X_train.shape[1])]
         
+        # Store treatment details
+        self.treatment_dim = treatment_dim
+        self.multivariate_treatment = multivariate_treatment
+        
         # Covariate preprocessing
         self._covariate_transformer = CovariateTransformer()
         self._covariate_transformer.fit(X_train)
@@ -488,8 +502,6 @@ class BCFModel:
 
         # Check if user has provided propensities that are needed in the model
         if pi_train is None and propensity_covariate != "none":
-            if self.multivariate_treatment:
-                raise ValueError("Propensities must be provided (via pi_train) or omitted (propensity_covariate = 'none') for multivariate treatments")
             self.bart_propensity_model = BARTModel()
             bart_seed = -1 if random_seed is None else random_seed
             if self.has_test:
-- 
2.43.0


From c4325b59b4be3f8c4a2c4135a4804f96ea618538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 75/75] fix: bcf() in R refuses mismatched variable weights,
 propensity widths and treatment widths

---
 R/bcf.R | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 641a645..62d55e5 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -140,6 +140,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
     num_cov_orig <- ncol(X_train)
+    if (length(variable_weights) != num_cov_orig) {
+        stop("length(variable_weights) must equal ncol(X_train)")
+    }
     
     # Standardize the keep variable lists to numeric indices
     if (!is.null(keep_vars_mu)) {
@@ -383,6 +386,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
 
     if ((has_test) && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
+        if (ncol(pi_test) != ncol(pi_train)) stop("pi_train and pi_test must have the same number of columns")
     }
     
     # Update feature_types and covariates
@@ -800,6 +804,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         "num_treatment_covariates" = sum(variable_weights_tau > 0),
         "treatment_dim" = ncol(Z_train), 
         "propensity_covariate" = propensity_covariate, 
+        "propensity_dim" = ncol(pi_train), 
         "binary_treatment" = binary_treatment, 
         "adaptive_coding" = adaptive_coding, 
         "num_samples" = num_samples, 
@@ -932,6 +937,12 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if ((bcf$model_params$propensity_covariate != "none") && (is.null(pi_test))) {
         stop("pi_test must be provided for this model")
     }
+    if ((bcf$model_params$propensity_covariate != "none") && (!is.null(bcf$model_params$propensity_dim)) && (ncol(pi_test) != bcf$model_params$propensity_dim)) {
+        stop("pi_test must have the same number of columns as the propensities used to train this model")
+    }
+    if (ncol(Z_test) != 1) {
+        stop("Z_test must have one column")
+    }
     if (nrow(X_test) != nrow(Z_test)) {
         stop("X_test and Z_test must have the same number of rows")
     }
-- 
2.43.0


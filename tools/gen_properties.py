#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A decision tree stays a well-formed binary tree under any history of edits",
 "After any sequence of tree edits (expanding a leaf with a numeric or categorical split, collapsing an internal node back to a leaf, setting leaf values, cloning, resetting, JSON reload), with node ids being recycled, the tree equals the abstract tree that sequence denotes: parent/child links, node types, split features, thresholds, category lists and leaf values (scalar or vector) are those last written, and a recycled node carries nothing over from its earlier life. The reported leaves, internal nodes, leaf-parents, node, leaf and split counts, depths and sums of squared leaf values are exactly those of the abstract tree. A clone is equal to, and independent of, its source; edits, resets and clones of one tree of a forest leave its other trees alone, a copied forest is equal to and independent of its source, and a forest's totals are the sums over its trees.",
 ["histories","inputs"],"Every sequence of edit operations up to a bounded depth, on every tree shape reached, for scalar and vector leaves.",
 "The only tree tests exercise a handful of fixed expansions; the id free-list, the per-node offset vectors for categories and vector leaves and the leaf/parent lists interact over the whole edit history (and the pinned build does not even compile the tree tests).",
 ["include/stochtree/tree.h","src/tree.cpp"],
 [("node allocation and free list","include/stochtree/tree.h Tree::AllocNode/DeleteNode"),("ExpandNode / CollapseToLeaf / ChangeToLeaf","include/stochtree/tree.h, src/tree.cpp"),("Init / Reset / CloneFromTree","src/tree.cpp, include/stochtree/tree.h")],
 [("deleted_nodes_, num_deleted_nodes","recycled ids","include/stochtree/tree.h"),("leaf_vector_begin_/end_, category_list_begin_/end_","per-node slices of shared arrays","include/stochtree/tree.h")])

p("C02","Every observation is routed to exactly one leaf, identically by every route",
 "For every tree and every covariate row, exactly one leaf is reached by the rule: a numeric split sends x <= threshold left, a categorical split sends listed categories left, everything else right, and a missing value at prediction time goes left. Tree evaluation, in-place prediction, leaf-index prediction (from a dataset, a matrix or a mapped buffer), the sampler's observation-to-node maps and partitions, and prediction-time leaf values all agree on that leaf.",
 ["inputs","histories"],"Every tree from the bounded edit space and every row of a covariate grid placed below, on, between and above the thresholds, plus each category and a missing value.",
 "Tests check one or two hand-made trees and rows; the routing rule is implemented independently in several overloads (numeric/categorical, Eigen matrix, Eigen map, dataset, partition predicate), and only agreement over all rows and trees makes training fits match predictions.",
 ["include/stochtree/tree.h","src/tree.cpp","include/stochtree/partition_tracker.h","src/partition_tracker.cpp"],
 [("EvaluateTree and SplitTrue*","include/stochtree/tree.h"),("TreeSplit::SplitTrue","include/stochtree/tree.h"),("partition node split","src/partition_tracker.cpp")])

p("C03","Sampler partitions always mirror the trees they track",
 "After any sequence of splits and prunes applied to any of the tracked trees, each tree's node-to-observation partition is a partition of all observations (every observation in exactly one leaf, the one the split rules send it to; an internal node holds the union of its children), reported sizes and index lists are consistent with it, and each per-feature presorted order is still sorted within every leaf. Pruning restores exactly what the split divided, and operations on one tree never affect another tree's partition.",
 ["histories","inputs"],"Every split/prune sequence to a bounded depth on small covariate tables with ties, for numeric and categorical splits and several trees.",
 "Tests run one or two scripted split/prune sequences; the in-place partition arrays, offsets and node recycling depend on the whole history.",
 ["include/stochtree/partition_tracker.h","src/partition_tracker.cpp"],
 [("UnsortedNodeSampleTracker / FeatureUnsortedPartition","include/stochtree/partition_tracker.h"),("SortedNodeSampleTracker / FeaturePresortPartition","include/stochtree/partition_tracker.h"),("SampleNodeMapper / SamplePredMapper","include/stochtree/partition_tracker.h"),("ForestTracker","src/partition_tracker.cpp")])

p("C04","Candidate cutpoints enumerate real splits and bin the data faithfully",
 "For a node's observations, the candidate cutpoints of a numeric or ordered feature are observed values, strictly increasing; when the node holds no more observations than the grid size every distinct value is enumerated, otherwise the thinned grid has at most about grid-size bins, each closed at the first value boundary after every (observations/grid size)-th observation, and the cutpoint grid covers the node's observations exactly (bins are consecutive, disjoint and exhaustive). For an unordered categorical feature the bins are the node's categories, ordered by average outcome, so that each candidate is a prefix of that order. The sufficient statistics accumulated to the left and right of each candidate equal those of the observations that the corresponding split rule sends left and right, and add up to the node's.",
 ["inputs","configurations"],"Every small dataset (all value patterns incl. ties and negatives, all outcome patterns), every grid size, feature type and node segment within the bound.",
 "Tests look at a couple of fixed columns; errors arise only for particular tie patterns, grid sizes and category/outcome orders.",
 ["include/stochtree/cutpoint_candidates.h","src/cutpoint_candidates.cpp","src/leaf_model.cpp","include/stochtree/tree_sampler.h"],
 [("CutpointGridContainer / NodeCutpointTracker","include/stochtree/cutpoint_candidates.h"),("FeatureCutpointGrid","src/cutpoint_candidates.cpp"),("AccumulateCutpointBinSuffStat","include/stochtree/leaf_model.h, src/leaf_model.cpp")])

p("C05","Leaf models compute exact conjugate posteriors and marginal likelihoods",
 "For every node's observations, optional positive case weights, residual variance and prior scale, the leaf value of the constant, univariate-regression and multivariate-regression models is drawn from the exact conjugate Gaussian posterior (mean and covariance) computed from exactly the observations in that leaf, and the no-split and split log marginal likelihoods equal the model's closed form up to a constant shared by all candidates of one comparison. Sufficient statistics are additive: incrementing, resetting and subtracting them in any order gives what direct computation from the same observations gives. The root initialisation sets every tree's leaf value to the requested value.",
 ["inputs","histories"],"Every small outcome/basis/weight table over a value grid, every prior and variance on a grid, every leaf assignment, every unit direction of the Gaussian draw.",
 "Existing tests check a few fixed suff-stat values for two data sets and never the posterior draws; the posterior must be right for all weights, bases and priors.",
 ["include/stochtree/leaf_model.h","src/leaf_model.cpp","include/stochtree/normal_sampler.h"],
 [("PosteriorParameterMean/Variance","src/leaf_model.cpp"),("SplitLogMarginalLikelihood / NoSplitLogMarginalLikelihood","src/leaf_model.cpp"),("SuffStat classes","include/stochtree/leaf_model.h"),("MultivariateNormalSampler","include/stochtree/normal_sampler.h")])

p("C06","The MCMC tree step only makes legal grow/prune moves and accepts by the MH rule",
 "One MCMC step changes each tree by at most one grow (a leaf becomes a split with two leaves) or one prune (a leaf-parent becomes a leaf); a grow never creates a leaf with fewer training observations than the minimum leaf size, never splits on a variable of zero weight, never splits on a value outside the range present in the node, and never aborts; every leaf, every positively weighted variable that varies in it and every value in that variable's range can be proposed. The move is accepted exactly when the log of the uniform draw does not exceed the Metropolis-Hastings log ratio of marginal likelihoods, tree prior and proposal probabilities; a rejected move leaves tree structure, partitions and residual bookkeeping as they were.",
 ["inputs","histories","configurations"],"Every resolution of every random choice in a step (move type, leaf, variable, split point grid, acceptance on both sides of the threshold), from every tree reached in a bounded number of steps, over small datasets including negative and tied values.",
 "Sampler tests fix one seed at most; a wrong range, ratio or eligibility rule shows only on particular choices and never as a crash.",
 ["include/stochtree/tree_sampler.h","include/stochtree/prior.h","src/tree.cpp","src/leaf_model.cpp"],
 [("MCMCForestSampler","include/stochtree/tree_sampler.h"),("VarSplitRange, NodesNonConstantAfterSplit","include/stochtree/tree_sampler.h"),("TreePrior","include/stochtree/prior.h")])

p("C07","The grow-from-root step samples splits with exactly the prescribed probabilities",
 "At every node, grow-from-root chooses among all candidate cutpoints of all variables with positive weight plus the no-split option, with probabilities proportional to the integrated likelihood of each (no-split carrying the tree-prior factor (1+depth)^beta/alpha - 1 times the number of candidates); candidates leaving fewer than the minimum number of observations on a side have probability zero. Trees are grown from a fresh root, recursing on every split node's children, and every resulting leaf satisfies the minimum leaf size.",
 ["inputs","histories","configurations"],"Every resolution of the split choices, over small datasets with numeric, ordered and unordered columns, all grid sizes and weights within bounds.",
 "Tests never inspect split probabilities; an indexing slip between candidate, variable and probability only biases the sampler.",
 ["include/stochtree/tree_sampler.h","src/cutpoint_candidates.cpp","src/leaf_model.cpp","src/partition_tracker.cpp"],
 [("GFRForestSampler","include/stochtree/tree_sampler.h"),("AdjustLogProbability / split evaluation","include/stochtree/tree_sampler.h"),("SortedNodeSampleTracker","include/stochtree/partition_tracker.h")])

p("C08","Backfitting keeps residual plus current predictions equal to the outcome",
 "At the end of every sampler iteration (MCMC or grow-from-root, constant or regression leaves, with or without weights, after any number of iterations in any order), the residual equals the outcome minus the sum of the current trees' predictions, the cached per-tree predictions equal those of the stored trees, and the whole-forest residual update adds or subtracts exactly the forest's prediction. Each iteration appends exactly one new ensemble derived from the previous one, leaving every earlier sample unchanged.",
 ["histories","inputs","configurations"],"All short histories of sampler iterations (with every random choice on the bounded menu) over small datasets and leaf models.",
 "Tests check residuals after one iteration for one seed at most; drift appears only for certain move sequences.",
 ["include/stochtree/tree_sampler.h","src/container.cpp","src/partition_tracker.cpp","include/stochtree/ensemble.h"],
 [("UpdateResidualTree / UpdateResidualEntireForest","include/stochtree/tree_sampler.h"),("ForestContainer::AddSamples / copy of previous ensemble","src/container.cpp"),("ForestTracker prediction cache","src/partition_tracker.cpp")])

p("C09","Forest predictions are the sum of leaf contributions, in the documented layout",
 "For every forest container and dataset, the prediction for observation i and sample j is the sum over sample j's trees of the reached leaf's value (times the basis where the leaf model is a regression: the dot product for vector leaves), raw prediction returns the leaf parameters themselves, single-sample prediction equals the matching slice of the full prediction, and results are laid out by sample and observation independently of how many samples, trees, outputs or observations there are.",
 ["inputs","configurations"],"All containers over bounded numbers of samples, trees, output dimensions, observations and tree shapes, with and without basis.",
 "Tests check one container of one shape; offset arithmetic only fails for particular combinations of dimensions.",
 ["src/container.cpp","include/stochtree/ensemble.h","src/forest.cpp","src/py_stochtree.cpp"],
 [("ForestContainer::Predict / PredictRaw","src/container.cpp"),("TreeEnsemble::PredictInplace / PredictRawInplace","include/stochtree/ensemble.h"),("bindings' reshape","src/py_stochtree.cpp")])

p("C10","Saving and reloading a forest is lossless, and editing may continue",
 "For every reachable forest (any trees, with recycled nodes, categorical splits, vector leaves, any number of samples), dumping to JSON (string or file) and loading gives a forest with the same trees, metadata and predictions, re-dumping gives the same document, and every further edit behaves on the reloaded forest as on the original. Loading replaces previous content completely, and loading a document never shares state with the source.",
 ["histories","inputs"],"Every tree in the bounded edit space and containers built from them, followed by every single further edit.",
 "Round-trip tests use one freshly built tree; the loss concerns recycled-node and offset state that appears only after certain histories.",
 ["src/tree.cpp","src/container.cpp","include/stochtree/ensemble.h","include/stochtree/container.h"],
 [("Tree::to_json / from_json","src/tree.cpp"),("TreeEnsemble / ForestContainer to_json / from_json","include/stochtree/ensemble.h, src/container.cpp")])

p("C11","Sampling is a deterministic function of data, settings and seed",
 "Running the samplers or the BART/BCF models twice with the same data, settings and random seed gives bit-identical samples and predictions, whatever ran before in the same process and whatever the state of any other random generator; different model objects do not influence each other. For R's bcf() with adaptive coding, whose coding draws come from R's generator, R's seed counts as part of the seed.",
 ["histories","configurations"],"All interleavings of bounded sampling schedules of two independent samplers, and all model configurations on a grid.",
 "Tests run each model once; hidden static or uninitialised state shows only across runs or interleavings.",
 ["include/stochtree/tree_sampler.h","src/py_stochtree.cpp","stochtree/bart.py","stochtree/bcf.py","stochtree/sampler.py"],
 [("generator passed explicitly","src/py_stochtree.cpp RngCpp"),("random_seed argument","stochtree/bart.py, stochtree/bcf.py")])

p("C12","The random-effects Gibbs step samples from the exact conditional posteriors",
 "For every group structure, basis and parameter state, one random-effects iteration draws the working parameter, each group's parameters and each variance component from the conditional posterior of the additive redundantly-parameterised random-effects model given exactly the observations of that group, and afterwards residual plus random-effects prediction equals the outcome. Group membership is by label, independent of the labels' values, order of appearance and interleaving, including singleton groups.",
 ["inputs","histories","configurations"],"Every group labelling of small datasets, one or two basis columns, grids of prior parameters and state, every unit direction of each Gaussian draw, over several iterations.",
 "Tests run one labelling with one seed; wrong group bookkeeping appears only for particular label patterns.",
 ["include/stochtree/random_effects.h","src/random_effects.cpp","include/stochtree/category_tracker.h","include/stochtree/ig_sampler.h"],
 [("MultivariateRegressionRandomEffectsModel","include/stochtree/random_effects.h, src/random_effects.cpp"),("RandomEffectsTracker / CategorySampleTracker","include/stochtree/category_tracker.h")])

p("C13","Random-effects samples predict by group label and survive serialization",
 "A container of random-effects draws stores each draw as group parameter = working parameter x group deviation, predicts for any test rows the dot product of the row's basis with the stored parameters of the row's own group label in every sample, rejects or reports labels never seen in training instead of silently using another group's effect, and never changes the stored mapping while predicting. JSON save/load of container and label mapper preserves all of that.",
 ["inputs","histories","configurations"],"Every assignment of distinct labels, all group counts, component counts and sample counts within bounds, all test rows over seen and unseen labels.",
 "Tests cover one labelling and no unseen label.",
 ["src/random_effects.cpp","include/stochtree/random_effects.h","include/stochtree/category_tracker.h","src/R_random_effects.cpp"],
 [("RandomEffectsContainer::AddSample / Predict / to_json / from_json","src/random_effects.cpp"),("LabelMapper","include/stochtree/random_effects.h")])

p("C14","Variance parameters are drawn from the exact inverse-gamma conditionals",
 "Writing IG(shape, scale): the global error variance sample, under the prior IG(nu, nu*lambda), is drawn from IG(nu + n/2, nu*lambda + SSR/2) with n and SSR the number and the sum of squares of the current residuals; the leaf-scale sample, under the prior IG(a, b), from IG(a + L/2, b + S/2) with L the number and S the sum of squares of all current leaf values of the ensemble; an inverse-gamma draw is the reciprocal of one gamma draw with the given shape and rate equal to the given scale.",
 ["inputs","configurations"],"Every small residual vector over a value grid, every small ensemble of trees/leaf values, every prior on a grid, both identifying values of the gamma draw.",
 "No test inspects the posterior parameters.",
 ["include/stochtree/variance_model.h","include/stochtree/ig_sampler.h","include/stochtree/ensemble.h","src/py_stochtree.cpp"],
 [("GlobalHomoskedasticVarianceModel","include/stochtree/variance_model.h"),("LeafNodeHomoskedasticVarianceModel","include/stochtree/variance_model.h"),("InverseGammaSampler","include/stochtree/ig_sampler.h")])

p("C15","Datasets hold exactly the values supplied, whatever the memory layout",
 "Covariates, bases, weights, outcomes and group labels handed over in row-major or column-major form, from any numpy array layout or dtype convertible to float, or in any R matrix, are stored so that entry (i,j) reads back as the value supplied; loading data again or updating a basis replaces exactly that data (an update of another shape is refused), and the caller's arrays are never modified or aliased.",
 ["inputs","histories"],"Every matrix shape within bounds, every memory layout (C, Fortran, transposed, strided, reversed, different dtypes), every short sequence of data operations.",
 "Tests use two fixed 2x3 contiguous matrices.",
 ["include/stochtree/data.h","src/data.cpp","src/py_stochtree.cpp","stochtree/data.py","src/R_data.cpp"],
 [("ColumnMatrix / ColumnVector / ForestDataset","src/data.cpp, include/stochtree/data.h"),("ForestDatasetCpp / ResidualCpp","src/py_stochtree.cpp")])

p("C16","Python covariate preprocessing is a consistent, reusable encoding",
 "Fitting the Python covariate transformer on any supported frame or array gives a processed matrix whose columns are, per original column and in order, the raw numeric values, the ordinal code of an ordered category, or one indicator per level (the declared categories, or the observed values of a string column), with an original-variable index for each processed column. Transforming any later data (rows in any order, any subset of levels, one row) uses the encoding learned at fit, and a refit forgets earlier data.",
 ["inputs","histories","configurations"],"Every combination of column types up to a bounded width, every assignment of levels for short columns, every subset/permutation of rows for transform, fit-refit histories.",
 "Tests use two fixed frames and always transform the training frame.",
 ["stochtree/preprocessing.py"],
 [("CovariateTransformer.fit/transform","stochtree/preprocessing.py")])

p("C17","R covariate preprocessing encodes train and test data the same way",
 "Preprocessing any training data frame or matrix in R gives numeric columns, ordinal codes and one-hot indicators in the documented order with the matching feature types and original-variable indices, and preprocessing test data with the training metadata gives for any rows the same encoding as training rows with the same values received, however rows, levels or columns are ordered in the test data.",
 ["inputs","configurations"],"Every combination of column types up to bounded width, every level assignment, every row subset and permutation for test data.",
 "Tests use fixed frames with all levels present.",
 ["R/utils.R"],
 [("preprocessTrainData / preprocessPredictionData and helpers","R/utils.R")])

p("C18","The model JSON store returns the last value written under each name",
 "For any sequence of add operations of (finite) scalars, booleans, strings, numeric and string vectors, forests and random effects, with and without subfolders, followed by any number of dump/load round trips, reading a name (field names being distinct from subfolder names) returns exactly the last value written under that name and subfolder, with its length and bit-exact doubles, other names are unaffected, and forests and random effects are numbered and counted in order of addition, also after reloading.",
 ["histories","inputs"],"Every operation sequence to a bounded depth over a small alphabet of names, subfolders and values (incl. length-1 and empty vectors, extreme doubles), with round trips anywhere.",
 "Two tests cover one scalar and one vector each.",
 ["src/py_stochtree.cpp","stochtree/serialization.py","src/serialization.cpp","R/serialization.R","include/nlohmann/json.hpp"],
 [("JsonCpp / CppJson","src/py_stochtree.cpp, src/serialization.cpp"),("JSONSerializer","stochtree/serialization.py")])

p("C19","Python BART returns exactly the retained samples, consistent with prediction",
 "For every valid combination of num_gfr, num_burnin, num_mcmc, keep_gfr, keep_burnin, leaf model (constant or basis regression), variance sampling, test set and seed, BART keeps exactly the requested samples in sampling order, all outputs have the documented shapes, y_hat_train and y_hat_test equal predict on the same rows on the outcome scale, and variance and leaf-scale draws line up with the kept samples; inputs that do not belong together (rows, columns, a basis missing or of another width, nothing to sample) are refused, and a refused call leaves the model predicting as before.",
 ["configurations","inputs"],"Every combination of those switches with sample counts in a bounded range.",
 "There is no automated test of the model class; each switch combination is a separate code path in index arithmetic.",
 ["stochtree/bart.py","stochtree/sampler.py","stochtree/forest.py","src/py_stochtree.cpp"],
 [("BARTModel.sample / predict","stochtree/bart.py")])

p("C20","Python BCF separates prognostic and treatment forests consistently",
 "For every valid combination of sample counts, keep switches, binary/continuous treatment, propensity handling, adaptive coding, test set and keep/drop variable lists, BCF keeps exactly the requested samples, y_hat equals mu_hat + tau_hat x treatment for train and test, stored outputs equal predict on the same rows on the outcome scale, each forest splits only on the variables its own keep/drop list allows, and every sampling step (forests, variances, treatment coding) works on the residual of the outcome after all other current terms; inputs that do not belong together (rows, columns, treatment or propensity missing or of another width, unknown variables) are refused, and a refused call leaves the model predicting as before.",
 ["configurations","inputs"],"Every combination of those switches with sample counts in a bounded range.",
 "There is no automated test of the model class; most switch combinations are never executed.",
 ["stochtree/bcf.py","stochtree/sampler.py","stochtree/forest.py","src/py_stochtree.cpp"],
 [("BCFModel.sample / predict","stochtree/bcf.py")])

p("C21","R bart() and bcf() models predict, save and reload consistently",
 "For every valid combination of sample counts, leaf model, treatment type, propensity handling, random effects (labels with or without a basis) and test set, R bart() and bcf() return outputs of the documented shape; predict() on the training or test rows reproduces the stored fits; and a bcf model saved to JSON and reloaded predicts the same; inputs that do not belong together (rows, columns, a basis, group labels or propensities missing or of another width, unseen groups, unknown variables) are refused.",
 ["configurations","inputs"],"Every combination of those switches with sample counts in a bounded range.",
 "R tests here only cover preprocessing; model functions are never run by the stable tests.",
 ["R/bart.R","R/bcf.R","R/forest.R","R/random_effects.R","R/serialization.R","R/model.R","src/R_data.cpp","src/R_random_effects.cpp","src/sampler.cpp","src/forest.cpp"],
 [("bart / predict.bartmodel","R/bart.R"),("bcf / predict.bcf / JSON conversion","R/bcf.R")])

p("C22","Leaf-index kernels match the trees' actual leaf co-membership",
 "For every forest sample and dataset, the leaf-index output gives each observation in each tree an identifier equal for two observations exactly when they fall in the same leaf of the same tree, identifiers of different trees never coincide, and the kernel matrices built from them contain, for each pair of rows, the number of trees in which the two rows share a leaf; train-by-train, test-by-train and test-by-test blocks agree with this.",
 ["inputs","histories","configurations"],"Every ensemble of one to three bounded trees (with recycled nodes) over every covariate grid.",
 "No test compares kernels with tree routing for trees with recycled nodes or several trees.",
 ["include/stochtree/kernel.h","src/kernel.cpp","include/stochtree/ensemble.h","src/tree.cpp","R/kernel.R"],
 [("ForestKernel","include/stochtree/kernel.h"),("PredictLeafIndicesInplace","include/stochtree/ensemble.h")])

p("C23","The Python and R sampling interfaces are faithful to the C++ core",
 "Every sequence of calls a user makes on the low-level Python or R sampling objects (data sets with basis and case weights, outcomes, forest samplers, forest containers, global and leaf variance models and, in R, random effects) yields the same forests, predictions, variance draws and random-effects draws as that sequence on the C++ core with the same inputs and seed, so that every argument (tree prior, minimum leaf size, variable types and weights, cutpoint grid, leaf model, full leaf scale matrix, error variance, algorithm, root initialisation, residual updates) takes effect as given; and what the core refuses the interface refuses.",
 ["configurations","histories","inputs"],"Every combination of argument settings and every bounded sequence of calls, on one or two forests sharing a residual and a generator.",
 "No stable test runs the sampling loop through either interface and compares it with the core.",
 ["src/py_stochtree.cpp","src/sampler.cpp","src/forest.cpp","src/R_data.cpp","src/R_random_effects.cpp","stochtree/sampler.py","stochtree/forest.py","stochtree/data.py","R/model.R","R/forest.R","R/data.R","R/random_effects.R"],
 [("ForestSamplerCpp::SampleOneIteration","src/py_stochtree.cpp"),("sample_gfr_one_iteration_cpp / sample_mcmc_one_iteration_cpp","src/sampler.cpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        assert sum(q["statement"].count(x) for x in [". "])<=2,(q["id"])
        f.write(json.dumps(q)+"\n")
print(len(P))

// A sampler world: dataset, tracker, forest container, leaf model and prior, driven only through the public API,
// with every random draw of an iteration answered by a Driver.  Worlds are rebuilt by replaying logged answers.
#pragma once
#include "model.hpp"
#include "bayes.hpp"
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/tree_sampler.h>
namespace vfw {
using namespace StochTree; using vfm::MTree; using vfm::ids;
struct Config {
  int model = 0, d = 1, n = 0, p = 0, trees = 1, minleaf = 1, grid = 100; std::vector<double> X, y, w, b, vw; std::vector<FeatureType> ft; bool weights = false, preinit = false, settle = true; double init = 0, alpha = .95, beta = 2, s2 = 1, tau = 1;
  double x(int i, int j) const { return X[i * p + j]; }
  std::vector<double> row(int i) const { return std::vector<double>(X.begin() + i * p, X.begin() + (i + 1) * p); }
  std::vector<double> basis(int i) const { std::vector<double> v(d, 1.); if (model) for (int k = 0; k < d; k++) v[k] = b[i * d + k]; return v; }
  Eigen::MatrixXd S() const { Eigen::MatrixXd s = Eigen::MatrixXd::Identity(d, d) * tau; if (d > 1) s(0, 1) = s(1, 0) = .2 * tau; return s; }
  vfb::Obs obs(const std::vector<int>& ix, const std::vector<double>& r) const { vfb::Obs o; o.d = d; for (int i : ix) o.add(r[i], weights ? w[i] : 1., basis(i)); return o; }
  double leafdot(const std::vector<double>& v, int i) const { auto bb = basis(i); double s = 0; for (int k = 0; k < d; k++) s += v[k] * bb[k]; return s; }
  std::string str() const { return vf::fmt("model %d dim %d n %d trees %d minleaf %d alpha %g beta %g tau %g s2 %g weights %d preinit %d grid %d", model, d, n, trees, minleaf, alpha, beta, tau, s2, weights, preinit, grid); } };
// one random draw and its answer
struct Draw { char kind; std::vector<double> p; double a = 0, b = 0, ans = 0; };
struct Driver { // policy decides; everything is logged
  std::vector<Draw> log; std::function<double(const Draw&)> policy;
  double ask(Draw d) { d.ans = policy(d); log.push_back(d); return d.ans; }
  void install() { auto& r = vf::rng();
    r.discrete = [this](const std::vector<double>& p) { Draw d; d.kind = 'd'; d.p = p; return (long)ask(d); };
    r.uniform_real = [this](double a, double b) { Draw d; d.kind = (a == 0 && b == 1) ? 'u' : 'r'; d.a = a; d.b = b; return ask(d); };
    r.uniform_int = [this](long a, long b) { Draw d; d.kind = 'd'; d.p.assign(b - a + 1, 1. / (b - a + 1)); return a + (long)ask(d); };
    r.std_normal = [this] { Draw d; d.kind = 'z'; return ask(d); };
    r.gamma = [this](double a, double b) { Draw d; d.kind = 'g'; d.a = a; d.b = b; return ask(d); }; }
  static void uninstall() { auto& r = vf::rng(); r.discrete = nullptr; r.uniform_real = nullptr; r.uniform_int = nullptr; r.std_normal = nullptr; r.gamma = nullptr; }
  ~Driver() { uninstall(); } };
inline MTree read(const Tree& t, int d) { // structure and values of an implementation tree
  MTree m; m.init(d); std::vector<std::pair<int, int>> st{{0, 0}};
  while (!st.empty()) { auto [k, id] = st.back(); st.pop_back();
    if (t.IsLeaf(id)) { for (int q = 0; q < d; q++) m.n[k].val[q] = t.LeafValue(id, q); }
    else { bool cat = t.NodeType(id) == kCategoricalSplitNode; std::vector<double> z(d, 0.); m.expand(k, t.SplitIndex(id), cat, cat ? 0. : t.Threshold(id), cat ? t.CategoryList(id) : std::vector<uint32_t>(), z, z); st.push_back({m.n[k].l, t.LeftChild(id)}); st.push_back({m.n[k].r, t.RightChild(id)}); } }
  return m; }
inline uint64_t shape(const MTree& m) { vf::Hash h; for (int k : m.pre()) { auto& q = m.n[k]; h.i(q.leaf); if (!q.leaf) { h.i(q.feat).i(q.cat); if (q.cat) { auto c = q.cats; std::sort(c.begin(), c.end()); for (auto v : c) h.i(v); } else h.d(q.thr); } } return h.h; }
inline std::string pos(const MTree& m, int k) { std::string s; while (m.n[k].parent >= 0) { s = (m.n[m.n[k].parent].l == k ? "L" : "R") + s; k = m.n[k].parent; } return s; }
inline int at(const MTree& m, const std::string& p) { int k = 0; for (char c : p) { if (m.n[k].leaf) return -1; k = c == 'L' ? m.n[k].l : m.n[k].r; } return k; }
inline std::map<int, std::vector<int>> members(const MTree& m, const Config& c) { std::map<int, std::vector<int>> o; for (int k : m.pre()) o[k]; for (int i = 0; i < c.n; i++) { int k = m.route(c.row(i)); while (k >= 0) { o[k].push_back(i); k = m.n[k].parent; } } return o; }

struct World {
  const Config& c; ForestDataset ds; Eigen::MatrixXd X; std::unique_ptr<ForestTracker> tr; std::unique_ptr<ForestContainer> fc; std::shared_ptr<ColumnVector> res; std::mt19937 gen{1}; std::vector<double> vw; std::vector<FeatureType> ft; TreePrior prior;
  std::unique_ptr<GaussianConstantLeafModel> m0; std::unique_ptr<GaussianUnivariateRegressionLeafModel> m1; std::unique_ptr<GaussianMultivariateRegressionLeafModel> m2; bool first = true;
  World(const Config& c, std::shared_ptr<ColumnVector> shared = nullptr) : c(c), X(c.n, c.p), vw(c.vw), ft(c.ft), prior(c.alpha, c.beta, c.minleaf) {
    for (int i = 0; i < c.n; i++) for (int j = 0; j < c.p; j++) X(i, j) = c.x(i, j);
    auto xx = c.X; ds.AddCovariates(xx.data(), c.n, c.p, true); auto bb = c.b; if (c.model) ds.AddBasis(bb.data(), c.n, c.d, true); auto ww = c.w; if (c.weights) ds.AddVarianceWeights(ww.data(), c.n);
    auto yy = c.y; if (shared) res = shared; else res.reset(new ColumnVector(yy.data(), c.n)); tr.reset(new ForestTracker(X, ft, c.trees, c.n)); fc.reset(new ForestContainer(c.trees, c.d, c.model == 0));
    Eigen::MatrixXd S = c.S(); if (c.model == 0) m0.reset(new GaussianConstantLeafModel(c.tau)); else if (c.model == 1) m1.reset(new GaussianUnivariateRegressionLeafModel(c.tau)); else m2.reset(new GaussianMultivariateRegressionLeafModel(S));
    if (c.preinit) { if (c.d == 1) fc->InitializeRoot(c.init); else { std::vector<double> v(c.d, c.init); fc->InitializeRoot(v); } if (c.settle) settle(); } }
  template <class F> auto with(F&& f) { if (m0) return f(*m0); if (m1) return f(*m1); return f(*m2); }
  // make residual and cached predictions consistent with the forest that is to be sampled from next (sample 0)
  void settle() { for (int t = 0; t < c.trees; t++) { MTree m = read(*fc->GetEnsemble(0)->GetTree(t), c.d); for (int i = 0; i < c.n; i++) { double v = c.leafdot(m.n[m.route(c.row(i))].val, i); tr->SetTreeSamplePrediction(i, t, v); res->SetElement(i, res->GetElement(i) - v); } } }
  void mcmc() { with([&](auto& m) { MCMCForestSampler<std::decay_t<decltype(m)>> s; s.SampleOneIter(*tr, *fc, m, ds, *res, prior, gen, vw, c.s2, first && c.preinit); return 0; }); first = false; }
  void gfr() { with([&](auto& m) { GFRForestSampler<std::decay_t<decltype(m)>> s(c.grid); s.SampleOneIter(*tr, *fc, m, ds, *res, prior, gen, vw, c.s2, ft, first && c.preinit); return 0; }); first = false; }
  double predict(int i, int sample) { double s = 0; for (int t = 0; t < c.trees; t++) { MTree m = tree(t, sample); s += c.leafdot(m.n[m.route(c.row(i))].val, i); } return s; }
  void forest_residual(int sample, bool add) { std::function<double(double, double)> op; if (add) op = std::plus<double>(); else op = std::minus<double>(); UpdateResidualEntireForest(*tr, ds, *res, fc->GetEnsemble(sample), c.model != 0, op); }
  int samples() { return fc->NumSamples(); }
  MTree tree(int t, int sample = -1) { return read(*fc->GetEnsemble(sample < 0 ? fc->NumSamples() - 1 : sample)->GetTree(t), c.d); }
  // impose a tree shape on tree t of the (pre-initialised, not yet sampled) forest
  void impose(int t, const MTree& m) { Tree* T = fc->GetEnsemble(0)->GetTree(t); MTree q; q.init(c.d); std::vector<std::pair<int, int>> st{{0, 0}};
    while (!st.empty()) { auto [k, id] = st.back(); st.pop_back(); auto& nd = m.n[k]; if (nd.leaf) continue; TreeSplit sp = nd.cat ? TreeSplit(const_cast<std::vector<uint32_t>&>(nd.cats)) : TreeSplit(nd.thr); std::vector<double> z(c.d, c.init);
      if (c.d == 1) T->ExpandNode(id, nd.feat, sp, c.init, c.init); else T->ExpandNode(id, nd.feat, sp, z, z); tr->AddSplit(X, sp, nd.feat, t, id, T->LeftChild(id), T->RightChild(id), false); st.push_back({nd.r, T->RightChild(id)}); st.push_back({nd.l, T->LeftChild(id)}); } }
  // every bookkeeping structure agrees with the current forest: partitions, cached predictions, residual
  void audit(const char* when) { for (int t = 0; t < c.trees; t++) { Tree& T = *fc->GetEnsemble(fc->NumSamples() - 1)->GetTree(t); MTree m = tree(t); auto im = vfm::compare(m, T); auto mem = members(m, c);
      for (int k : m.pre()) { std::vector<int> got; for (auto it = tr->UnsortedNodeBeginIterator(t, im[k]); it != tr->UnsortedNodeEndIterator(t, im[k]); ++it) got.push_back(*it); std::sort(got.begin(), got.end()); VF_CHECK(got == mem[k], "partition", "%s: tree %d node %d partition holds %s, its split rules give %s", when, t, im[k], ids(got).c_str(), ids(mem[k]).c_str()); }
      for (int i = 0; i < c.n; i++) { int k = m.route(c.row(i)); VF_CHECK((int)tr->GetNodeId(i, t) == im[k], "node-map", "%s: observation %d mapped to node %d, is in %d", when, i, (int)tr->GetNodeId(i, t), im[k]); double v = c.leafdot(m.n[k].val, i); VF_CHECK(vf::close(tr->GetTreeSamplePrediction(i, t), v, 1e-9, 1e-9), "cached-prediction", "%s: cached prediction of observation %d in tree %d is %.12g, tree gives %.12g", when, i, t, tr->GetTreeSamplePrediction(i, t), v); } }
    if (!c.settle) return; // residual shared or handled by the caller
    for (int i = 0; i < c.n; i++) { double s = c.y[i]; for (int t = 0; t < c.trees; t++) { MTree m = tree(t); s -= c.leafdot(m.n[m.route(c.row(i))].val, i); } VF_CHECK(vf::close(res->GetElement(i), s, 1e-8, 1e-8), "residual", "%s: residual of observation %d is %.12g, outcome minus predictions %.12g", when, i, res->GetElement(i), s); } }
};
inline double split_log_prior(const Config& c, int depth) { return std::log(c.alpha) - c.beta * std::log(1. + depth); }
// log tree prior: split probabilities by depth; split variable by weight; split value uniform over its range in the node
inline double log_tree_prior(const MTree& m, const Config& c) { double s = 0, W = 0; for (double v : c.vw) W += v; auto mem = members(m, c);
  for (int k : m.pre()) { auto& q = m.n[k]; double ps = c.alpha * std::pow(1. + q.depth, -c.beta); if (q.leaf) s += std::log(1 - ps); else { double lo = 1e300, hi = -1e300; for (int i : mem[k]) { lo = std::min(lo, c.x(i, q.feat)); hi = std::max(hi, c.x(i, q.feat)); } s += std::log(ps) + std::log(c.vw[q.feat] / W) - std::log(hi - lo); } }
  return s; }
inline double log_marginal(const MTree& m, const Config& c, const std::vector<double>& r) { double s = 0; auto mem = members(m, c); for (int k : m.leaves()) s += vfb::loggain(c.obs(mem[k], r), c.S(), c.s2); return s; }
static const double ZPAT[] = {0.6, -1.1, 0.3, 1.4, -0.4};
}  // namespace vfw

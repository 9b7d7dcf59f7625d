// C05: conjugate leaf posteriors, marginal likelihoods and sufficient statistics against dense Gaussian algebra,
// for every small outcome/basis/weight table and every partition of the observations reached by grow/prune histories.
#include "model.hpp"
#include "bayes.hpp"
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
using namespace vfm; using namespace StochTree;
static const char* MN[] = {"constant", "univariate", "multivariate"};
static const std::vector<std::vector<double>> BAS = {{1, -1, 0.5, 2}, {0, 0, 1, 1}, {-2, 3, 0.25, -0.5}, {1, 1, 1, 1}};
static const std::vector<std::vector<double>> WT = {{1, 1, 1, 1}, {1, 2, 0.5, 4}, {0.1, 3, 1, 0.7}};
struct Data { int n = 4, d = 1, model = 0; std::vector<double> y, w, b; bool weights; ForestDataset ds; Eigen::MatrixXd X; std::vector<FeatureType> ft{FeatureType::kNumeric}; std::unique_ptr<ColumnVector> res; Eigen::MatrixXd S; double s2, tau;
  vfb::Obs obs(const std::vector<int>& ix) const { vfb::Obs o; o.d = d; for (int i : ix) { std::vector<double> bb(d); for (int k = 0; k < d; k++) bb[k] = model ? b[i * d + k] : 1.; o.add(y[i], w[i], bb); } return o; } };
static void make(Data& D) {
  D.model = vf::choose(3); D.d = D.model == 2 ? 2 + vf::choose(2) : 1; int n = D.n;
  static const double YV[] = {-1, 0.5, 2}; for (int i = 0; i < n; i++) D.y.push_back(YV[vf::choose(vf::thorough() ? 3 : 2)]);
  int bi = D.model ? vf::choose(BAS.size()) : 0; D.b.resize(n * D.d); for (int i = 0; i < n; i++) for (int k = 0; k < D.d; k++) D.b[i * D.d + k] = BAS[(bi + k) % 4][i] + (k == 2 ? 0.3 * i : 0);
  int wi = vf::choose(WT.size()); D.weights = wi > 0; D.w = WT[wi]; D.s2 = vf::choose(2) ? 2.5 : 0.4; D.tau = vf::choose(2) ? 5 : 0.3;
  D.X.resize(n, 1); std::vector<double> x(n); for (int i = 0; i < n; i++) D.X(i, 0) = x[i] = i; D.ds.AddCovariates(x.data(), n, 1, true); if (D.model) D.ds.AddBasis(D.b.data(), n, D.d, true); if (D.weights) D.ds.AddVarianceWeights(D.w.data(), n);
  D.res.reset(new ColumnVector(D.y.data(), n)); D.S = Eigen::MatrixXd::Constant(1, 1, D.tau); if (D.model == 2) { D.S = Eigen::MatrixXd::Identity(D.d, D.d) * D.tau; D.S(0, 1) = D.S(1, 0) = 0.2 * D.tau; } }
template <class F> static auto with(Data& D, F&& f) { // leaf scale set either at construction or afterwards
  if (D.model == 0) { GaussianConstantLeafModel m(9.); m.SetScale(D.tau); return f(m); }
  if (D.model == 1) { GaussianUnivariateRegressionLeafModel m(D.tau); return f(m); }
  Eigen::MatrixXd Z = D.S * 3; GaussianMultivariateRegressionLeafModel m(Z); m.SetScale(D.S); return f(m); }
static double dense(Data& D, std::vector<std::vector<int>> parts) { double s = 0; for (auto& p : parts) s += vfb::loggain(D.obs(p), D.S, D.s2); return s; }
// grow/prune history on four observations with x = 0..3
static void history(Data& D, Tree& t, MTree& m, ForestTracker& tr, int steps) {
  double THR[] = {0.5, 1.5, 2.5}; if (D.n > 4) THR[0] = 3.5, THR[1] = D.n / 2, THR[2] = D.n - 8.5; t.Init(D.d); m.init(D.d); std::vector<double> z(D.d, 0.);
  for (int s = 0; s < steps; s++) { std::vector<std::pair<int, int>> ops; for (int k : m.leaves()) for (int c = 0; c < 3; c++) ops.push_back({k, c}); for (int k : m.internals()) if (m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) ops.push_back({k, -1});
    int q = vf::choose(ops.size() + 1); if (q == (int)ops.size()) break; auto o = ops[q]; auto im = idmap(m, t); int id = im.at(o.first); vf::transition();
    if (o.second >= 0) { vfm::expand(m, t, o.first, id, 0, false, THR[o.second], {}, z, z, 0); TreeSplit sp(THR[o.second]); tr.AddSplit(D.X, sp, 0, 0, id, t.LeftChild(id), t.RightChild(id), false); }
    else { int l = t.LeftChild(id), r = t.RightChild(id); if (D.d == 1) t.CollapseToLeaf(id, 0.); else t.CollapseToLeaf(id, z); m.collapse(o.first, z); tr.RemoveSplit(D.X, &t, 0, id, l, r, false); } }
  vf::note("tree %s", m.str().c_str()); }
static std::map<int, std::vector<int>> members(const MTree& m, int n) { std::map<int, std::vector<int>> o; for (int k : m.pre()) o[k]; for (int i = 0; i < n; i++) { int k = m.route({(double)i}); while (k >= 0) { o[k].push_back(i); k = m.n[k].parent; } } return o; }

// many observations, other magnitudes of outcome, basis and weight, dense prior covariance
static void make_large(Data& D) {
  D.n = vf::choose(2) ? 230 : 33; int n = D.n; D.model = vf::choose(3); D.d = D.model == 2 ? 2 + vf::choose(3) : 1; static const double YS[] = {1e-3, 1, 700}, S2[] = {0.02, 0.9, 30}, TA[] = {.02, 4.7}; double ys = YS[vf::choose(3)]; int off = vf::choose(2), wi = vf::choose(3); D.s2 = S2[vf::choose(3)] * ys * ys; D.tau = TA[vf::choose(2)] * ys * ys; D.weights = wi > 0; double bs = off ? 12 : .4;
  D.w.clear(); D.X.resize(n, 1); std::vector<double> x(n); for (int i = 0; i < n; i++) { D.X(i, 0) = x[i] = i; D.y.push_back(ys * (std::sin(i * 1.3) + off * 3)); D.w.push_back(wi == 0 ? 1 : wi == 1 ? 0.1 + i % 5 : 0.1 + 30 * (i % 7 == 2)); for (int k = 0; k < D.d; k++) D.b.push_back(bs * std::cos(i * .7 * (k + 1) + k) + (off && k == 0)); }
  D.ds.AddCovariates(x.data(), n, 1, true); if (D.model) D.ds.AddBasis(D.b.data(), n, D.d, true); if (D.weights) D.ds.AddVarianceWeights(D.w.data(), n); D.res.reset(new ColumnVector(D.y.data(), n));
  D.S = Eigen::MatrixXd::Constant(D.d, D.d, .3 * D.tau); for (int k = 0; k < D.d; k++) D.S(k, k) = D.tau * (1 + .5 * k); }
static void leaves(int steps, bool large = false) {
  Data D; vfb::MANY = large ? 0 : 12; if (large) make_large(D); else make(D); const double tol = large ? 1e-6 : 1e-8; Tree t; MTree m; ForestTracker tr(D.X, D.ft, 1, D.n); tr.AssignAllSamplesToRoot(); history(D, t, m, tr, steps); if (vf::replaying()) return;
  auto mem = members(m, D.n); auto im = idmap(m, t); auto L = m.leaves(); std::mt19937 gen(1); int d = D.d; const char* nm = MN[D.model];
  with(D, [&](auto& lm) {
    // draw with every standard normal 0, then with unit vectors: recovers mean and a square root of the covariance
    std::vector<int> order; std::map<int, vfb::V> mean; std::map<int, vfb::M> root; int draw = 0, unit = -1;
    vf::rng().std_normal = [&] { int k = draw++ % d; return unit < 0 ? 0. : (k == unit ? 1. : 0.); };
    for (unit = -1; unit < d; unit++) { draw = 0; lm.SampleLeafParameters(D.ds, tr, *D.res, &t, 0, D.s2, gen); VF_CHECK(draw == d * (int)L.size(), "normal-draws", "%s: %d normal draws for %d leaves of dimension %d", nm, draw, (int)L.size(), d);
      for (int k : L) { vfb::V v(d); for (int q = 0; q < d; q++) v(q) = t.LeafValue(im[k], q); if (unit < 0) { mean[k] = v; root[k] = vfb::M::Zero(d, d); } else root[k].col(unit) = v - mean[k]; } }
    vf::rng().std_normal = nullptr; vf::Hash h;
    for (int k : L) { vfb::V pm; vfb::M pc; vfb::posterior(D.obs(mem[k]), D.S, D.s2, pm, pc); vfb::M C = root[k] * root[k].transpose(); vf::count("leaf_posteriors");
      for (int q = 0; q < d; q++) { h.d(std::round(pm(q) * 1e9)); VF_CHECK(vf::close(mean[k](q), pm(q), tol, 1e-9), "posterior-mean", "%s leaf with observations %s: mean[%d] %.12g, exact posterior %.12g", nm, ids(mem[k]).c_str(), q, mean[k](q), pm(q));
        for (int r = 0; r < d; r++) VF_CHECK(vf::close(C(q, r), pc(q, r), tol, large ? 1e-9 * D.tau : 1e-9), "posterior-covariance", "%s leaf with observations %s: covariance[%d,%d] %.12g, exact posterior %.12g", nm, ids(mem[k]).c_str(), q, r, C(q, r), pc(q, r)); } }
    vf::outcome(h.h); vf::state(vf::Hash().i(h.h).i(m.hash()).i(D.model).h);
    // marginal likelihoods of existing and proposed splits
    for (int k : m.internals()) { int a = m.n[k].l, b = m.n[k].r; auto [sl, nl, ln, rn] = lm.EvaluateExistingSplit(D.ds, tr, *D.res, D.s2, 0, im[k], im[a], im[b]);
      VF_CHECK((int)ln == (int)mem[a].size() && (int)rn == (int)mem[b].size(), "split-counts", "%s existing split: %d/%d observations", nm, (int)ln, (int)rn);
      double ws = dense(D, {mem[a], mem[b]}), wn = dense(D, {mem[k]}); VF_CHECK(vf::close(sl - nl, ws - wn, tol, tol + (large && D.model == 2 ? 1e-8 : 1e-10) * (std::fabs(sl) + std::fabs(nl))), "existing-split-likelihood", "%s existing split of %s: log ratio %.12g, exact %.12g", nm, ids(mem[k]).c_str(), sl - nl, ws - wn); }
    for (int k : L) for (double thr : {-1., 0.5, 1.5, 2.5, 9., large ? 100. : 3.}) { TreeSplit sp(thr); auto [sl, nl, ln, rn] = lm.EvaluateProposedSplit(D.ds, tr, *D.res, sp, 0, im[k], 0, D.s2); std::vector<int> a, b; for (int i : mem[k]) (i <= thr ? a : b).push_back(i);
      VF_CHECK((int)ln == (int)a.size() && (int)rn == (int)b.size(), "split-counts", "%s proposed split: %d/%d observations", nm, (int)ln, (int)rn); double ws = dense(D, {a, b}), wn = dense(D, {mem[k]}); vf::count("likelihood_ratios");
      VF_CHECK(vf::close(sl - nl, ws - wn, tol, tol + (large && D.model == 2 ? 1e-8 : 1e-10) * (std::fabs(sl) + std::fabs(nl))), "proposed-split-likelihood", "%s split of %s at %g: log ratio %.12g, exact %.12g", nm, ids(mem[k]).c_str(), thr, sl - nl, ws - wn); }
    return 0; });
  for (int i = 0; i < D.n; i++) VF_CHECK(D.res->GetElement(i) == D.y[i], "outcome-changed", "evaluating leaf models changed the outcome");
}
// sufficient statistics: any sequence of increment / reset / subtract equals direct computation
template <class St, class Lm> static void stat_run(Data& D, std::vector<St>& st, Lm& lm) {
  int K = st.size(); std::vector<std::vector<int>> ref(K); int depth = vf::thorough() ? 5 : 4;
  for (int s = 0; s < depth; s++) { int o = vf::choose(K * D.n + K + 2); vf::transition();
    if (o < K * D.n) { st[o / D.n].IncrementSuffStat(D.ds, D.res->GetData(), o % D.n); ref[o / D.n].push_back(o % D.n); }
    else if (o < K * D.n + K) { int k = o - K * D.n; st[k].ResetSuffStat(); ref[k].clear(); }
    else { int a = o - K * D.n - K, b = 1 - a; // 2 := a - b, defined when b's observations are among a's
      auto rest = ref[a]; bool ok = true; for (int i : ref[b]) { auto it = std::find(rest.begin(), rest.end(), i); if (it == rest.end()) { ok = false; break; } rest.erase(it); } if (!ok) return; st[2].SubtractSuffStat(st[a], st[b]); ref[2] = rest; }
    if (vf::replaying()) continue; vf::Hash h;
    for (int k = 0; k < K; k++) { auto& R = ref[k]; VF_CHECK((int)st[k].SampleSize() == (int)R.size() && st[k].SampleGreaterThan(1) == (R.size() > 1) && st[k].SampleGreaterThanEqual(1) == (R.size() >= 1), "stat-count", "statistic counts %d observations, expected %d", (int)st[k].SampleSize(), (int)R.size());
      vfb::V pm; vfb::M pc; vfb::posterior(D.obs(R), D.S, D.s2, pm, pc); vfb::V m(D.d); vfb::M c(D.d, D.d); if constexpr (std::is_same<Lm, GaussianMultivariateRegressionLeafModel>::value) { m = lm.PosteriorParameterMean(st[k], D.s2); c = lm.PosteriorParameterVariance(st[k], D.s2); } else { m(0) = lm.PosteriorParameterMean(st[k], D.s2); c(0, 0) = lm.PosteriorParameterVariance(st[k], D.s2); }
      for (int q = 0; q < D.d; q++) { VF_CHECK(vf::close(m(q), pm(q), 1e-8, 1e-8), "stat-posterior-mean", "%s: mean %.12g exact %.12g", MN[D.model], m(q), pm(q)); for (int r = 0; r < D.d; r++) VF_CHECK(vf::close(c(q, r), pc(q, r), 1e-8, 1e-8), "stat-posterior-variance", "%s: variance %.12g exact %.12g", MN[D.model], c(q, r), pc(q, r)); }
      double nl = lm.NoSplitLogMarginalLikelihood(st[k], D.s2), ex = vfb::loggain(D.obs(R), D.S, D.s2); VF_CHECK(vf::close(nl, ex, 1e-8, 1e-8), "stat-likelihood", "%s: no-split likelihood %.12g exact %.12g", MN[D.model], nl, ex);
      std::sort(R.begin(), R.end()); h.i(99); for (int i : R) h.i(i); }
    double sl = lm.SplitLogMarginalLikelihood(st[0], st[1], D.s2), ex = vfb::loggain(D.obs(ref[0]), D.S, D.s2) + vfb::loggain(D.obs(ref[1]), D.S, D.s2); VF_CHECK(vf::close(sl, ex, 1e-8, 1e-8), "stat-split-likelihood", "%s: split likelihood %.12g exact %.12g", MN[D.model], sl, ex); vf::state(h.i(D.model).h); } }
static void stats() {
  Data D; D.n = 3; D.model = vf::choose(3); D.d = D.model == 2 ? 2 : 1; int wi = vf::choose(2); D.y = {-1, 0.5, 2, 1}; D.weights = wi; D.w = WT[wi ? 1 : 0]; D.s2 = 0.7; D.tau = 1.3; D.b.resize(8); for (int i = 0; i < 4; i++) for (int k = 0; k < D.d; k++) D.b[i * D.d + k] = BAS[2 * k % 4 == 0 ? (k ? 2 : 0) : 0][i] + 0.5 * k * i;
  std::vector<double> x{0, 1, 2, 3}; D.ds.AddCovariates(x.data(), 4, 1, true); if (D.model) D.ds.AddBasis(D.b.data(), 4, D.d, true); if (D.weights) D.ds.AddVarianceWeights(D.w.data(), 4); D.res.reset(new ColumnVector(D.y.data(), 4)); D.S = Eigen::MatrixXd::Identity(D.d, D.d) * D.tau;
  if (D.model == 0) { std::vector<GaussianConstantSuffStat> s(3); GaussianConstantLeafModel m(D.tau); stat_run(D, s, m); }
  else if (D.model == 1) { std::vector<GaussianUnivariateRegressionSuffStat> s(3); GaussianUnivariateRegressionLeafModel m(D.tau); stat_run(D, s, m); }
  else { std::vector<GaussianMultivariateRegressionSuffStat> s(3, GaussianMultivariateRegressionSuffStat(2)); GaussianMultivariateRegressionLeafModel m(D.S); stat_run(D, s, m); } }
// root initialisation: every tree of the ensemble is set to the requested leaf value
static void roots() {
  int model = vf::choose(3), nt = 1 + vf::choose(3); static const double V[] = {0, 0.05, -0.1, 0.3, -7}; double v = V[vf::choose(model == 2 ? 3 : 5)]; int d = model == 2 ? 2 : 1; vf::transition(); bool grown = vf::choose(2);
  std::vector<double> x{0, 1}, b{1, 2, 3, 4}; ForestDataset ds; ds.AddCovariates(x.data(), 2, 1, true); if (model) ds.AddBasis(b.data(), 2, d, true); TreeEnsemble e(nt, d, model == 0); Eigen::MatrixXd S = Eigen::MatrixXd::Identity(d, d);
  if (model == 0) GaussianConstantLeafModel(1.).SetEnsembleRootPredictedValue(ds, &e, v); else if (model == 1) GaussianUnivariateRegressionLeafModel(1.).SetEnsembleRootPredictedValue(ds, &e, v); else GaussianMultivariateRegressionLeafModel(S).SetEnsembleRootPredictedValue(ds, &e, v);
  std::vector<double> p(2); e.PredictInplace(ds, p); for (int i = 0; i < 2; i++) { double s = 0; for (int k = 0; k < d; k++) s += model ? b[i * d + k] * v : v; VF_CHECK(vf::close(p[i], nt * s), "root-prediction", "%s: ensemble of %d trees predicts %g, expected %g", MN[model], nt, p[i], nt * s); }
  for (int j = 0; j < nt; j++) for (int k = 0; k < d; k++) VF_CHECK(e.GetTree(j)->LeafValue(0, k) == v, "root-value", "tree %d", j);
  if (!vf::replaying()) { GaussianConstantLeafModel c(1); GaussianUnivariateRegressionLeafModel u(1); GaussianMultivariateRegressionLeafModel mv(S); VF_CHECK(!c.RequiresBasis() && u.RequiresBasis() && mv.RequiresBasis(), "requires-basis", "RequiresBasis"); (void)grown; vf::state(vf::Hash().d(v).i(model).i(nt).h); } }
static void setup() {
  vf::add("leaf-posteriors", [] { leaves(2); });
  vf::add("leaf-posteriors-large", [] { leaves(vf::thorough() ? 3 : 2, true); });
  vf::add("sufficient-statistics", stats);
  vf::add("root-initialisation", roots);
}
VF_MAIN

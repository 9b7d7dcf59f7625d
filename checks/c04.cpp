// C04: over all small tables, the cutpoint grid of every node covers it exactly, its candidates are real splits, and
// the likelihood attached to each candidate is that of the observations its rule sends left and right.
#include "model.hpp"
#include "bayes.hpp"
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
using namespace vfm; using namespace StochTree;
struct Fix { Eigen::MatrixXd X; std::vector<FeatureType> ft; std::unique_ptr<ForestTracker> tr; ForestDataset ds; std::vector<double> y, w; std::vector<std::vector<double>> B; int n, d; std::vector<int> node; int id; };
static const char* FT[] = {"numeric", "ordered", "unordered"};
static void grid(const std::vector<double>& x, FeatureType t, std::vector<double> y, int gsize, int split, bool eval, int model, int weights, int minleaf) {
  int n = x.size(); Eigen::MatrixXd X(n, 2); std::vector<double> xs(2 * n); for (int i = 0; i < n; i++) { X(i, 0) = x[i]; X(i, 1) = (i * 7 + 3) % 5; xs[2 * i] = X(i, 0); xs[2 * i + 1] = X(i, 1); }
  std::vector<FeatureType> ft{t, FeatureType::kNumeric}; ForestTracker tr(X, ft, 1, n); tr.AssignAllSamplesToRoot(); int id = 0; std::vector<int> node; // a node away from the start of the index vectors when split
  double thr = 1.5; for (int i = 0; i < n; i++) if (!split || (split == 1) == (X(i, 1) <= thr)) node.push_back(i);
  if (split) { TreeSplit sp(thr); tr.AddSplit(X, sp, 1, 0, 0, 1, 2, true); id = split; }
  if (node.empty()) return;
  Eigen::VectorXd r(n); for (int i = 0; i < n; i++) r(i) = y[i];
  FeatureCutpointGrid g(gsize); auto* so = tr.GetSortedNodeSampleTracker(); int nb = tr.SortedNodeBegin(id, 0), ne = tr.SortedNodeEnd(id, 0);
  if (eval) g.CalculateStrides(X, r, so, id, 0, n, 1, ft); // recomputing must not depend on what the grid held before
  g.CalculateStrides(X, r, so, id, nb, ne, 0, ft); vf::transition();
  int k = g.NumCutpoints(); VF_CHECK(k >= 1, "no-bins", "no bins for a node of %d observations", (int)node.size());
  std::map<double, std::vector<int>> byval; for (int i : node) byval[x[i]].push_back(i);
  std::set<int> seen; std::vector<std::vector<int>> bins; vf::Hash h;
  for (int i = 0; i < k; i++) { int b = g.BinStartIndex(i), e = g.BinEndIndex(i); VF_CHECK(e - b == g.BinLength(i) && b >= nb && e <= ne && e > b, "bin-range", "%s: bin %d covers [%d,%d) of a node at [%d,%d)", FT[(int)t], i, b, e, nb, ne);
    std::vector<int> o; for (int q = b; q < e; q++) { int idx = so->SortIndex(q, 0); o.push_back(idx); VF_CHECK(seen.insert(idx).second, "bin-overlap", "%s: observation %d is in two bins", FT[(int)t], idx); }
    bins.push_back(o); h.d(g.CutpointValue(i)).i(e - b); }
  VF_CHECK(seen.size() == node.size(), "bin-cover", "%s: bins cover %d of %d observations", FT[(int)t], (int)seen.size(), (int)node.size());
  if (t != FeatureType::kUnorderedCategorical) {
    for (int i = 0; i < k; i++) { double mx = -1e300; for (int o : bins[i]) mx = std::max(mx, x[o]); VF_CHECK(g.CutpointValue(i) == mx, "cutpoint-value", "%s: bin %d has cutpoint %g, largest value %g", FT[(int)t], i, g.CutpointValue(i), mx);
      if (i) VF_CHECK(g.CutpointValue(i) > g.CutpointValue(i - 1), "cutpoints-increasing", "%s: cutpoint %d = %g after %g", FT[(int)t], i, g.CutpointValue(i), g.CutpointValue(i - 1));
      VF_CHECK(g.BinStartIndex(i) == (i ? g.BinEndIndex(i - 1) : nb), "bins-consecutive", "%s: bin %d starts at %d", FT[(int)t], i, g.BinStartIndex(i));
      if (t == FeatureType::kNumeric && (int)node.size() > gsize) { int before = 0; for (int o : bins[i]) before += x[o] < mx; VF_CHECK(before < (double)node.size() / gsize, "grid-too-coarse", "grid %d of %d observations: bin %d holds %d observations below its cutpoint", gsize, (int)node.size(), i, before); }
      else { for (int o : bins[i]) VF_CHECK(x[o] == mx, "value-not-enumerated", "%s: value %g of a node with %d observations and grid size %d is not a cutpoint", FT[(int)t], x[o], (int)node.size(), gsize); } }
    if (t == FeatureType::kNumeric) VF_CHECK(k <= std::max(gsize, 1), "grid-too-fine", "%d bins for grid size %d (%d observations)", k, gsize, (int)node.size());
  } else {
    VF_CHECK(k == (int)byval.size(), "category-count", "%d bins for %d categories", k, (int)byval.size()); double prev = -1e300;
    for (int i = 0; i < k; i++) { double m = 0; for (int o : bins[i]) { VF_CHECK(x[o] == g.CutpointValue(i), "category-bin", "bin %d of category %g holds an observation of category %g", i, g.CutpointValue(i), x[o]); m += y[o]; } m /= bins[i].size();
      VF_CHECK(m >= prev - 1e-9, "category-order", "category %g with mean outcome %g comes after mean %g", g.CutpointValue(i), m, prev); prev = m;
      auto cv = g.CutpointVector(i); VF_CHECK((int)cv.size() == i + 1, "category-prefix", "CutpointVector(%d) has %d entries", i, (int)cv.size()); for (int q = 0; q <= i; q++) VF_CHECK(cv[q] == (uint32_t)g.CutpointValue(q), "category-prefix", "CutpointVector(%d)[%d]=%u", i, q, cv[q]); }
  }
  vf::state(vf::Hash().i(h.h).i((int)t).i(gsize).i(nb).h); vf::outcome(h.h);
  if (!eval) return;
  // candidate evaluation: log likelihood relative to no split against the dense oracle
  int d = model == 2 ? 2 : 1; std::vector<double> w(n, 1.), bs(n * d, 1.); for (int i = 0; i < n; i++) { if (weights) w[i] = 0.5 + (i % 3); if (model) for (int q = 0; q < d; q++) bs[i * d + q] = (i % 4) - 1.5 + 0.75 * q * i; }
  ForestDataset ds; ds.AddCovariates(xs.data(), n, 2, true); if (model) ds.AddBasis(bs.data(), n, d, true); if (weights) ds.AddVarianceWeights(w.data(), n);
  std::vector<double> yy(y); ColumnVector res(yy.data(), n); TreePrior tp(0.95, 2., minleaf); CutpointGridContainer gc(X, r, gsize); double s2 = 1.7;
  std::vector<double> ev, cval; std::vector<int> cf; std::vector<FeatureType> cft; data_size_t nc = 0; std::vector<double> vw{1., weights ? 0. : 0.5};
  Eigen::MatrixXd S = model == 2 ? (Eigen::MatrixXd(2, 2) << 0.8, 0.1, 0.1, 0.4).finished() : Eigen::MatrixXd::Constant(1, 1, 0.8);
  auto run = [&](auto&& lm) { lm.EvaluateAllPossibleSplits(ds, tr, res, tp, s2, 0, id, ev, cf, cval, cft, nc, gc, nb, ne, vw, ft); };
  if (model == 0) run(GaussianConstantLeafModel(0.8)); else if (model == 1) run(GaussianUnivariateRegressionLeafModel(0.8)); else run(GaussianMultivariateRegressionLeafModel(S));
  vf::transition(); auto obs = [&](const std::vector<int>& ix) { vfb::Obs o; o.d = d; for (int i : ix) { std::vector<double> b(d, 1.); if (model) for (int q = 0; q < d; q++) b[q] = bs[i * d + q]; o.add(y[i], w[i], b); } return o; };
  VF_CHECK(ev.size() == cf.size() && ev.size() == cval.size() && ev.size() == cft.size() && (int)ev.size() == nc + 1, "candidate-count", "%d evaluations, %d features, count %d", (int)ev.size(), (int)cf.size(), (int)nc);
  VF_CHECK(cf.back() == -1, "no-split-last", "last candidate splits feature %d", cf.back()); double base = ev.back(), dbase = vfb::loggain(obs(node), S, s2);
  VF_CHECK(vf::close(base, dbase, 1e-8, 1e-8), "no-split-likelihood", "no-split likelihood %.12g, expected %.12g", base, dbase);
  std::vector<std::pair<int, int>> got; std::map<int, int> nf;
  for (size_t c = 0; c + 1 < ev.size(); c++) { int f = cf[c], bi = (int)cval[c]; VF_CHECK(f >= 0 && f < 2 && std::fabs(vw[f]) > 0, "zero-weight-variable", "candidate on variable %d with weight %g", f, f >= 0 ? vw[f] : 0.); got.push_back({f, bi}); nf[f]++;
    VF_CHECK(cft[c] == ft[f], "candidate-type", "candidate %d feature type", (int)c); VF_CHECK(bi >= 0 && bi < gc.NumCutpoints(f), "candidate-bin", "candidate bin %d of %d", bi, gc.NumCutpoints(f));
    std::vector<uint32_t> cats = gc.CutpointVector(bi, f); TreeSplit sp = ft[f] == FeatureType::kUnorderedCategorical ? TreeSplit(cats) : TreeSplit(gc.CutpointValue(bi, f)); std::vector<int> L, R; for (int i : node) (sp.SplitTrue(X(i, f)) ? L : R).push_back(i);
    VF_CHECK((int)L.size() >= minleaf && (int)R.size() >= minleaf, "candidate-too-small", "candidate on feature %d sends %d left and %d right, minimum %d", f, (int)L.size(), (int)R.size(), minleaf);
    double want = vfb::loggain(obs(L), S, s2) + vfb::loggain(obs(R), S, s2); vf::count("candidates");
    VF_CHECK(vf::close(ev[c], want, 1e-8, 1e-8), "candidate-likelihood", "%s feature %d bin %d (%d left, %d right): log likelihood %.12g, expected %.12g", FT[(int)ft[f]], f, bi, (int)L.size(), (int)R.size(), ev[c], want); }
  int expect = 0; for (int f = 0; f < 2; f++) if (vw[f] != 0) for (int b = 0; b + 1 < gc.NumCutpoints(f); b++) { int l = 0; std::vector<uint32_t> cats = gc.CutpointVector(b, f); TreeSplit sp = ft[f] == FeatureType::kUnorderedCategorical ? TreeSplit(cats) : TreeSplit(gc.CutpointValue(b, f)); for (int i : node) l += sp.SplitTrue(X(i, f)); expect += l >= minleaf && (int)node.size() - l >= minleaf; }
  VF_CHECK((int)got.size() == expect, "candidate-missing", "%d candidates, expected %d", (int)got.size(), expect);
}
static std::vector<double> pick(int n, std::vector<double> V) { std::vector<double> x(n); for (int i = 0; i < n; i++) x[i] = V[vf::choose(V.size())]; return x; }
static const std::vector<std::vector<double>> Y = {{1, -1, 0.5, 2, -2, 0.25, 0, 1.5, -0.75}, {0, 0, 3, 0, 1, 1, 0, -1, 2}, {-3, 4, 1, -2, 0.5, 6, 2, 2, 2}};
static void setup() {
  for (int n : {1, 2, 4, 6, 8}) { if (n == 8 && !vf::thorough()) continue;
    vf::add("numeric-grid-" + std::to_string(n), [=] { auto x = n < 8 && vf::choose(2) ? pick(n, {0.1, -1 / 3., 1e9 / 7}) : pick(n, {0, 1, -2.5}); int g = 1 + vf::choose(n + 1), s = vf::choose(3); grid(x, FeatureType::kNumeric, Y[0], g, s, false, 0, 0, 1); }); }
  vf::add("numeric-grid-distinct", [] { int n = 1 + vf::choose(vf::thorough() ? 60 : 40), g = 1 + vf::choose(n + 2), pat = vf::choose(4); std::vector<double> x(n); for (int i = 0; i < n; i++) x[i] = pat == 0 ? i : pat == 1 ? -i / 2 : pat == 2 ? (i * i) % 7 : (i < n / 2 ? 0 : i); std::vector<double> y(n); for (int i = 0; i < n; i++) y[i] = i % 3; grid(x, FeatureType::kNumeric, y, g, vf::choose(3), false, 0, 0, 1); });
  vf::add("ordered-grid", [] { int n = 1 + vf::choose(5); auto x = vf::choose(2) ? pick(n, {0.1, -1.5, 0.75, -1.25}) : pick(n, {0, 1, 2, 7}); int g = 1 + vf::choose(3), s = vf::choose(3); grid(x, FeatureType::kOrderedCategorical, Y[0], g, s, false, 0, 0, 1); });
  vf::add("unordered-grid", [] { int n = 1 + vf::choose(vf::thorough() ? 6 : 5); auto x = vf::choose(2) ? pick(n, {16777217, 16777216, 65536, 4294967295.}) : pick(n, {0, 1, 2, 5}); int y = vf::choose(3), s = vf::choose(3); grid(x, FeatureType::kUnorderedCategorical, Y[y], 3, s, false, 0, 0, 1); });
  vf::add("candidates", [] { auto x = vf::choose(2) ? pick(vf::thorough() ? 6 : 5, {3, 16777217, 16777216}) : pick(vf::thorough() ? 6 : 5, {0, 1, 2}); int t = vf::choose(3), model = vf::choose(3), wt = vf::choose(2), ml = 1 + vf::choose(2), y = vf::choose(3), s = vf::choose(2), g = vf::choose(2) ? 2 : 100; grid(x, (FeatureType)t, Y[y], g, s ? 2 : 0, true, model, wt, ml); });
  // as many observations, levels and cutpoints as ordinary use has
  vf::add("candidates-large", [] { int n = vf::choose(2) ? 70 : 140, pat = vf::choose(2), t = vf::choose(3), model = vf::choose(3), wt = vf::choose(2), s = vf::choose(2), g = vf::choose(2) ? 100 : 1000; std::vector<double> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = pat ? (i * 37) % n : (i * i * 3 + i) % 67; y[i] = ((i * 29) % 17) / 4. - 2; } grid(x, (FeatureType)t, y, g, s ? 2 : 0, true, model, wt, wt ? 5 : 1); });
}
VF_MAIN

// C02: over every bounded tree and covariate grid, every routing implementation reaches the one leaf the rule prescribes.
#include "model.hpp"
#include <stochtree/partition_tracker.h>
using namespace vfm; using namespace StochTree;
static const double NaN = std::nan("");
static double up(double x) { return std::nextafter(x, 1e308); } static double down(double x) { return std::nextafter(x, -1e308); }
static std::vector<std::vector<double>> grid(bool missing, bool fine) { // columns 0,1 numeric, column 2 categorical
  std::vector<double> a{-1.5, -1, -0.5, 0, 0.25, 1e9}, b{-2, 0.25, 3}, c{0, 1, 2, 5, 31};
  if (missing) { a = {-1, 0, 2, NaN}; b = {0.25, 3, NaN}; c = {0, 1, 5, NaN}; }
  if (fine) { a = {down(0.1), 0.1, up(0.1), 16777216., 16777217., NaN}; b = {down(-1 / 3.), -1 / 3., up(-1 / 3.), 1e-310, 1e-311, 0}; c = {16777216, 16777217, 2999999999., 3000000000., 4294967295., 65536, 0, NaN}; } // neighbours of thresholds, codes beyond 2^24
  std::vector<std::vector<double>> r; for (double x : a) for (double y : b) for (double z : c) r.push_back({x, y, z}); return r; }
struct Rule { int feat; bool cat; double thr; std::vector<uint32_t> cats; };
static const std::vector<Rule> RULES = {{0, false, -1, {}}, {0, false, 0, {}}, {1, false, 0.25, {}}, {2, true, 0, {1}}, {2, true, 0, {5, 0}}, {2, true, 0, {}}, {2, true, 0, {31, 2, 1}}, {0, false, 0.3, {}}};
static const std::vector<Rule> FINE = {{0, false, 0.1, {}}, {0, false, 16777216., {}}, {1, false, -1 / 3., {}}, {1, false, 1e-311, {}}, {2, true, 0, {16777217, 4294967295u}}, {2, true, 0, {3000000000u}}, {2, true, 0, {16777216, 2999999999u, 0}}};
static std::vector<double> val(int dim, int k) { std::vector<double> v(dim); for (int d = 0; d < dim; d++) v[d] = 1 + k + 1000.0 * d; return v; }

static void routing(int dim, int nsplits, int nrules, bool missing, bool prunes, bool fine = false) {
  auto rows = grid(missing, fine); const auto& RR = fine ? FINE : RULES; int n = rows.size();
  static std::map<std::pair<int, bool>, std::unique_ptr<ForestDataset>> cache; 
  Eigen::MatrixXd X(n, 3); std::vector<double> rm(n * 3), cm(n * 3); std::vector<double> wrm(n, 1), bs(n * dim);
  for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) { X(i, j) = rows[i][j]; rm[i * 3 + j] = rows[i][j]; cm[j * n + i] = rows[i][j]; }
  for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) bs[i * dim + d] = (i % 5) - 1.5 + d;
  ForestDataset ds; ds.AddCovariates(rm.data(), n, 3, true); ds.AddBasis(bs.data(), n, dim, true);
  std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kNumeric, FeatureType::kUnorderedCategorical};
  MTree m; m.init(dim); Tree t; t.Init(dim); ForestTracker tr(X, ft, 2, n); tr.AssignAllSamplesToRoot();
  if (dim == 1) t.SetLeaf(0, 0.5); else t.SetLeafVector(0, val(dim, 0)); m.n[0].val = dim == 1 ? std::vector<double>{0.5} : val(dim, 0);
  int fresh = 0; int ops = 0;
  for (int s = 0; s <= nsplits; s++) {
    if (s > 0) {
      auto L = m.leaves(); auto im = idmap(m, t); std::vector<int> P; if (prunes) for (int k : m.internals()) if (m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) P.push_back(k);
      int o = vf::choose(L.size() * nrules + P.size(), "op"); vf::transition();
      if (o < (int)L.size() * nrules) { int k = L[o / nrules]; const Rule& r = RR[o % nrules]; int id = im.at(k); fresh += 2;
        expand(m, t, k, id, r.feat, r.cat, r.thr, r.cats, val(dim, fresh), val(dim, fresh + 1), 0); auto cats = r.cats; TreeSplit sp = r.cat ? TreeSplit(cats) : TreeSplit(r.thr);
        tr.AddSplit(X, sp, r.feat, 1, id, t.LeftChild(id), t.RightChild(id), false); vf::note("split leaf %d: %s", id, m.str().c_str()); }
      else { int k = P[o - L.size() * nrules], id = im.at(k), l = t.LeftChild(id), r = t.RightChild(id); fresh++;
        if (dim == 1) t.CollapseToLeaf(id, val(dim, fresh)[0]); else t.CollapseToLeaf(id, val(dim, fresh)); m.collapse(k, val(dim, fresh)); tr.RemoveSplit(X, &t, 1, id, l, r, false); vf::note("prune %d: %s", id, m.str().c_str()); }
    }
    if (vf::replaying()) continue;
    vf::state(m.hash()); auto im = idmap(m, t); auto L = m.leaves(); std::map<int, int> leafpos; 
    // expected leaf for each row
    std::vector<int> exp(n); for (int i = 0; i < n; i++) exp[i] = m.route(rows[i]);
    Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> M(cm.data(), n, 3);
    std::vector<int32_t> o1(n + 3, -7), o2(n + 3, -7), o3(n + 3, -7);
    t.PredictLeafIndexInplace(&ds, o1, 2, 100); t.PredictLeafIndexInplace(X, o2, 2, 100); t.PredictLeafIndexInplace(M, o3, 2, 100);
    VF_CHECK(o1 == o2 && o1 == o3, "leaf-index-overloads", "leaf index overloads disagree on %s", m.str().c_str());
    VF_CHECK(o1[0] == -7 && o1[1] == -7 && o1[n + 2] == -7, "leaf-index-offset", "leaf index prediction wrote outside its slice");
    std::map<int, int> idx2leaf; std::vector<std::vector<int>> members(L.size()); std::vector<int32_t> nodes(n);
    for (int i = 0; i < n; i++) { int want = im.at(exp[i]); auto& rw = rows[i]; int got = EvaluateTree(t, X, i); nodes[i] = want;
      VF_CHECK(got == want, "evaluate-matrix", "row (%g,%g,%g): EvaluateTree gives leaf %d, the split rules give %d in %s", rw[0], rw[1], rw[2], got, want, m.str().c_str());
      got = EvaluateTree(t, M, i); VF_CHECK(got == want, "evaluate-map", "row (%g,%g,%g): EvaluateTree(map) gives leaf %d, the split rules give %d in %s", rw[0], rw[1], rw[2], got, want, m.str().c_str());
      VF_CHECK(tr.GetNodeId(i, 1) == want, "tracker-node", "row (%g,%g,%g): sampler maps it to node %d, the split rules give %d in %s", rw[0], rw[1], rw[2], (int)tr.GetNodeId(i, 1), want, m.str().c_str());
      VF_CHECK(tr.GetNodeId(i, 0) == 0, "tracker-other-tree", "an untouched tree's mapping changed");
      int li = o1[2 + i] - 100; VF_CHECK(li >= 0 && li < (int)L.size(), "leaf-index-range", "leaf index %d outside 0..%d", li, (int)L.size() - 1);
      auto it = idx2leaf.find(li); if (it == idx2leaf.end()) { for (auto& kv : idx2leaf) VF_CHECK(kv.second != exp[i], "leaf-index-split", "one leaf has two indices"); idx2leaf[li] = exp[i]; }
      else VF_CHECK(it->second == exp[i], "leaf-index-merge", "rows of different leaves share leaf index %d", li); }
    size_t total = 0;
    for (int k : L) { int id = im.at(k); std::set<int> got; for (auto it = tr.UnsortedNodeBeginIterator(1, id); it != tr.UnsortedNodeEndIterator(1, id); ++it) got.insert(*it); std::set<int> want; for (int i = 0; i < n; i++) if (exp[i] == k) want.insert(i);
      VF_CHECK(got == want && tr.UnsortedNodeSize(1, id) == (int)want.size(), "partition-leaf", "partition of leaf %d holds %d rows, the split rules send it %d (or different ones) in %s", id, (int)got.size(), (int)want.size(), m.str().c_str()); total += got.size(); }
    VF_CHECK((int)total == n, "partition-total", "leaves hold %d rows of %d", (int)total, n);
    // predictions through every route
    if (dim == 1) { auto p = t.PredictFromNodes(nodes); for (int i = 0; i < n; i++) VF_CHECK(p[i] == m.n[exp[i]].val[0], "predict-from-nodes", "PredictFromNodes row %d", i); }
    auto pb = t.PredictFromNodes(nodes, ds.GetBasis());
    TreeEnsemble e(1, dim, dim == 1); e.CloneFromExistingTree(0, &t); std::vector<double> out(n), raw(n * dim); e.PredictInplace(ds, out); e.PredictRawInplace(ds, raw);
    for (int i = 0; i < n; i++) { double dot = 0; for (int d = 0; d < dim; d++) { dot += m.n[exp[i]].val[d] * bs[i * dim + d]; VF_CHECK(raw[i * dim + d] == m.n[exp[i]].val[d], "predict-raw", "raw prediction row %d", i); }
      VF_CHECK(vf::close(pb[i], dot), "predict-from-nodes-basis", "PredictFromNodes with basis row %d", i); VF_CHECK(vf::close(out[i], dim == 1 ? m.n[exp[i]].val[0] : dot), "predict-inplace", "prediction row %d", i); }
    vf::Hash h; for (int x : exp) h.i(x); vf::outcome(h.h); vf::count("rows_routed", n);
  }
}
// the split predicates themselves, all agreeing
static void predicates() {
  static const std::vector<double> V{-1e300, -3, -1, -0.0, 0, 0.25, 1, 2, 3, 5, 31, 1e9, 4294967295.0, 4294967296.0, 1e300, INFINITY, -INFINITY, NaN};
  static const std::vector<double> T{-3, 0, 0.25, 5, INFINITY, -INFINITY};
  static const std::vector<std::vector<uint32_t>> Cs{{}, {0}, {1, 5}, {31, 2, 3}, {4294967295u}};
  double v = V[vf::choose(V.size())]; int k = vf::choose(T.size() + Cs.size()); vf::transition();
  if (k >= (int)T.size() && v == 0.25) return;  // category values are integers (or missing / out of range)
  Eigen::MatrixXd X(2, 2); X << 7, 7, 7, v; bool want, got, got2, got3; int nx;
  if (k < (int)T.size()) { want = std::isnan(v) || v <= T[k]; TreeSplit s(T[k]); got = s.SplitTrue(v); got2 = RowSplitLeft(X, 1, 1, T[k]); got3 = SplitTrueNumeric(v, T[k]); nx = NextNodeNumeric(v, T[k], 11, 12); vf::note("%g <= %g", v, T[k]); }
  else { auto c = Cs[k - T.size()]; want = std::isnan(v); for (auto x : c) if ((double)x == v) want = true; TreeSplit s(c); got = s.SplitTrue(v); got2 = RowSplitLeft(X, 1, 1, c); got3 = SplitTrueCategorical(v, c); nx = NextNodeCategorical(v, c, 11, 12); vf::note("%g in set %d", v, k); }
  vf::state(vf::Hash().d(v).i(k).h); vf::outcome(want);
  VF_CHECK(got == want && got2 == want && got3 == want && nx == (want ? 11 : 12), "split-predicate", "value %g, rule %d: expected %s, predicates gave %d %d %d, next %d", v, k, want ? "left" : "right", got, got2, got3, nx);
}
static void setup() {
  auto d = [](int q, int t) { return vf::thorough() ? t : q; };
  vf::add("predicates", predicates);
  vf::add("scalar", [=] { routing(1, d(3, 4), 7, false, false); });
  vf::add("vector", [=] { routing(2, d(3, 3), 7, false, false); });
  vf::add("scalar-missing", [=] { routing(1, d(3, 4), 7, true, false); });
  vf::add("fine-values", [=] { routing(1, d(3, 3), 7, true, false, true); });
  vf::add("scalar-prune", [=] { routing(1, d(4, 5), 4, true, true); });
}
VF_MAIN

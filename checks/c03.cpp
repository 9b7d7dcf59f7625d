// C03: every bounded history of splits, prunes and resets on two tracked trees leaves each tree's
// observation partition, node map, sorted index lists and predictions exactly those of the reference tree.
#include "model.hpp"
#include <stochtree/partition_tracker.h>
using namespace vfm; using namespace StochTree;
typedef std::vector<std::vector<double>> Table; // rows
static const std::vector<Table> TABLES = {
  {{0, 1}, {2, 0}, {1, 1}, {0, 2}},               // ties in both columns
  {{3, 0}, {1, 2}, {2, 1}, {-1, 0}},              // distinct
  {{5, 1}, {5, 1}, {5, 1}, {5, 1}},               // constant
  {{-1, 2}, {0, 1}, {std::nan(""), 0}, {2, 2}},   // a missing value
};
struct Rule { int f; bool cat; double thr; std::vector<uint32_t> cats; };
static const std::vector<Rule> RULES = {{0, false, 0.5, {}}, {1, true, 0, {1, 7}}, {0, false, -5, {}}, {0, false, 1, {}}, {1, true, 0, {0, 2}}};
static Eigen::MatrixXd mat(const Table& T) { Eigen::MatrixXd X(T.size(), T[0].size()); for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T[0].size(); j++) X(i, j) = T[i][j]; return X; }
static void members(const MTree& m, const Table& T, std::map<int, std::vector<int>>& out) { for (int k : m.pre()) out[k]; for (size_t i = 0; i < T.size(); i++) { int k = m.route(T[i]); while (k >= 0) { out[k].push_back(i); k = m.n[k].parent; } } }
template <class It> static std::vector<int> lst(It b, It e) { std::vector<int> v; for (; b != e; ++b) v.push_back(*b); return v; }
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static uint64_t check_tree(const MTree& m, Tree& t, const Table& T, ForestTracker& tr, int j, bool leaves_only_nodes = false) {
  auto im = idmap(m, t); std::map<int, std::vector<int>> mem; members(m, T, mem); vf::Hash h; std::set<int> seen; int n = T.size();
  auto* us = tr.GetUnsortedNodeSampleTracker();
  for (auto& kv : im) { int k = kv.first, id = kv.second; auto& want = mem[k]; auto& nd = m.n[k];
    auto ids_ = us->TreeNodeIndices(j, id); std::vector<int> got(ids_.begin(), ids_.end());
    VF_CHECK(sorted(got) == want, "node-members", "tree %d node %d holds %s, expected %s (%s)", j, id, ids(got).c_str(), ids(want).c_str(), m.str().c_str());
    auto via = lst(tr.UnsortedNodeBeginIterator(j, id), tr.UnsortedNodeEndIterator(j, id)); VF_CHECK(via == got, "node-iterators", "tree %d node %d iterators cover %s, not %s", j, id, ids(via).c_str(), ids(got).c_str());
    VF_CHECK(tr.UnsortedNodeSize(j, id) == (int)want.size() && tr.UnsortedNodeEnd(j, id) - tr.UnsortedNodeBegin(j, id) == (int)want.size(), "node-size", "tree %d node %d size %d, expected %d", j, id, (int)tr.UnsortedNodeSize(j, id), (int)want.size());
    VF_CHECK(us->IsLeaf(j, id) == nd.leaf && us->IsValidNode(j, id), "partition-leaf-status", "tree %d node %d leaf/valid status", j, id);
    if (nd.parent >= 0) VF_CHECK(us->Parent(j, id) == im.at(nd.parent), "partition-links", "tree %d node %d parent %d", j, id, us->Parent(j, id));
    if (!nd.leaf) { VF_CHECK(us->LeftNode(j, id) == im.at(nd.l) && us->RightNode(j, id) == im.at(nd.r), "partition-links", "tree %d node %d children %d %d", j, id, us->LeftNode(j, id), us->RightNode(j, id));
      VF_CHECK(us->LeftNodeIsLeaf(j, id) == m.n[nd.l].leaf && us->RightNodeIsLeaf(j, id) == m.n[nd.r].leaf, "partition-leaf-status", "tree %d node %d child leaf status", j, id); }
    else for (int i : got) VF_CHECK(seen.insert(i).second, "leaf-overlap", "tree %d observation %d is in two leaves", j, i);
    h.i(id); for (int i : got) h.i(i); }
  VF_CHECK((int)seen.size() == n, "leaf-cover", "tree %d leaves hold %d of %d observations", j, (int)seen.size(), n);
  for (int i = 0; i < n; i++) { int want = im.at(m.route(T[i])); VF_CHECK(tr.GetNodeId(i, j) == want, "node-map", "tree %d observation %d mapped to node %d, expected %d (%s)", j, i, (int)tr.GetNodeId(i, j), want, m.str().c_str()); }
  return h.h;
}
static void history(int depth, int nrules, bool two) {
  int ti = vf::choose(TABLES.size()); const Table& T = TABLES[ti]; auto X = mat(T); int n = T.size(); std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical};
  int nt = two ? 2 : 1; ForestTracker tr(X, ft, nt, n); if (ti & 1) tr.AssignAllSamplesToRoot(); else for (int j = 0; j < nt; j++) tr.AssignAllSamplesToRoot(j);
  std::vector<MTree> m(nt); std::vector<std::unique_ptr<Tree>> t; for (int j = 0; j < nt; j++) { m[j].init(1); t.emplace_back(new Tree()); t[j]->Init(1); }
  std::vector<double> z{0}, a{1}, b{2};
  for (int s = 0; s < depth; s++) {
    struct Op { int kind, tree, k, rule; }; std::vector<Op> ops; // 0 split 1 collapse 2 reset
    for (int j = 0; j < nt; j++) { for (int k : m[j].leaves()) for (int r = 0; r < nrules; r++) ops.push_back({0, j, k, r}); for (int k : m[j].internals()) ops.push_back({1, j, k, 0}); if (m[j].internals().size()) ops.push_back({2, j, 0, 0}); }
    Op o = ops[vf::choose(ops.size(), "op")]; vf::transition(); auto im = idmap(m[o.tree], *t[o.tree]); int id = im.at(o.k); Tree* tp = t[o.tree].get(); MTree& mm = m[o.tree];
    if (o.kind == 0) { const Rule& r = RULES[o.rule]; vfm::expand(mm, *tp, o.k, id, r.f, r.cat, r.thr, r.cats, a, b, o.rule & 1); auto cats = r.cats; TreeSplit sp = r.cat ? TreeSplit(cats) : TreeSplit(r.thr);
      tr.AddSplit(X, sp, r.f, o.tree, id, tp->LeftChild(id), tp->RightChild(id), false); vf::note("tree %d: split node %d -> %s", o.tree, id, mm.str().c_str()); }
    else if (o.kind == 1) { int l = tp->LeftChild(id), rr = tp->RightChild(id); bool lp = tp->IsLeafParent(id); if (lp) tp->CollapseToLeaf(id, 3.); else tp->CollapseToLeaf(id, 3.); mm.collapse(o.k, {3.}); tr.RemoveSplit(X, tp, o.tree, id, l, rr, false); vf::note("tree %d: prune node %d -> %s", o.tree, id, mm.str().c_str()); }
    else { tp->Init(1); mm.init(1); tr.ResetRoot(X, ft, o.tree); vf::note("tree %d: reset", o.tree); }
    if (vf::replaying()) continue;
    vf::Hash h; h.i(ti); for (int j = 0; j < nt; j++) h.i(check_tree(m[j], *t[j], T, tr, j)).i(m[j].hash()); vf::state(h.h); vf::outcome(h.h);
  }
}
// presorted per-feature trackers through recursive growth, fresh tree after fresh tree
static void sorted_growth(int depth, int rowvals) {
  int n = 4; Table T(n, std::vector<double>(2)); static const double NV[] = {0, 1, 2, -1.5};
  for (int i = 0; i < n; i++) T[i][0] = NV[vf::choose(rowvals)];
  static const std::vector<std::vector<double>> C = {{0, 1, 2, 1}, {2, 0, 0, 2}, {1, 1, 1, 1}}; int c = vf::choose(C.size()); for (int i = 0; i < n; i++) T[i][1] = C[c][i];
  auto X = mat(T); std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical}; ForestTracker tr(X, ft, 2, n); tr.AssignAllSamplesToRoot();
  std::unique_ptr<Tree> t(new Tree()); MTree m; m.init(1); t->Init(1); int tree = 0; std::vector<double> a{1}, b{2};
  auto check = [&] { auto im = idmap(m, *t); std::map<int, std::vector<int>> mem; members(m, T, mem); vf::Hash h; auto* so = tr.GetSortedNodeSampleTracker();
    for (auto& kv : im) for (int f = 0; f < 2; f++) { int id = kv.second; auto& want = mem[kv.first];
      auto got = lst(tr.SortedNodeBeginIterator(id, f), tr.SortedNodeEndIterator(id, f)); VF_CHECK(sorted(got) == want, "sorted-members", "feature %d node %d holds %s, expected %s", f, id, ids(got).c_str(), ids(want).c_str());
      VF_CHECK(tr.SortedNodeSize(id, f) == (int)want.size() && tr.SortedNodeEnd(id, f) - tr.SortedNodeBegin(id, f) == (int)want.size(), "sorted-size", "feature %d node %d size", f, id);
      auto g2 = so->NodeIndices(id, f); VF_CHECK(std::vector<int>(g2.begin(), g2.end()) == got, "sorted-indices", "NodeIndices feature %d node %d", f, id);
      for (size_t q = 0; q < got.size(); q++) VF_CHECK(so->SortIndex(tr.SortedNodeBegin(id, f) + q, f) == got[q], "sorted-indices", "SortIndex feature %d node %d", f, id);
      if (m.n[kv.first].leaf) for (size_t q = 1; q < got.size(); q++) VF_CHECK(T[got[q - 1]][f] <= T[got[q]][f], "presort-order", "feature %d leaf %d is not sorted: %s", f, id, ids(got).c_str());
      for (int i : got) h.i(i); h.i(id); }
    check_tree(m, *t, T, tr, tree); vf::state(h.i(m.hash()).h); vf::outcome(h.h); };
  check();
  for (int s = 0; s < depth; s++) { auto L = m.leaves(); int nr = 3; int o = vf::choose(L.size() * nr + (s ? 1 : 0)); vf::transition();
    if (o == (int)L.size() * nr) { tree = 1 - tree; t.reset(new Tree()); t->Init(1); m.init(1); tr.ResetRoot(X, ft, tree); vf::note("fresh tree %d", tree); }
    else { int k = L[o / nr]; const Rule& r = RULES[o % nr == 2 ? 3 : o % nr]; auto im = idmap(m, *t); int id = im.at(k); vfm::expand(m, *t, k, id, r.f, r.cat, r.thr, r.cats, a, b, 0); auto cats = r.cats; TreeSplit sp = r.cat ? TreeSplit(cats) : TreeSplit(r.thr);
      tr.AddSplit(X, sp, r.f, tree, id, t->LeftChild(id), t->RightChild(id), true); vf::note("split %d -> %s", id, m.str().c_str()); }
    if (!vf::replaying()) check(); }
}
// the three ways to state a split, and the per-node update of the observation map, all agree
static void overloads() {
  int n = 5; Table T(n, std::vector<double>(2)); for (int i = 0; i < n; i++) { int v = vf::choose(4); T[i][0] = v == 3 ? std::nan("") : v; T[i][1] = (i * 2 + v) % 3; } auto X = mat(T);
  std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical};
  int q = vf::choose(RULES.size()), q2 = vf::choose(RULES.size()); vf::transition(2); bool nan = false; for (auto& r : T) nan |= std::isnan(r[0]);
  UnsortedNodeSampleTracker a(n, 2), b(n, 2); FeaturePresortRootContainer rc(X, ft); SortedNodeSampleTracker sa(&rc, X, ft), sb(&rc, X, ft);
  MTree m; m.init(1); int step = 0;
  for (int qq : {q, q2}) { const Rule& r = RULES[qq]; int node = step == 0 ? 0 : (q & 1 ? 1 : 2), l = step == 0 ? 1 : 3, rr = l + 1; auto cats = r.cats; TreeSplit sp = r.cat ? TreeSplit(cats) : TreeSplit(r.thr);
    a.PartitionTreeNode(X, 1, node, l, rr, r.f, sp); sa.PartitionNode(X, node, r.f, sp);
    if (r.cat) { b.PartitionTreeNode(X, 1, node, l, rr, r.f, r.cats); sb.PartitionNode(X, node, r.f, r.cats); } else { b.PartitionTreeNode(X, 1, node, l, rr, r.f, r.thr); sb.PartitionNode(X, node, r.f, r.thr); }
    m.expand(step == 0 ? 0 : node, r.f, r.cat, r.thr, r.cats, {0}, {0}); step++; }
  std::map<int, std::vector<int>> mem; members(m, T, mem); SampleNodeMapper snm(2, n); for (int j = 0; j < 2; j++) snm.AssignAllSamplesToRoot(j); vf::Hash h;
  for (auto& kv : mem) { int id = kv.first; // model ids equal tracker ids here
    auto x = a.TreeNodeIndices(1, id), y = b.TreeNodeIndices(1, id); VF_CHECK(sorted(lst(x.begin(), x.end())) == kv.second && sorted(lst(y.begin(), y.end())) == kv.second, "overload-members", "node %d: %s / %s expected %s", id, ids(lst(x.begin(), x.end())).c_str(), ids(lst(y.begin(), y.end())).c_str(), ids(kv.second).c_str());
    for (int f = 0; f < 2; f++) { auto u = sa.NodeIndices(id, f), v = sb.NodeIndices(id, f); VF_CHECK(sorted(lst(u.begin(), u.end())) == kv.second && sorted(lst(v.begin(), v.end())) == kv.second, "overload-sorted-members", "sorted node %d feature %d: %s / %s expected %s", id, f, ids(lst(u.begin(), u.end())).c_str(), ids(lst(v.begin(), v.end())).c_str(), ids(kv.second).c_str());
      if (!nan && m.n[id].leaf) for (size_t i = 1; i < u.size(); i++) VF_CHECK(T[u[i - 1]][f] <= T[u[i]][f], "presort-order", "node %d feature %d", id, f); }
    VF_CHECK(a.NodeSize(0, 0) == n && a.IsLeaf(0, 0), "other-tree", "splitting tree 1 changed tree 0");
    if (m.n[id].leaf) { if (id & 1) a.UpdateObservationMapping(id, 1, &snm); else sa.UpdateObservationMapping(id, 1, &snm, id % 2); } for (int i : kv.second) h.i(i); }
  SampleNodeMapper cp(snm); for (int i = 0; i < n; i++) { VF_CHECK(snm.GetNodeId(i, 1) == m.route(T[i]) && cp.GetNodeId(i, 1) == m.route(T[i]), "map-update", "observation %d mapped to %d (copy %d), expected %d", i, (int)snm.GetNodeId(i, 1), (int)cp.GetNodeId(i, 1), m.route(T[i])); VF_CHECK(snm.GetNodeId(i, 0) == 0, "other-tree", "tree 0 map changed"); cp.SetNodeId(i, 1, 9); VF_CHECK(snm.GetNodeId(i, 1) == m.route(T[i]), "map-copy-alias", "copied map shares storage"); }
  vf::state(h.h); vf::outcome(h.h);
}
// cached predictions: each write affects exactly its own cells
static void preds() {
  auto X = mat(TABLES[0]); std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical}; ForestTracker tr(X, ft, 2, 4); double M[2][4];
  tr.AssignAllSamplesToConstantPrediction(1.5); for (auto& r : M) for (double& v : r) v = 1.5;
  for (int s = 0; s < 4; s++) { int o = vf::choose(11); vf::transition(); double v = s + 0.25;
    if (o < 8) { tr.SetTreeSamplePrediction(o % 4, o / 4, v); M[o / 4][o % 4] = v; } else if (o < 10) { tr.AssignAllSamplesToConstantPrediction(o - 8, v); for (double& x : M[o - 8]) x = v; } else { tr.AssignAllSamplesToConstantPrediction(v); for (auto& r : M) for (double& x : r) x = v; }
    if (s == 2) { tr.AssignAllSamplesToRoot(); tr.ResetRoot(X, ft, 0); }
    vf::Hash h; for (int j = 0; j < 2; j++) for (int i = 0; i < 4; i++) { h.d(M[j][i]); VF_CHECK(tr.GetTreeSamplePrediction(i, j) == M[j][i] && tr.GetSamplePredMapper()->GetPred(i, j) == M[j][i], "cached-prediction", "tree %d obs %d holds %g, expected %g", j, i, tr.GetTreeSamplePrediction(i, j), M[j][i]); } vf::state(h.h); vf::outcome(h.h); }
}
// many observations, features, levels and trees; each step is one of a few operations aimed at the current shape
static void wide(int depth) {
  static const int NN[] = {37, 150, 1300}; int n = NN[vf::choose(3)]; if (n > 1000) depth = std::min(depth, 3); int p = 5, nt = 3; Table T(n, std::vector<double>(p)); for (int i = 0; i < n; i++) { T[i][0] = 0.1 * ((i * 37) % 101) - 3.3; T[i][1] = (i * 7) % 40; T[i][2] = 1e6 + 0.01 * (i % 9); T[i][3] = (i * i) % 3; T[i][4] = 1e-3 * std::sin(i * 1.7); }
  auto X = mat(T); std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical, FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kNumeric}; bool presort = vf::choose(2);
  ForestTracker tr(X, ft, nt, n); tr.AssignAllSamplesToRoot(); std::vector<MTree> m(nt); std::vector<std::unique_ptr<Tree>> t; for (int j = 0; j < nt; j++) { m[j].init(1); t.emplace_back(new Tree()); t[j]->Init(1); }
  std::vector<uint32_t> odd; for (uint32_t v = 1; v < 40; v += 2) odd.push_back(v); std::vector<double> z{0}, a{1}, b{2}; int cur = 0; if (presort) tr.ResetRoot(X, ft, 0);
  for (int s = 0; s < depth; s++) { MTree& mm = m[cur]; Tree* tp = t[cur].get(); auto im = idmap(mm, *tp); std::map<int, std::vector<int>> mem; members(mm, T, mem); vf::transition(); auto L = mm.leaves(); int big = L[0], last = L[0]; for (int k : L) { if (mem[k].size() > mem[big].size()) big = k; if (k > last) last = k; }
    int o = vf::choose(presort ? 5 : 8); auto split = [&](int k, int f, bool cat, double thr, std::vector<uint32_t> cats) { int id = im.at(k); vfm::expand(mm, *tp, k, id, f, cat, thr, cats, a, b, s & 1); TreeSplit sp = cat ? TreeSplit(cats) : TreeSplit(thr); tr.AddSplit(X, sp, f, cur, id, tp->LeftChild(id), tp->RightChild(id), presort); };
    auto med = [&](int k, int f) { std::vector<double> v; for (int i : mem[k]) v.push_back(T[i][f]); if (v.empty()) return 0.25; std::sort(v.begin(), v.end()); return v[v.size() / 2]; };
    if (o == 0) split(big, 0, false, med(big, 0), {}); else if (o == 1) split(big, 1, true, 0, odd); else if (o == 2) split(last, 2, false, med(last, 2), {}); else if (o == 3) split(last, 4, false, 1e-4, {});
    else if (o == 4) { cur = (cur + 1) % nt; if (presort) { t[cur]->Init(1); m[cur].init(1); tr.ResetRoot(X, ft, cur); } }
    else { auto I = mm.internals(); if (I.empty()) return; int k = o == 5 ? I.back() : o == 6 ? I[I.size() / 2] : I[0]; if (o == 7) { tp->Init(1); mm.init(1); tr.ResetRoot(X, ft, cur); } else { int id = im.at(k), l = tp->LeftChild(id), r = tp->RightChild(id); tp->CollapseToLeaf(id, 3.); mm.collapse(k, {3.}); tr.RemoveSplit(X, tp, cur, id, l, r, false); } }
    vf::note("operation %d on tree %d -> %s", o, cur, m[cur].str().c_str()); if (vf::replaying()) continue;
    vf::Hash h; h.i(n); for (int j = 0; j < nt; j++) h.i(check_tree(m[j], *t[j], T, tr, j)).i(m[j].hash());
    if (presort) { auto jm = idmap(m[cur], *t[cur]); std::map<int, std::vector<int>> mb; members(m[cur], T, mb); for (auto& kv : jm) for (int f = 0; f < p; f++) { auto got = lst(tr.SortedNodeBeginIterator(kv.second, f), tr.SortedNodeEndIterator(kv.second, f)); VF_CHECK(sorted(got) == mb[kv.first], "sorted-members", "feature %d node %d of %d observations: members differ", f, kv.second, n); if (m[cur].n[kv.first].leaf) for (size_t q = 1; q < got.size(); q++) VF_CHECK(T[got[q - 1]][f] <= T[got[q]][f], "presort-order", "feature %d leaf %d of %d observations is not sorted", f, kv.second, n); } }
    vf::state(h.h); vf::outcome(h.h); } }
static void setup() {
  int sh = 0;
#ifdef SHALLOW
  sh = 1;
#endif
  auto d = [=](int q, int t) { return (vf::thorough() ? t : q) - sh; };
  vf::add("two-trees", [=] { history(d(4, 5), 3, true); });
  vf::add("one-tree", [=] { history(d(4, 5), 5, false); });
  vf::add("one-tree-deep", [=] { history(d(5, 7), 2, false); });
  vf::add("sorted-growth", [=] { sorted_growth(d(4, 5), vf::thorough() ? 4 : 3); });
  vf::add("overloads", overloads);
  vf::add("cached-predictions", preds);
  vf::add("wide", [=] { wide(d(5, 6)); });
}
VF_MAIN

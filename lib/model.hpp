// Reference (abstract) decision tree, written from the documented semantics only,
// and the comparison of an implementation tree against it.
#pragma once
#include "vf.hpp"
#include <stochtree/tree.h>
#include <stochtree/ensemble.h>
#include <stochtree/container.h>
#include <stochtree/data.h>
#include <algorithm>
#include <limits>
namespace vfm {
using StochTree::Tree; using StochTree::TreeSplit; using StochTree::TreeEnsemble; using StochTree::ForestContainer; using StochTree::ForestDataset;

struct MNode { bool leaf = true, cat = false; int feat = -1; double thr = 0; std::vector<uint32_t> cats; std::vector<double> val; int l = -1, r = -1, parent = -1, depth = 0; bool alive = true; };
// Abstract tree; ids are private to the model (never reused).
struct MTree {
  int dim = 1; std::vector<MNode> n;
  void init(int d) { dim = d; n.clear(); MNode r; r.val.assign(d, 0.); n.push_back(r); }
  std::vector<int> pre() const { std::vector<int> o, st{0}; while (!st.empty()) { int k = st.back(); st.pop_back(); o.push_back(k); if (!n[k].leaf) { st.push_back(n[k].r); st.push_back(n[k].l); } } return o; }
  std::vector<int> leaves() const { std::vector<int> o; for (int k : pre()) if (n[k].leaf) o.push_back(k); return o; }
  std::vector<int> internals() const { std::vector<int> o; for (int k : pre()) if (!n[k].leaf) o.push_back(k); return o; }
  void expand(int k, int feat, bool cat, double thr, std::vector<uint32_t> cats, std::vector<double> lv, std::vector<double> rv) {
    MNode a, b; a.val = lv; b.val = rv; a.parent = b.parent = k; a.depth = b.depth = n[k].depth + 1;
    n.push_back(a); n.push_back(b); MNode& m = n[k]; m.leaf = false; m.feat = feat; m.cat = cat; m.thr = thr; m.cats = cats; m.l = n.size() - 2; m.r = n.size() - 1; }
  void collapse(int k, std::vector<double> v) { MNode& m = n[k]; m.leaf = true; m.l = m.r = -1; m.val = v; }
  // the documented routing rule
  int route(const std::vector<double>& x) const { int k = 0; while (!n[k].leaf) { double f = x[n[k].feat]; bool left;
      if (std::isnan(f)) left = true;
      else if (!n[k].cat) left = f <= n[k].thr;
      else { left = false; for (uint32_t c : n[k].cats) if ((double)c == std::floor(f) && f >= 0) left = true; }
      k = left ? n[k].l : n[k].r; } return k; }
  uint64_t hash() const { vf::Hash h; h.i(dim); for (int k : pre()) { auto& m = n[k]; h.i(m.leaf); if (m.leaf) for (double v : m.val) h.d(v); else { h.i(m.feat).i(m.cat); if (m.cat) for (auto c : m.cats) h.i(c); else h.d(m.thr); } } return h.h; }
  std::string str(int k = 0) const { auto& m = n[k]; std::string s; if (m.leaf) { s = "("; for (size_t i = 0; i < m.val.size(); i++) s += (i ? "," : "") + vf::fmt("%g", m.val[i]); return s + ")"; }
    s = vf::fmt("[x%d", m.feat); if (m.cat) { s += " in {"; for (size_t i = 0; i < m.cats.size(); i++) s += (i ? "," : "") + std::to_string(m.cats[i]); s += "}"; } else s += vf::fmt("<=%g", m.thr);
    return s + " " + str(m.l) + " " + str(m.r) + "]"; }
};
using IdMap = std::map<int, int>; // model id -> implementation id
inline IdMap idmap(const MTree& m, const Tree& t) { // by position
  IdMap o; std::vector<std::pair<int, int>> st{{0, 0}};
  while (!st.empty()) { auto [k, id] = st.back(); st.pop_back(); o[k] = id;
    VF_CHECK(id >= 0 && id < t.NumNodes(), "node-id-range", "node id %d outside 0..%d", id, t.NumNodes() - 1);
    VF_CHECK(t.IsLeaf(id) == m.n[k].leaf, "leaf-status", "node %d: IsLeaf()=%d, expected %d in %s", id, (int)t.IsLeaf(id), (int)m.n[k].leaf, m.str().c_str());
    if (!m.n[k].leaf) { st.push_back({m.n[k].l, t.LeftChild(id)}); st.push_back({m.n[k].r, t.RightChild(id)}); } }
  return o; }
inline std::string ids(const std::vector<int>& v) { std::string s = "{"; for (int x : v) s += std::to_string(x) + " "; return s + "}"; }
inline void same_set(const char* key, std::vector<int> got, std::vector<int> want) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  VF_CHECK(got == want, key, "%s: got %s expected %s", key, ids(got).c_str(), ids(want).c_str()); }
// full structural comparison of an implementation tree with the model
inline IdMap compare(const MTree& m, Tree& t) {
  IdMap im = idmap(m, t); std::set<int> uniq; std::vector<int> L, I, P; double ssq = 0;
  VF_CHECK(t.OutputDimension() == m.dim, "output-dimension", "OutputDimension %d expected %d", t.OutputDimension(), m.dim);
  VF_CHECK(t.HasVectorOutput() == (m.dim > 1), "has-vector-output", "HasVectorOutput");
  bool anycat = false;
  for (auto& kv : im) { const MNode& n = m.n[kv.first]; int id = kv.second;
    VF_CHECK(uniq.insert(id).second, "node-shared", "node %d appears twice in the tree", id);
    VF_CHECK(t.Parent(id) == (n.parent < 0 ? Tree::kInvalidNodeId : im.at(n.parent)), "parent-link", "node %d has parent %d", id, t.Parent(id));
    VF_CHECK(t.IsRoot(id) == (n.parent < 0), "is-root", "IsRoot(%d)", id);
    VF_CHECK(t.GetDepth(id) == n.depth, "depth", "GetDepth(%d)=%d expected %d", id, t.GetDepth(id), n.depth);
    if (n.leaf) { L.push_back(id);
      VF_CHECK(t.NodeType(id) == StochTree::kLeafNode, "node-type", "leaf %d has type %d", id, (int)t.NodeType(id));
      VF_CHECK(t.LeftChild(id) == Tree::kInvalidNodeId && t.RightChild(id) == Tree::kInvalidNodeId, "leaf-children", "leaf %d has children %d %d", id, t.LeftChild(id), t.RightChild(id));
      VF_CHECK(!t.IsLeafParent(id), "leaf-parent-query", "leaf %d IsLeafParent", id);
      double s = 0; for (int d = 0; d < m.dim; d++) { s += n.val[d] * n.val[d]; VF_CHECK(t.LeafValue(id, d) == n.val[d], "leaf-value", "LeafValue(%d,%d)=%.17g expected %.17g", id, d, t.LeafValue(id, d), n.val[d]); }
      if (m.dim == 1) VF_CHECK(t.LeafValue(id) == n.val[0] && t.PredictFromNode(id) == n.val[0], "leaf-value", "LeafValue(%d)=%.17g expected %.17g", id, t.LeafValue(id), n.val[0]);
      else { auto v = t.LeafVector(id); VF_CHECK(v == n.val, "leaf-vector", "LeafVector(%d) has %d entries or wrong content", id, (int)v.size()); }
      VF_CHECK(vf::close(t.SumSquaredNodeValues(id), s, 1e-12, 0), "sum-squared-node", "SumSquaredNodeValues(%d)=%.17g expected %.17g", id, t.SumSquaredNodeValues(id), s); ssq += s;
    } else { I.push_back(id);
      VF_CHECK(t.SplitIndex(id) == n.feat, "split-index", "SplitIndex(%d)=%d expected %d", id, t.SplitIndex(id), n.feat);
      VF_CHECK(t.DefaultChild(id) == im.at(n.l), "default-child", "DefaultChild(%d)=%d expected left child %d", id, t.DefaultChild(id), im.at(n.l));
      if (n.cat) { anycat = true; VF_CHECK(t.NodeType(id) == StochTree::kCategoricalSplitNode, "node-type", "categorical split node %d has type %d", id, (int)t.NodeType(id));
        auto c = t.CategoryList(id); auto a = n.cats; std::sort(c.begin(), c.end()); std::sort(a.begin(), a.end()); VF_CHECK(c == a, "category-list", "CategoryList(%d) has %d entries, expected %d, or differs", id, (int)c.size(), (int)a.size()); }
      else { VF_CHECK(t.NodeType(id) == StochTree::kNumericalSplitNode, "node-type", "numeric split node %d has type %d", id, (int)t.NodeType(id));
        VF_CHECK(t.Threshold(id) == n.thr, "threshold", "Threshold(%d)=%.17g expected %.17g", id, t.Threshold(id), n.thr); }
      bool lp = m.n[n.l].leaf && m.n[n.r].leaf; if (lp) P.push_back(id);
      VF_CHECK(t.IsLeafParent(id) == lp, "leaf-parent-query", "IsLeafParent(%d)=%d expected %d", id, (int)t.IsLeafParent(id), (int)lp); } }
  same_set("leaf-list", t.GetLeaves(), L); same_set("internal-list", t.GetInternalNodes(), I); same_set("leaf-parent-list", t.GetLeafParents(), P);
  VF_CHECK(t.NumLeaves() == (int)L.size(), "num-leaves", "NumLeaves %d expected %d", t.NumLeaves(), (int)L.size());
  VF_CHECK(t.NumLeafParents() == (int)P.size(), "num-leaf-parents", "NumLeafParents %d expected %d", t.NumLeafParents(), (int)P.size());
  VF_CHECK(t.NumSplitNodes() == (int)I.size(), "num-split-nodes", "NumSplitNodes %d expected %d", t.NumSplitNodes(), (int)I.size());
  VF_CHECK(t.NumValidNodes() == (int)(L.size() + I.size()), "num-valid-nodes", "NumValidNodes %d expected %d", t.NumValidNodes(), (int)(L.size() + I.size()));
  VF_CHECK(t.IsRoot() == (L.size() == 1), "is-stump", "IsRoot()=%d with %d leaves", (int)t.IsRoot(), (int)L.size());
  VF_CHECK(vf::close(t.SumSquaredLeafValues(), ssq, 1e-12, 0), "sum-squared-leaves", "SumSquaredLeafValues %.17g expected %.17g", t.SumSquaredLeafValues(), ssq);
  if (anycat) VF_CHECK(t.HasCategoricalSplit(), "has-categorical", "HasCategoricalSplit is false although the tree has a categorical split");
  int visited = 0; t.WalkTree([&](int id) { visited++; return uniq.count(id) > 0; });
  VF_CHECK(visited == (int)uniq.size(), "walk-tree", "WalkTree visited %d nodes of %d", visited, (int)uniq.size());
  return im; }
// apply an expansion to both sides; via: 0 direct overload, 1 through TreeSplit
inline void expand(MTree& m, Tree& t, int k, int id, int feat, bool cat, double thr, std::vector<uint32_t> cats, std::vector<double> lv, std::vector<double> rv, int via) {
  if (m.dim == 1) {
    if (via) { TreeSplit s = cat ? TreeSplit(cats) : TreeSplit(thr); t.ExpandNode(id, feat, s, lv[0], rv[0]); }
    else if (cat) t.ExpandNode(id, feat, cats, lv[0], rv[0]); else t.ExpandNode(id, feat, thr, lv[0], rv[0]);
  } else {
    if (via) { TreeSplit s = cat ? TreeSplit(cats) : TreeSplit(thr); t.ExpandNode(id, feat, s, lv, rv); }
    else if (cat) t.ExpandNode(id, feat, cats, lv, rv); else t.ExpandNode(id, feat, thr, lv, rv);
  }
  m.expand(k, feat, cat, thr, cats, lv, rv); }
// a large tree by a fixed pseudo-random history of grow and prune steps (even variables numeric, odd ones categorical with codes 0..12)
struct Lcg { uint64_t s; unsigned operator()(unsigned k) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33) % k; } };
inline void overgrow(MTree& m, StochTree::Tree& t, int d, uint64_t seed, int steps, int p) {
  Lcg g{seed * 7919 + 17}; auto val = [&] { std::vector<double> v(d); for (double& x : v) x = (int)g(2001) / 700. - 1.4; return v; };
  m.init(d); for (int i = 0; i < steps; i++) { auto im = idmap(m, t); std::vector<int> lp; for (int k : m.internals()) if (m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) lp.push_back(k);
    if (i % 4 == 3 && !lp.empty()) { int k = lp[g(lp.size())]; auto v = val(); if (d == 1) t.CollapseToLeaf(im.at(k), v[0]); else t.CollapseToLeaf(im.at(k), v); m.collapse(k, v); continue; }
    auto L = m.leaves(); int k = L[g(L.size())], f = g(p); std::vector<uint32_t> c; if (f % 2) { std::set<uint32_t> u; int z = 1 + g(7); while ((int)u.size() < z) u.insert(g(13)); c.assign(u.begin(), u.end()); } auto a = val(), b = val(); expand(m, t, k, im.at(k), f, f % 2, f % 2 ? 0 : (int)g(401) / 100. - 2.003, c, a, b, i & 1); } }
inline std::vector<std::vector<double>> rows_for(int n, int p, uint64_t seed) { Lcg g{seed + 5}; std::vector<std::vector<double>> r(n, std::vector<double>(p)); for (auto& x : r) for (int j = 0; j < p; j++) x[j] = j % 2 ? (double)g(15) : g(40) == 0 ? std::nan("") : (int)g(4001) / 1000. - 2; return r; }
}  // namespace vfm

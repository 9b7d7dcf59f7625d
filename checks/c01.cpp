// C01: every bounded history of tree edits keeps the tree equal to the abstract tree it denotes.
#include "model.hpp"
using namespace vfm;
static std::vector<double> val(int dim, int base) { std::vector<double> v(dim); for (int d = 0; d < dim; d++) v[d] = base + 0.25 * d; return v; }

static void history(int dim, int depth, int max_leaves, bool lean) {
  Tree a, b; Tree* t = &a; Tree* other = &b; MTree m; m.init(dim); t->Init(dim);
  // the other tree has a life of its own before it becomes the target of a clone / load
  other->Init(dim); { MTree dummy; dummy.init(dim); expand(dummy, *other, 0, 0, 5, true, 0, {7, 9}, val(dim, 900), val(dim, 901), 0);
    if (dim == 1) other->CollapseToLeaf(0, 902.); else other->CollapseToLeaf(0, val(dim, 902)); }
  compare(m, *t); int fresh = 1;
  for (int step = 0; step < depth; step++) {
    auto im = idmap(m, *t); auto L = m.leaves(), I = m.internals();
    // alphabet: expand(leaf, kind) | collapse(internal) | set value(leaf) | change-to-leaf(leaf parent) | clone | json | reinit
    struct Op { int kind, node, arg; }; std::vector<Op> ops;
    if ((int)L.size() < max_leaves) for (int k : L) { ops.push_back({0, k, 0}); ops.push_back({0, k, 1}); }
    for (int k : I) ops.push_back({1, k, 0});
    ops.push_back({2, L[L.size() / 2], 0});
    for (int k : I) if (!lean && m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) ops.push_back({3, k, 0});
    if (I.size() + (size_t)(t->NumNodes() > 1) > 0) { ops.push_back({4, 0, 0}); ops.push_back({5, 0, 0}); ops.push_back({6, 0, 0}); if (!lean) ops.push_back({7, 0, 0}); }
    Op o = ops[vf::choose(ops.size(), "op")]; int base = 10 * ++fresh;
    vf::transition();
    switch (o.kind) {
      case 0: { int feat = step % 3; std::vector<uint32_t> cats; for (int c = 0; c <= step % 3; c++) cats.push_back(c * 2 + step); // lists of different lengths
        vf::note("expand node %d on x%d %s", im.at(o.node), feat, o.arg ? "categorical" : "numeric");
        expand(m, *t, o.node, im.at(o.node), feat, o.arg, base + 0.5, cats, val(dim, base), val(dim, base + 1), (step ^ o.arg) & 1); break; }
      case 1: vf::note("collapse node %d", im.at(o.node)); if (dim == 1) t->CollapseToLeaf(im.at(o.node), base); else t->CollapseToLeaf(im.at(o.node), val(dim, base)); m.collapse(o.node, val(dim, base)); break;
      case 2: vf::note("set leaf %d", im.at(o.node)); if (dim == 1) t->SetLeaf(im.at(o.node), base); else t->SetLeafVector(im.at(o.node), val(dim, base)); m.n[o.node].val = val(dim, base); break;
      case 3: vf::note("change-to-leaf %d", im.at(o.node)); if (dim == 1) t->ChangeToLeaf(im.at(o.node), base); else t->ChangeToLeaf(im.at(o.node), val(dim, base)); m.collapse(o.node, val(dim, base)); break;
      case 4: { vf::note("clone into a used tree, vandalise the source"); other->CloneFromTree(t); VF_CHECK(*other == *t, "clone-not-equal", "clone compares different from its source");
        MTree m2 = m; auto im2 = compare(m2, *t); int lf = m2.leaves()[0]; expand(m2, *t, lf, im2.at(lf), 1, true, 0, {77}, val(dim, -5), val(dim, -6), 0); compare(m2, *t); std::swap(t, other); break; }
      case 5: { vf::note("json reload into a used tree"); auto j = t->to_json(); auto j2 = nlohmann::json::parse(j.dump()); other->from_json(j2); std::swap(t, other); break; }
      case 6: vf::note("re-initialise"); if (step & 1) t->Reset(); t->Init(dim); m.init(dim); break;
      case 7: vf::note("reset and re-initialise with another output dimension and back"); t->Reset(); t->Init(dim == 1 ? 2 : 1); t->Reset(); t->Init(dim); m.init(dim); break;
    }
    if (vf::replaying()) continue;
    compare(m, *t); vf::note("   -> %s", m.str().c_str());
    vf::state(vf::Hash().i(m.hash()).i(t->NumNodes()).h); vf::outcome(m.hash());
  }
}
// the trees of a forest: edits, resets, clones between slots and copies of the whole forest touch exactly what they name
static void forest(int dim, int depth) {
  const int T = 2; auto live = std::make_unique<TreeEnsemble>(T, dim, dim == 1); std::unique_ptr<TreeEnsemble> old; std::vector<MTree> m(T), om; for (auto& x : m) x.init(dim); bool vandal = false;
  auto audit = [&](TreeEnsemble& e, std::vector<MTree>& w, const char* what) { int L = 0; double q = 0; bool roots = true; for (int t = 0; t < T; t++) { compare(w[t], *e.GetTree(t)); for (int k : w[t].leaves()) { L++; for (double v : w[t].n[k].val) q += v * v; } roots &= w[t].n[0].leaf; }
    VF_CHECK(e.NumTrees() == T && e.OutputDimension() == dim && e.IsLeafConstant() == (dim == 1) && e.NumLeaves() == L && e.AllRoots() == roots && vf::close(e.SumLeafSquared(), q, 1e-12, 0), "forest-totals", "%s: %d trees, %d leaves (expected %d), sum of squares %g (expected %g), all roots %d", what, e.NumTrees(), e.NumLeaves(), L, e.SumLeafSquared(), q, (int)e.AllRoots()); };
  for (int s = 0; s < depth; s++) { struct Op { int kind, tree, node, arg; }; std::vector<Op> ops;
    for (int t = 0; t < T; t++) { auto L = m[t].leaves(); if (L.size() < 4) for (int a = 0; a < 2; a++) { ops.push_back({0, t, L.front(), a}); if (L.size() > 1 && a == (s & 1)) ops.push_back({0, t, L.back(), a}); } for (int k : m[t].internals()) ops.push_back({1, t, k, 0}); if (L.size() > 1) ops.push_back({2, t, 0, 0}); if (L.size() > 1 || m[1 - t].internals().size()) ops.push_back({3, t, 0, 0}); }
    ops.push_back({4, 0, 0, 0}); bool roots = true; for (auto& x : m) roots &= x.n[0].leaf; if (roots) ops.push_back({5, 0, 0, 0});
    Op o = ops[vf::choose(ops.size(), "op")]; vf::transition(); int base = 10 * (s + 1); Tree* t = live->GetTree(o.tree);
    switch (o.kind) {
      case 0: expand(m[o.tree], *t, o.node, idmap(m[o.tree], *t).at(o.node), s % 3, o.arg, base + .5, {(uint32_t)s, (uint32_t)s + 2}, val(dim, base), val(dim, base + 1), s & 1); break;
      case 1: { int id = idmap(m[o.tree], *t).at(o.node); if (dim == 1) t->CollapseToLeaf(id, base); else t->CollapseToLeaf(id, val(dim, base)); m[o.tree].collapse(o.node, val(dim, base)); break; }
      case 2: live->ResetInitTree(o.tree); m[o.tree].init(dim); break;
      case 3: live->ResetTree(1 - o.tree); live->CloneFromExistingTree(1 - o.tree, t); m[1 - o.tree] = m[o.tree]; break; // the next edits must not reach the source
      case 4: { auto c = std::make_unique<TreeEnsemble>(*live); old = std::move(live); om = m; live = std::move(c); vandal = false; break; }
      case 5: if (dim == 1) live->SetLeafValue(base); else { auto v = val(dim, base); live->SetLeafVector(v); } for (auto& x : m) x.n[0].val = val(dim, base); break; }
    vf::note("op %d tree %d -> %s | %s", o.kind, o.tree, m[0].str().c_str(), m[1].str().c_str()); if (vf::replaying()) continue;
    audit(*live, m, "forest"); if (old) { audit(*old, om, "source of the copy"); if (!vandal && s + 1 < depth) { int k = om[1].leaves()[0]; expand(om[1], *old->GetTree(1), k, idmap(om[1], *old->GetTree(1)).at(k), 7, true, 0, {9}, val(dim, -1), val(dim, -2), 0); vandal = true; audit(*old, om, "edited source"); audit(*live, m, "copy after its source was edited"); } }
    vf::Hash h; for (auto& x : m) h.i(x.hash()); for (auto& x : om) h.i(x.hash()); vf::state(h.h); vf::outcome(h.h); } }
#ifndef SHALLOW
#define SHALLOW 0
#endif
static void setup() {
  const char* tag = SHALLOW ? "asan:" : "";
  auto d = [](int q, int t) { return (vf::thorough() ? t : q) - SHALLOW; };
  vf::add(std::string(tag) + "scalar", [=] { history(1, d(6, 7), 4, false); });
  vf::add(std::string(tag) + "vector", [=] { history(2, d(6, 7), 4, false); });
  vf::add(std::string(tag) + "scalar-long", [=] { history(1, d(7, 9), 3, true); });
  vf::add(std::string(tag) + "forest", [=] { forest(1 + vf::choose(2), d(5, 6)); });
  vf::add(std::string(tag) + "vector3", [=] { history(3, d(6, 8), 3, true); });
}
VF_MAIN

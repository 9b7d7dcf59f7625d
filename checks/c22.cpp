// C22: leaf indices and kernels of every bounded ensemble against the reference routing rule.
#include "vf.hpp"
#include "model.hpp"
#include <stochtree/kernel.h>
using namespace vfm; using StochTree::ForestKernel;
typedef Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> MapT;
typedef std::vector<std::vector<double>> Rows;
static double NaN() { return std::numeric_limits<double>::quiet_NaN(); }
struct Rule { int feat; bool cat; double thr; std::vector<uint32_t> cats; };
static const std::vector<Rule> RULES = {{0, false, 0.5, {}}, {1, true, 0, {0, 2}}, {0, false, -1, {}}, {1, true, 0, {1}}, {2, false, 2, {}}};
static Rows grid(int k) { Rows g; std::vector<double> a = {-2, -1, 0.5, 1, NaN()}, b = {0, 1, 2, 3}, c = {2, 2.5};
  if (k == 0) { for (double x : a) for (double y : b) for (double z : c) g.push_back({x, y, z}); }
  else if (k == 1) g = {{1, 0, 2}, {-1, 1, 3}, {0.5, 2, 2}, {1, 0, 2}, {-3, 1, 0}}; else if (k == 2) g = {{0.75, 1, 5}}; else g = {{-1, 2, 2.5}, {NaN(), NaN(), 1}, {4, 7, 2}};
  return g; }
static Eigen::MatrixXd mat(const Rows& r) { Eigen::MatrixXd m(r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) m(i, j) = r[i][j]; return m; }
static void grow(MTree& m, Tree& t, int leafpos, const Rule& r) { auto im = idmap(m, t); int k = m.leaves()[leafpos]; std::vector<double> a(m.dim, 1.5), b(m.dim, -0.5); vfm::expand(m, t, k, im.at(k), r.feat, r.cat, r.thr, r.cats, a, b, 0); }
static void prune(MTree& m, Tree& t, int k) { auto im = idmap(m, t); if (m.dim == 1) t.CollapseToLeaf(im.at(k), 0.25); else t.CollapseToLeaf(im.at(k), std::vector<double>(m.dim, 0.25)); m.collapse(k, std::vector<double>(m.dim, 0.25)); }
static void shape(int s, MTree& m, Tree& t) { // node slots are recycled in shapes 3 and up
  switch (s) { case 0: break; case 1: grow(m, t, 0, RULES[0]); break; case 2: grow(m, t, 0, RULES[1]); grow(m, t, 1, RULES[2]); break;
    case 3: grow(m, t, 0, RULES[0]); grow(m, t, 0, RULES[3]); grow(m, t, 2, RULES[1]); prune(m, t, m.n[0].l); grow(m, t, 1, RULES[4]); break;
    case 4: grow(m, t, 0, RULES[2]); prune(m, t, 0); grow(m, t, 0, RULES[3]); grow(m, t, 0, RULES[0]); break;
    default: grow(m, t, 0, RULES[0]); grow(m, t, 1, RULES[1]); grow(m, t, 0, RULES[2]); prune(m, t, m.n[0].r); prune(m, t, m.n[0].l); grow(m, t, 0, RULES[4]); grow(m, t, 0, RULES[3]); } }
static void history(int depth, MTree& m, Tree& t) { for (int i = 0; i < depth; i++) { std::vector<int> lp; for (int k : m.internals()) if (m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) lp.push_back(k);
    int L = m.leaves().size(), nr = vf::thorough() ? 5 : 4, o = vf::choose(L * nr + lp.size()); vf::transition(); if (o < L * nr) grow(m, t, o / nr, RULES[o % nr]); else prune(m, t, lp[o - L * nr]); } }
struct Case { std::vector<MTree> m; std::unique_ptr<ForestContainer> fc; TreeEnsemble* e; };
static Case make(int nt, int dim, int depth, int fixed = -1) { Case c; c.fc.reset(new ForestContainer(nt, dim, dim == 1)); c.fc->AddSamples(1); c.e = c.fc->GetEnsemble(0); for (int j = 0; j < nt; j++) { c.m.emplace_back(); c.m[j].init(dim);
    if (fixed >= 0) shape((fixed + 2 * j) % 6, c.m[j], *c.e->GetTree(j)); else if (j == 0) history(depth, c.m[j], *c.e->GetTree(j)); else shape(vf::choose(6), c.m[j], *c.e->GetTree(j)); }
  return c; }
struct Ref { std::vector<std::vector<int>> leaf; std::vector<int> nleaves; }; // leaf[j][i]
static Ref ref(const Case& c, const Rows& r) { Ref f; for (auto& m : c.m) { std::vector<int> v; for (auto& x : r) v.push_back(m.route(x)); f.leaf.push_back(v); f.nleaves.push_back(m.leaves().size()); } return f; }
// identifiers of rows of one or two datasets: same identifier exactly when same leaf, and the documented block of numbers per tree
static void ids_ok(const std::vector<int32_t>& got, const Ref& f, size_t n, const char* what, std::vector<std::map<int, int>>& name) {
  size_t T = f.leaf.size(); VF_CHECK(got.size() == T * n, "index-length", "%s: %zu leaf indices for %zu trees and %zu rows", what, got.size(), T, n); name.resize(T); int base = 0;
  for (size_t j = 0; j < T; j++) { for (size_t i = 0; i < n; i++) { int g = got[j * n + i];
      VF_CHECK(g >= base && g < base + f.nleaves[j], "index-block", "%s: row %zu has leaf index %d in tree %zu, whose leaves are numbered %d to %d", what, i, g, j, base, base + f.nleaves[j] - 1);
      for (auto& kv : name[j]) VF_CHECK((kv.second == g) == (kv.first == f.leaf[j][i]), "co-membership", "%s: row %zu and an earlier row %s leaf of tree %zu but have indices %d and %d", what, i, kv.first == f.leaf[j][i] ? "share a" : "are in different", j, g, kv.second);
      name[j][f.leaf[j][i]] = g; } base += f.nleaves[j]; } }
template <class M> static void ker_ok(const M& K, const Ref& a, size_t n, const Ref& b, size_t q, const char* what) {
  VF_CHECK((size_t)K.rows() == n && (size_t)K.cols() == q, "kernel-shape", "%s is %d x %d, expected %zu x %zu", what, (int)K.rows(), (int)K.cols(), n, q);
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < q; k++) { int s = 0; for (size_t j = 0; j < a.leaf.size(); j++) s += a.leaf[j][i] == b.leaf[j][k]; VF_CHECK(K(i, k) == s, "kernel-value", "%s(%zu,%zu) = %g but the rows share a leaf in %d trees", what, i, k, K(i, k), s); } }
// one call on a kernel object; kind 0-1 leaf indices, 2-3 kernel, 4-5 kernel into caller's matrices (odd: with a test set)
static void call(ForestKernel& fk, Case& c, TreeEnsemble& e, int kind, bool map, const Rows& tr, const Rows& te) {
  Ref a = ref(c, tr), b = ref(c, te); size_t n = tr.size(), q = te.size(); Eigen::MatrixXd X = mat(tr), Z = mat(te); MapT mx(X.data(), X.rows(), X.cols()), mz(Z.data(), Z.rows(), Z.cols()); bool test = kind % 2; vf::transition();
  std::vector<double> k1(n * n, -7), k2(q * n, -7), k3(q * q, -7); MapT e1(k1.data(), n, n), e2(k2.data(), q, n), e3(k3.data(), q, q);
  switch (kind) {
    case 0: map ? fk.ComputeLeafIndices(mx, e) : fk.ComputeLeafIndices(X, e); break;
    case 1: map ? fk.ComputeLeafIndices(mx, mz, e) : fk.ComputeLeafIndices(X, Z, e); break;
    case 2: map ? fk.ComputeKernel(mx, e) : fk.ComputeKernel(X, e); break;
    case 3: map ? fk.ComputeKernel(mx, mz, e) : fk.ComputeKernel(X, Z, e); break;
    case 4: map ? fk.ComputeKernelExternal(mx, e, e1) : fk.ComputeKernelExternal(X, e, e1); break;
    case 5: map ? fk.ComputeKernelExternal(mx, mz, e, e1, e2, e3) : fk.ComputeKernelExternal(X, Z, e, e1, e2, e3); break; }
  std::vector<std::map<int, int>> nm; VF_CHECK(fk.HasTrainLeafIndices() && fk.NumTrees() == (int)c.m.size() && (size_t)fk.NumTrainObservations() == n, "kernel-sizes", "sizes reported after a call"); ids_ok(fk.GetTrainLeafIndices(), a, n, "train leaf indices", nm);
  if (test) { VF_CHECK(fk.HasTestLeafIndices() && (size_t)fk.NumTestObservations() == q, "kernel-sizes", "test sizes reported after a call"); ids_ok(fk.GetTestLeafIndices(), b, q, "test leaf indices", nm); }
  if (kind == 2 || kind == 3) { VF_CHECK(fk.HasTrainKernel(), "kernel-stored", "HasTrainKernel is false after ComputeKernel"); ker_ok(fk.GetTrainKernel(), a, n, a, n, "train kernel"); }
  if (kind == 3) { VF_CHECK(fk.HasTestKernel(), "kernel-stored", "HasTestKernel is false after ComputeKernel"); ker_ok(fk.GetTestTrainKernel(), b, q, a, n, "test-train kernel"); ker_ok(fk.GetTestKernel(), b, q, b, q, "test kernel"); }
  if (kind >= 4) ker_ok(e1, a, n, a, n, "train kernel (caller's matrix)");
  if (kind == 5) { ker_ok(e2, b, q, a, n, "test-train kernel (caller's matrix)"); ker_ok(e3, b, q, b, q, "test kernel (caller's matrix)"); } }
static void direct(Case& c, TreeEnsemble& e, const Rows& tr) { // the ensemble's and the trees' own leaf index calls
  Ref a = ref(c, tr); size_t n = tr.size(), T = c.m.size(); Eigen::MatrixXd X = mat(tr); MapT mx(X.data(), X.rows(), X.cols()); ForestDataset ds; Eigen::MatrixXd Y = X; ds.AddCovariates(Y.data(), Y.rows(), Y.cols(), false);
  std::vector<std::map<int, int>> nm; ids_ok(e.PredictLeafIndices(&ds), a, n, "PredictLeafIndices", nm);
  for (int k = 0; k < 3; k++) { std::vector<int32_t> o(T * n + 3, -9); if (k == 0) e.PredictLeafIndicesInplace(&ds, o, T, n); else if (k == 1) e.PredictLeafIndicesInplace(X, o, T, n); else e.PredictLeafIndicesInplace(mx, o, T, n);
    for (int q = 0; q < 3; q++) VF_CHECK(o[T * n + q] == -9, "index-overrun", "PredictLeafIndicesInplace wrote past the ensemble's indices"); o.resize(T * n); ids_ok(o, a, n, "PredictLeafIndicesInplace", nm); }
  for (size_t j = 0; j < T; j++) for (int k = 0; k < 3; k++) { std::vector<int32_t> o(n + 4, -9); Tree* t = e.GetTree(j); if (k == 0) t->PredictLeafIndexInplace(&ds, o, 2, 10); else if (k == 1) t->PredictLeafIndexInplace(X, o, 2, 10); else t->PredictLeafIndexInplace(mx, o, 2, 10);
    VF_CHECK(o[0] == -9 && o[1] == -9 && o[n + 2] == -9 && o[n + 3] == -9, "index-overrun", "PredictLeafIndexInplace wrote outside its range"); std::map<int, int> seen;
    for (size_t i = 0; i < n; i++) { int g = o[i + 2] - 10; VF_CHECK(g >= 0 && g < a.nleaves[j], "index-block", "tree leaf index %d of %d", g, a.nleaves[j]); for (auto& kv : seen) VF_CHECK((kv.second == g) == (kv.first == a.leaf[j][i]), "co-membership", "tree leaf index of row %zu", i); seen[a.leaf[j][i]] = g; } } }
static void ensembles(int nt, int depth) {
  int dim = nt == 3 ? 1 : 1 + vf::choose(2); Case c = make(nt, dim, depth); int via = vf::choose(3); TreeEnsemble* e = c.e; ForestContainer fd(nt, dim, dim == 1);
  if (via == 1) { c.fc->AddSamples(1); c.fc->CopyFromPreviousSample(1, 0); e = c.fc->GetEnsemble(1); } else if (via == 2) { fd.from_json(c.fc->to_json()); e = fd.GetEnsemble(0); }
  if (vf::replaying()) return;
  Rows tr = grid(0), te = grid(3); direct(c, *e, tr); for (int kind = 0; kind < 6; kind++) for (int map = 0; map < 2; map++) { ForestKernel fk; call(fk, c, *e, kind, map, kind < 2 ? tr : grid(1), te); }
  vf::Hash h; for (auto& m : c.m) h.i(m.hash()); vf::state(h.i(via).h); Ref a = ref(c, tr); vf::Hash o; for (auto& v : a.leaf) for (int x : v) o.i(x); vf::outcome(o.h); }
static void reuse(int depth) { // histories of calls on one kernel object, over two ensembles and three datasets
  Case c[2]; int sh = vf::choose(6); c[0] = make(2, 1, 0, sh); c[1] = make(3, 2, 1, sh + 1); ForestKernel fk; vf::Hash h;
  VF_CHECK(!fk.HasTrainLeafIndices() && !fk.HasTestLeafIndices() && !fk.HasTrainKernel() && !fk.HasTestKernel(), "kernel-fresh", "a new kernel object claims results");
  for (int s = 0; s < depth; s++) { int w = vf::choose(2), kind = vf::choose(6), map = vf::choose(2), tr = 1 + vf::choose(3), te = kind % 2 ? 1 + vf::choose(3) : 1; call(fk, c[w], *c[w].e, kind, map, grid(tr), grid(te)); h.i(w).i(kind).i(tr).i(te); vf::state(h.h); }
  vf::outcome(h.h); }
static void large() { // many trees of many leaves, many rows
  static const int NT[] = {3, 12, 60, 3, 300}; int size = vf::choose(5), nt = NT[size], dim = 1 + vf::choose(2), steps = vf::choose(2) ? 60 : 11, seed = vf::choose(vf::thorough() ? 12 : 3), via = vf::choose(2); Case c; c.fc.reset(new ForestContainer(nt, dim, dim == 1)); c.fc->AddSamples(1); c.e = c.fc->GetEnsemble(0); c.m.resize(nt); vf::transition(); if (vf::replaying()) return;
  for (int j = 0; j < nt; j++) overgrow(c.m[j], *c.e->GetTree(j), dim, seed * 100 + j, steps + j % 5, 5); ForestContainer fd(nt, dim, dim == 1); TreeEnsemble* e = c.e; if (via) { fd.from_json(c.fc->to_json()); e = fd.GetEnsemble(0); }
  Rows tr = rows_for(size >= 3 ? 20 : 120, 5, seed), te = rows_for(size == 3 ? 2100 : 33, 5, seed + 50); direct(c, *e, tr); for (int kind = 0; kind < 6; kind++) { ForestKernel fk; call(fk, c, *e, kind, kind & 1, tr, te); }
  vf::Hash h; for (auto& m : c.m) h.i(m.hash()); vf::state(h.i(via).h); vf::outcome(h.h); }
int main(int argc, char** argv) {
  vf::add("one-tree", [] { ensembles(1, vf::thorough() ? 5 : 4); }); vf::add("two-trees", [] { ensembles(2, vf::thorough() ? 4 : 3); }); vf::add("three-trees", [] { ensembles(3, vf::thorough() ? 3 : 2); }); vf::add("reuse", [] { reuse(vf::thorough() ? 3 : 2); });
  vf::add("large", large); return vf::main_(argc, argv); }

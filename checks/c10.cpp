// C10: JSON round trips of trees, ensembles and containers over bounded edit histories, with every further edit compared
// between the reloaded forest, the original and the reference model; sampling continued on a reloaded container.
#include "world.hpp"
#include <filesystem>
using namespace vfm; using vfw::Config; using vfw::World; using vfw::Driver; using vfw::Draw; using StochTree::FeatureType;
static const double VALS[] = {0.1, -1. / 3, 1e-308 / 4, -123456789.123456789, 5e300, 2. / 7, -0.0, 3, 1e-17, 0.7}; static int vc;
static std::vector<double> val(int d) { std::vector<double> v(d); for (double& x : v) x = VALS[vc++ % 10]; return v; }
struct Op { int kind, k, r; }; // 0..3 expand with rule r; 4 collapse; 5 set leaf
static const double THR[] = {0.1 + 0.2, -1e-9};
static std::vector<Op> menu(const MTree& m) { std::vector<Op> o; for (int k : m.leaves()) { for (int r = 0; r < 4; r++) o.push_back({0, k, r}); o.push_back({5, k, 0}); } for (int k : m.internals()) if (m.n[m.n[k].l].leaf && m.n[m.n[k].r].leaf) o.push_back({4, k, 0}); return o; }
static void apply(MTree& m, Tree& t, Op o, bool model) { int d = m.dim; auto im = idmap(m, t); int id = im.at(o.k); MTree dummy; MTree& mm = model ? m : dummy; if (!model) dummy = m;
  if (o.kind == 0) { auto l = val(d), r = val(d); static const std::vector<std::vector<uint32_t>> CT = {{0, 2}, {1, 4294967295u, 70000}}; bool cat = o.r >= 2; vfm::expand(mm, t, o.k, id, o.r % 2, cat, cat ? 0 : THR[o.r], cat ? CT[o.r - 2] : std::vector<uint32_t>{}, l, r, o.r & 1); }
  else { auto v = val(d); if (o.kind == 4) { if (d == 1) t.CollapseToLeaf(id, v[0]); else t.CollapseToLeaf(id, v); mm.collapse(o.k, v); } else { if (d == 1) t.SetLeaf(id, v[0]); else t.SetLeafVector(id, v); mm.n[o.k].val = v; } } }
static void bits(const MTree& m, Tree& t) { auto im = idmap(m, t); for (int k : m.pre()) { auto& n = m.n[k]; if (n.leaf) { for (int q = 0; q < m.dim; q++) { double g = t.LeafValue(im[k], q); VF_CHECK(std::memcmp(&g, &n.val[q], 8) == 0, "value-bits", "leaf value %.20g came back as %.20g", n.val[q], g); } } else if (!n.cat) VF_CHECK(t.Threshold(im[k]) == n.thr, "value-bits", "threshold %.20g came back as %.20g", n.thr, t.Threshold(im[k])); } }
static void tree(int depth) {
  int d = 1 + vf::choose(3); vc = vf::choose(3) * 3; Tree t; MTree m; t.Init(d); m.init(d);
  for (int s = 0; s < depth; s++) { auto o = menu(m); if (s >= depth - 1 && !vf::thorough()) { std::vector<Op> p; for (auto& q : o) if (q.kind != 5) p.push_back(q); o = p; } int q = vf::choose(o.size() + 1); if (q == (int)o.size()) break; apply(m, t, o[q], true); vf::transition(); }
  if (vf::replaying()) return; vf::prune_if_seen(vf::Hash().s(t.to_json().dump()).h, 0);
  auto j = t.to_json(); std::string s = j.dump(), before = s; Tree u; u.Init(1 + (d % 3)); u.from_json(nlohmann::json::parse(s));
  compare(m, u); bits(m, u); VF_CHECK(u.to_json().dump() == s, "redump", "re-dumped document differs"); VF_CHECK(t.to_json().dump() == before, "source-changed", "dumping changed the tree");
  { Tree v; v.from_json(j); compare(m, v); Tree w; w.Init(2); w.ExpandNode(0, 0, 1.0, std::vector<double>{1, 2}, std::vector<double>{3, 4}); w.from_json(j); compare(m, w); VF_CHECK(w.to_json().dump() == s, "redump", "loading over an existing tree kept old content"); }
  int c0 = vc; for (auto& o : menu(m)) { Tree a; a.from_json(j); Tree b; b.from_json(nlohmann::json::parse(s)); b.from_json(nlohmann::json::parse(s)); MTree mm = m; vc = c0; apply(mm, a, o, true); vf::transition(); compare(mm, a); bits(mm, a); Tree c; c.CloneFromTree(&t); MTree mc = m; vc = c0; apply(mc, c, o, true); VF_CHECK(vfw::shape(mm) == vfw::shape(mc), "edit-differs", "models diverged"); compare(mc, c); vc = c0; apply(m, b, o, false); compare(mm, b); Tree e; e.from_json(a.to_json()); compare(mm, e); vf::count("edits_after_reload"); }
  compare(m, t); VF_CHECK(t.to_json().dump() == before, "shared-state", "editing reloaded copies changed the source"); vf::state(vf::Hash().s(s).h); vf::outcome(m.hash()); }
static void container() {
  int d = 1 + vf::choose(2), S = vf::choose(4), T = 1 + vf::choose(2), mode = vf::choose(4); bool lc = d == 1 ? vf::choose(2) : false; vc = 0; ForestContainer fc(T, d, lc); std::vector<std::vector<MTree>> M;
  bool init = S == 0 && vf::choose(2); if (init) { std::vector<double> v = {0.1, 0.2}; if (d == 1) fc.InitializeRoot(0.1); else fc.InitializeRoot(v); }
  for (int s = 0; s < S; s++) { fc.AddSamples(1); std::vector<MTree> r(T); if (s && vf::choose(2)) { fc.CopyFromPreviousSample(s, s - 1); r = M[s - 1]; } else for (auto& m : r) m.init(d); int e = vf::choose(s < 2 ? 3 : 2); for (int q = 0; q < e; q++) { int k = q % T; auto o = menu(r[k]); Op op = o[vf::choose(std::min<int>(o.size(), vf::thorough() ? 5 : 3))]; apply(r[k], *fc.GetEnsemble(s)->GetTree(k), op, true); vf::transition(); } M.push_back(r); }
  if (vf::replaying()) return; std::string s = fc.to_json().dump(); ForestContainer g(3, 2, false); std::string file;
  if (mode & 1) { g.AddSamples(2); std::vector<double> v{9, 9}; g.GetEnsemble(1)->GetTree(0)->SetLeafVector(0, v); } // loading replaces previous content
  if (mode & 2) { file = vf::fmt("%s/vf_c10_%d.json", std::filesystem::temp_directory_path().c_str(), (int)getpid()); fc.SaveToJsonFile(file); g.LoadFromJsonFile(file); std::filesystem::remove(file); } else g.from_json(nlohmann::json::parse(s));
  VF_CHECK(g.to_json().dump() == s, "redump", "re-dumped container differs: %.300s vs %.300s", g.to_json().dump().c_str(), s.c_str());
  VF_CHECK(g.NumSamples() == S && g.NumTrees() == T && g.OutputDimension() == d && g.IsLeafConstant() == lc, "metadata", "reloaded container: %d samples %d trees", g.NumSamples(), g.NumTrees());
  double x[] = {-1, 0, 0.2, 1, 0.7, 2, NAN, 3}; double bb[] = {1, 2, 3, 4, 5, 6, 7, 8}; StochTree::ForestDataset ds; ds.AddCovariates(x, 4, 2, true); if (!lc) ds.AddBasis(bb, 4, d, true); VF_CHECK(fc.Predict(ds) == g.Predict(ds) && fc.PredictRaw(ds) == g.PredictRaw(ds), "prediction", "reloaded container predicts differently");
  for (int a = 0; a < S; a++) { VF_CHECK(g.NumTrees(a) == T && g.OutputDimension(a) == d && g.IsLeafConstant(a) == lc, "metadata", "reloaded sample %d metadata", a); for (int t = 0; t < T; t++) { compare(M[a][t], *g.GetEnsemble(a)->GetTree(t)); bits(M[a][t], *g.GetEnsemble(a)->GetTree(t)); } }
  if (init) { for (int t = 0; t < T; t++) VF_CHECK(g.GetEnsemble(0)->GetTree(t)->LeafValue(0, 0) == 0.1, "initial-values", "initial leaf values were lost"); }
  // continue: append a sample derived from the last, edit it; neither earlier samples nor the source change
  if (S) { std::string src = s, last = g.GetEnsemble(S - 1)->to_json().dump(); g.AddSamples(1); g.CopyFromPreviousSample(S, S - 1); MTree m = M[S - 1][0]; auto mo = menu(m); for (size_t oi = 0; oi < mo.size(); oi += vf::thorough() ? 1 : 4) { auto& o = mo[oi]; ForestContainer h(1, 1, true); h.from_json(g.to_json()); MTree mm = m; apply(mm, *h.GetEnsemble(S)->GetTree(0), o, true); compare(mm, *h.GetEnsemble(S)->GetTree(0)); VF_CHECK(h.GetEnsemble(S - 1)->to_json().dump() == last, "earlier-sample-changed", "editing the appended sample changed its predecessor"); } VF_CHECK(fc.to_json().dump() == src, "shared-state", "editing the reloaded container changed the source"); }
  vf::state(vf::Hash().s(s).h); vf::outcome(vf::Hash().i(S).i(T).i(d).h); }
#ifdef __SANITIZE_ADDRESS__
enum { ASAN = 1 };
#else
enum { ASAN = 0 };
#endif
// counts of two digits and more: trees, samples, nodes, categories
static void large() {
  int d = 1 + vf::choose(3), giant = vf::choose(ASAN ? 1 : 4); auto size = [&](int k, int big, int some, int few) { return giant == k ? big : giant ? 2 : vf::choose(2) ? some : few; }; int S = size(1, 130, 26, 11), T = size(2, 130, 13, 2), steps = giant && giant < 3 ? 3 : size(3, 400, 90, 14), mode = vf::choose(4); bool lc = d == 1; vc = 0; ForestContainer fc(T, d, lc); std::vector<std::vector<MTree>> M(S, std::vector<MTree>(T)); vf::transition(); if (vf::replaying()) return;
  fc.AddSamples(S); for (int s = 0; s < S; s++) for (int t = 0; t < T; t++) overgrow(M[s][t], *fc.GetEnsemble(s)->GetTree(t), d, s * 100 + t, steps + (s + t) % 9, 6);
  std::string s = fc.to_json().dump(); ForestContainer g(3, 2, false); if (mode & 1) { g.AddSamples(30); std::vector<double> v{9, 9}; g.GetEnsemble(1)->GetTree(0)->SetLeafVector(0, v); }
  if (mode & 2) { std::string file = vf::fmt("%s/vf_c10_%d.json", std::filesystem::temp_directory_path().c_str(), (int)getpid()); fc.SaveToJsonFile(file); g.LoadFromJsonFile(file); std::filesystem::remove(file); } else g.from_json(nlohmann::json::parse(s));
  VF_CHECK(g.to_json().dump() == s, "redump", "re-dumped container of %d samples of %d trees differs", S, T); VF_CHECK(g.NumSamples() == S && g.NumTrees() == T && g.OutputDimension() == d && g.IsLeafConstant() == lc, "metadata", "reloaded container: %d samples %d trees", g.NumSamples(), g.NumTrees());
  for (int a = 0; a < S; a++) for (int t = 0; t < T; t++) { Tree& u = *g.GetEnsemble(a)->GetTree(t); compare(M[a][t], u); bits(M[a][t], u); }
  auto r = rows_for(40, 6, 3); std::vector<double> x, b; for (auto& q : r) for (double v : q) x.push_back(v); for (int i = 0; i < 40 * d; i++) b.push_back(i % 7 - 2.5); StochTree::ForestDataset ds; ds.AddCovariates(x.data(), 40, 6, true); if (!lc) ds.AddBasis(b.data(), 40, d, true); VF_CHECK(fc.Predict(ds) == g.Predict(ds) && fc.PredictRaw(ds) == g.PredictRaw(ds), "prediction", "reloaded container predicts differently");
  vf::state(vf::Hash().s(s).i(mode).h); vf::outcome(vf::Hash().i(S).i(T).i(d).h); }
// reload in the middle of sampling: the continued chain is the same chain
static void sampling(int depth) {
  Config c; c.n = 6; c.p = 3; c.X = {-3, 0, 2, -1, 2, 0, -1, 1, 3, 2, 2, 0, 4, 0, 1, 2, 3, 2}; c.vw = {1, 1, 1}; c.ft = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical}; c.model = vf::choose(3); c.d = c.model == 2 ? 2 : 1; c.trees = 2; c.b = c.d == 2 ? std::vector<double>{1, -1, .5, 2, 0, 1, -2, .25, 1, 1, 2, .5} : std::vector<double>{1, -1, 0, 2, .25, -.75}; c.y = {-1, 2.1, .5, -2.3, 1.5, .47}; for (double& v : c.y) v -= 1.27 / 6; c.s2 = .8; c.tau = .7; c.minleaf = 1; c.preinit = vf::choose(2); c.init = c.preinit ? .3 : 0;
  World a(c), b(c); std::vector<double> ans; size_t rp = 0; int nz = 0, budget = 0; Driver D;
  auto explore = [&](const Draw& d) -> double { auto pick = [&](int k) { if (budget <= 0 || k <= 1) return 0; budget--; return vf::choose(k); }; double v; if (d.kind == 'z') v = vfw::ZPAT[nz++ % 5]; else if (d.kind == 'u') v = pick(2) ? 1 - 1e-15 : 1e-300; else if (d.kind == 'r') v = d.a + (d.b - d.a) * (pick(2) ? .8 : .35); else { std::vector<int> o; for (size_t i = 0; i < d.p.size(); i++) if (d.p[i] > 0) o.push_back(i); if (o.size() > 3) o = {o[0], o[o.size() / 2], o.back()}; v = o[pick(o.size())]; } ans.push_back(v); return v; };
  auto replay = [&](const Draw&) -> double { VF_CHECK(rp < ans.size(), "chain-differs", "the reloaded chain asked for more random draws"); return ans[rp++]; }; D.install();
  for (int s = 0; s < depth; s++) { int op = vf::choose(2); budget = vf::thorough() ? 3 : s < 2 ? 2 : 1; ans.clear(); rp = 0; D.policy = explore; if (op) a.gfr(); else a.mcmc();
    { auto j = nlohmann::json::parse(b.fc->to_json().dump()); b.fc.reset(new ForestContainer(1, 1, true)); b.fc->from_json(j); } // reload before every iteration
    D.policy = replay; if (op) b.gfr(); else b.mcmc(); vf::transition(2); if (vf::replaying()) continue; VF_CHECK(rp == ans.size(), "chain-differs", "the reloaded chain used %d of %d random draws", (int)rp, (int)ans.size());
    b.audit("reloaded chain"); for (int i = 0; i < c.n; i++) VF_CHECK(a.res->GetElement(i) == b.res->GetElement(i), "chain-differs", "residual %d: %.17g after reload, %.17g without", i, b.res->GetElement(i), a.res->GetElement(i)); VF_CHECK(a.fc->to_json().dump() == b.fc->to_json().dump(), "chain-differs", "after reloading, iteration %d produced another forest", s); }
  vf::state(vf::Hash().s(a.fc->to_json().dump()).h); vf::outcome(vf::Hash().d(a.res->GetElement(1)).h); }
int main(int argc, char** argv) { vf::add("trees", [] { tree(vf::thorough() ? 4 : 3); }); vf::add("containers", [] { container(); }); vf::add("large-containers", large); vf::add("sampling-continued", [] { sampling(3); }); return vf::main_(argc, argv); }

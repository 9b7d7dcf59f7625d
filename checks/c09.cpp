// C09: forest predictions and their layout, for every small container shape.
#include "model.hpp"
using namespace vfm; using namespace StochTree;
static void grow(MTree& m, Tree& t, int d, int shape, double base) {
  auto val = [&](int k) { std::vector<double> v(d); for (int q = 0; q < d; q++) v[q] = base + 0.37 * k + 1.13 * q * (k + 1); return v; };
  m.init(d); m.n[0].val = val(0); if (d == 1) t.SetLeaf(0, val(0)[0]); else { auto v = val(0); t.SetLeafVector(0, v); }
  if (shape >= 1) vfm::expand(m, t, 0, 0, shape == 2 ? 1 : 0, shape == 2, shape == 2 ? 0 : 0.5, shape == 2 ? std::vector<uint32_t>{0, 2} : std::vector<uint32_t>{}, val(1), val(2), shape & 1);
  if (shape == 3) { auto im = idmap(m, t); int k = m.n[0].r; vfm::expand(m, t, k, im[k], 1, true, 0, {1}, val(3), val(4), 0); }
  if (shape == 4) { auto im = idmap(m, t); int k = m.n[0].l; vfm::expand(m, t, k, im[k], 0, false, -1, {}, val(5), val(6), 1); auto v = val(7); if (d == 1) t.CollapseToLeaf(im[k], v[0]); else t.CollapseToLeaf(im[k], v); m.collapse(k, v); k = m.n[0].r; vfm::expand(m, t, k, im[k], 1, true, 0, {0}, val(8), val(9), 0); } }
static void run(bool big) {
  int d = 1 + vf::choose(3); bool lc = d == 1 ? vf::choose(2) : false; int S = vf::choose(big ? 3 : 4), T = 1 + vf::choose(big ? 2 : 3), n = 1 + vf::choose(4); int how = vf::choose(3);
  static const double X0[] = {0, 1, -2, 0.5}, X1[] = {0, 1, 2, 1}; std::vector<double> x(2 * n), b(n * d), w(n, 2.); bool rm = vf::choose(2);
  for (int i = 0; i < n; i++) { double a[2] = {X0[i], X1[i]}; for (int j = 0; j < 2; j++) x[rm ? i * 2 + j : j * n + i] = a[j]; for (int k = 0; k < d; k++) b[rm ? i * d + k : k * n + i] = 0.5 + i - 1.5 * k; }
  ForestDataset ds; ds.AddCovariates(x.data(), n, 2, rm); if (!lc) ds.AddBasis(b.data(), n, d, rm); bool weights = how == 2; if (weights) ds.AddVarianceWeights(w.data(), n);
  std::unique_ptr<ForestContainer> fc; if (how == 0) fc.reset(new ForestContainer(S, T, d, lc)); else { fc.reset(new ForestContainer(T, d, lc)); if (how == 1) fc->AddSamples(S); else for (int s = 0; s < S; s++) fc->AddSamples(1); }
  std::vector<std::vector<MTree>> M(S, std::vector<MTree>(T)); int free = big ? 4 : 3, used = 0; // the first trees' shapes are enumerated, the rest cycle
  for (int s = 0; s < S; s++) for (int t = 0; t < T; t++) { int sh = used < free ? vf::choose(5) : (s + 2 * t + 1) % 5; used++; grow(M[s][t], *fc->GetEnsemble(s)->GetTree(t), d, sh, 10. * s + 3. * t - 5); }
  int dep = vf::choose(3); if (dep == 1 && S > 0) { fc->AddSamples(1); fc->CopyFromPreviousSample(S, S - 1); M.push_back(M[S - 1]); S++; } else if (dep == 2 && S > 0) { ForestContainer* g = new ForestContainer(1, 1, true); g->from_json(fc->to_json()); fc.reset(g); }
  vf::transition(); if (vf::replaying()) return;
  VF_CHECK(fc->NumSamples() == S && fc->NumTrees() == T && fc->OutputDimension() == d && fc->IsLeafConstant() == lc, "metadata", "container reports %d samples %d trees dimension %d constant %d", fc->NumSamples(), fc->NumTrees(), fc->OutputDimension(), (int)fc->IsLeafConstant());
  auto P = fc->Predict(ds), R = fc->PredictRaw(ds); VF_CHECK((int)P.size() == S * n && (int)R.size() == S * n * d, "size", "prediction has %d entries, raw %d, for %d samples x %d rows x %d outputs", (int)P.size(), (int)R.size(), S, n, d); vf::Hash h; h.i(d).i(S).i(T).i(n).i(lc);
  for (int s = 0; s < S; s++) { auto R1 = fc->PredictRaw(ds, s); VF_CHECK((int)R1.size() == n * d, "size", "raw prediction of one sample has %d entries", (int)R1.size()); std::vector<double> E(n + 3, 777.); fc->GetEnsemble(s)->PredictInplace(ds, E, 2); VF_CHECK(E[0] == 777 && E[1] == 777 && E[n + 2] == 777, "offset", "in-place prediction wrote outside its slice"); int leaves = 0; bool roots = true; double ssq = 0;
    for (int t = 0; t < T; t++) { leaves += M[s][t].leaves().size(); roots &= M[s][t].n[0].leaf; for (int k : M[s][t].leaves()) for (double v : M[s][t].n[k].val) ssq += v * v; }
    VF_CHECK(fc->NumLeaves(s) == leaves && fc->AllRoots(s) == roots && vf::close(fc->GetEnsemble(s)->SumLeafSquared(), ssq, 1e-10, 0), "ensemble-summaries", "sample %d reports %d leaves (expected %d), all roots %d", s, fc->NumLeaves(s), leaves, (int)fc->AllRoots(s));
    for (int i = 0; i < n; i++) { std::vector<double> raw(d, 0.); for (int t = 0; t < T; t++) { auto& m = M[s][t]; auto& v = m.n[m.route({X0[i], X1[i]})].val; for (int k = 0; k < d; k++) raw[k] += v[k]; } double p = 0; for (int k = 0; k < d; k++) p += lc ? raw[k] : raw[k] * (0.5 + i - 1.5 * k); h.d(p);
      VF_CHECK(vf::close(P[s * n + i], p, 1e-10, 1e-10) && vf::close(E[2 + i], p, 1e-10, 1e-10), "prediction", "sample %d row %d: prediction %.12g (in place %.12g), expected %.12g", s, i, P[s * n + i], E[2 + i], p);
      for (int k = 0; k < d; k++) VF_CHECK(vf::close(R[s * n * d + i * d + k], raw[k], 1e-10, 1e-10) && vf::close(R1[i * d + k], raw[k], 1e-10, 1e-10), "raw-prediction", "sample %d row %d output %d: %.12g / %.12g, expected %.12g", s, i, k, R[s * n * d + i * d + k], R1[i * d + k], raw[k]); }
    for (int a = 0; a <= T; a++) for (int e = a; e <= T; e++) { std::vector<double> Q(n); fc->GetEnsemble(s)->PredictInplace(ds, Q, a, e); for (int i = 0; i < n; i++) { double p = 0; for (int t = a; t < e; t++) { auto& m = M[s][t]; auto& v = m.n[m.route({X0[i], X1[i]})].val; for (int k = 0; k < d; k++) p += lc ? v[k] : v[k] * (0.5 + i - 1.5 * k); } VF_CHECK(vf::close(Q[i], p, 1e-10, 1e-10), "tree-range", "trees %d..%d: %.12g expected %.12g", a, e, Q[i], p); } } }
  vf::state(h.h); vf::outcome(h.h); }
// two-digit counts of samples, trees, rows, leaves together, and three- and four-digit counts one at a time
static void large() {
  int d = 1 + vf::choose(3); bool lc = d == 1 ? vf::choose(2) : false; int giant = vf::choose(4); auto size = [&](int k, int big, int some, int few) { return giant == k ? big : giant ? few : vf::choose(2) ? some : few; }; int S = size(1, 130, 12, 3), T = size(2, 270, 31, 4), n = size(3, 2600, 150, 17), steps = size(4, 0, 70, 9), p = 5; bool rm = vf::choose(2); vf::transition(); if (vf::replaying()) return;
  auto r = rows_for(n, p, T); std::vector<double> x(n * p), b(n * d); for (int i = 0; i < n; i++) { for (int j = 0; j < p; j++) x[rm ? i * p + j : j * n + i] = r[i][j]; for (int k = 0; k < d; k++) b[rm ? i * d + k : k * n + i] = 0.5 + i % 11 - 1.5 * k; }
  ForestDataset ds; ds.AddCovariates(x.data(), n, p, rm); if (!lc) ds.AddBasis(b.data(), n, d, rm); ForestContainer fc(T, d, lc); fc.AddSamples(S); std::vector<std::vector<MTree>> M(S, std::vector<MTree>(T)); for (int s = 0; s < S; s++) for (int t = 0; t < T; t++) overgrow(M[s][t], *fc.GetEnsemble(s)->GetTree(t), d, s * 37 + t, steps + t % 6, p);
  auto P = fc.Predict(ds), R = fc.PredictRaw(ds); VF_CHECK((int)P.size() == S * n && (int)R.size() == S * n * d, "size", "prediction has %d entries, raw %d, for %d samples x %d rows x %d outputs", (int)P.size(), (int)R.size(), S, n, d); vf::Hash h; h.i(d).i(S).i(T).i(n).i(lc).i(steps).i(rm);
  for (int s = 0; s < S; s++) { auto R1 = fc.PredictRaw(ds, s); std::vector<double> Q(n); fc.GetEnsemble(s)->PredictInplace(ds, Q, T / 2, T);
    for (int i = 0; i < n; i++) { std::vector<double> raw(d, 0.), tail(d, 0.); for (int t = 0; t < T; t++) { auto& m = M[s][t]; auto& v = m.n[m.route(r[i])].val; for (int k = 0; k < d; k++) { raw[k] += v[k]; if (t >= T / 2) tail[k] += v[k]; } } double q = 0, z = 0; for (int k = 0; k < d; k++) { double w = lc ? 1 : 0.5 + i % 11 - 1.5 * k; q += raw[k] * w; z += tail[k] * w; } h.d(q);
      VF_CHECK(vf::close(P[s * n + i], q, 1e-9, 1e-9), "prediction", "sample %d of %d row %d of %d, %d trees: prediction %.12g, expected %.12g", s, S, i, n, T, P[s * n + i], q); VF_CHECK(vf::close(Q[i], z, 1e-9, 1e-9), "tree-range", "trees %d..%d: %.12g expected %.12g", T / 2, T, Q[i], z);
      for (int k = 0; k < d; k++) VF_CHECK(vf::close(R[s * n * d + i * d + k], raw[k], 1e-9, 1e-9) && vf::close(R1[i * d + k], raw[k], 1e-9, 1e-9), "raw-prediction", "sample %d row %d output %d: %.12g / %.12g, expected %.12g", s, i, k, R[s * n * d + i * d + k], R1[i * d + k], raw[k]); } }
  vf::state(h.h); vf::outcome(h.h); }
int main(int argc, char** argv) { vf::add("containers", [] { run(false); }); vf::add("shapes", [] { if (!vf::thorough()) { vf::choose(1); return; } run(true); }); vf::add("large", large); return vf::main_(argc, argv); }

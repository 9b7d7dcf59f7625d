// C14: every variance draw is an inverse-gamma draw with the exact conjugate parameters.
// The gamma generator is driven: for each draw the shape it was asked for is recorded and a chosen unit-scale
// gamma value u is returned times the requested scale, so draw = scale / u identifies the inverse-gamma scale.
#include "model.hpp"
#include <stochtree/variance_model.h>
#include <stochtree/ig_sampler.h>
using namespace vfm; using namespace StochTree;
static const double U[] = {0.25, 1, 3.5};
struct Drive { double shape = -1; int n = 0; double u; Drive(double uu) : u(uu) { vf::rng().gamma = [this](double a, double b) { shape = a; n++; return b * u; }; } ~Drive() { vf::rng().gamma = nullptr; } };
static void judge(const char* what, const Drive& d, double got, double shape, double scale) {
  vf::count("draws"); VF_CHECK(d.n == 1, "gamma-draws", "%s: %d gamma draws", what, d.n);
  VF_CHECK(vf::close(d.shape, shape, 1e-12, 0), "shape", "%s: shape %.12g, exact conditional %.12g", what, d.shape, shape);
  VF_CHECK(vf::close(got * d.u, scale, 1e-10, 1e-14), "scale", "%s: scale %.12g, exact conditional %.12g", what, got * d.u, scale);
  vf::outcome(vf::Hash().d(std::round(shape * 1e6)).d(std::round(scale * 1e9)).h); }
static void ig() {
  static const double P[] = {0.3, 0.5, 1, 2.5, 10, 1000}, Q[] = {1e-6, 0.2, 1, 7, 1e5}; double a = P[vf::choose(6)], b = Q[vf::choose(5)], u = U[vf::choose(3)]; InverseGammaSampler s; std::mt19937 g(1); vf::transition(); vf::state(vf::Hash().d(a).d(b).d(u).h);
  for (int rep = 0; rep < 2; rep++) { Drive d(u); double v = s.Sample(a, b, g); judge("inverse gamma", d, v, a, b); } }
static const double NU[] = {3, 0.5, 8}, LAM[] = {0.7, 0.05, 4};
static void global() {
  static const double V[] = {-1.5, 0, 0.5, 2}; int nmax = vf::thorough() ? 7 : 5; int n = 1 + vf::choose(nmax), K = n > 5 ? 3 : 4; double nu = NU[vf::choose(3)], lam = LAM[vf::choose(3)]; std::vector<double> y(n); for (auto& v : y) v = V[vf::choose(K)];
  GlobalHomoskedasticVarianceModel m; std::mt19937 g(1); ColumnVector r(y.data(), n); double ss = 0; for (double v : y) ss += v * v; vf::transition(); vf::Hash h; h.d(nu).d(lam); for (double v : y) h.d(v); vf::state(h.h);
  for (double u : U) { Drive d(u); double v = m.SampleVarianceParameter(r.GetData(), nu, lam, g); judge("global variance", d, v, nu + n / 2., nu * lam + ss / 2); }
  // the same model object with other data afterwards carries nothing over
  std::vector<double> z{1, -2, 3}; ColumnVector q(z.data(), 3); { Drive d(1); double v = m.SampleVarianceParameter(q.GetData(), 2, 0.5, g); judge("global variance, second data set", d, v, 3.5, 1 + 7.); }
  for (int i = 0; i < n; i++) VF_CHECK(r.GetElement(i) == y[i], "residual-changed", "drawing the variance changed the residual"); }
// residuals over the whole range of ordinary magnitudes, and long ones: value patterns x scales x offsets x lengths
static void wide() {
  static const int N[] = {1, 2, 3, 7, 16, 33, 100, 257, 1000, 6000}; static const double SC[] = {1e-6, 1e-3, 0.3, 3, 40, 1e4, 1e7}, OFF[] = {0, -1, 5}; int n = N[vf::choose(10)]; double sc = SC[vf::choose(7)], off = OFF[vf::choose(3)]; int pat = vf::choose(4); double nu = NU[vf::choose(3)], lam = LAM[vf::choose(3)];
  std::vector<double> y(n); long double ss = 0; for (int i = 0; i < n; i++) { double z = pat == 0 ? 1 : pat == 1 ? (i % 2 ? -1 : 1) : pat == 2 ? (i * 7 % 11 - 5) / 3.0 : (i == n - 1 ? 8 : 0.01 * (i % 3)); y[i] = sc * (z + off); ss += (long double)y[i] * y[i]; }
  GlobalHomoskedasticVarianceModel m; std::mt19937 g(1); ColumnVector r(y.data(), n); vf::transition(); vf::state(vf::Hash().i(n).d(sc).d(off).i(pat).d(nu).d(lam).h); double scale = nu * lam + (double)ss / 2;
  for (double u : U) { Drive d(u); double v = m.SampleVarianceParameter(r.GetData(), nu, lam, g); vf::count("draws"); VF_CHECK(d.n == 1, "gamma-draws", "%d gamma draws", d.n); VF_CHECK(vf::close(d.shape, nu + n / 2., 1e-12, 0), "shape", "%d residuals: shape %.12g, exact conditional %.12g", n, d.shape, nu + n / 2.); VF_CHECK(vf::close(v * d.u, scale, 1e-9, 0), "scale", "%d residuals of magnitude %g: scale %.12g, exact conditional %.12g", n, sc, v * d.u, scale); } }
// many trees, leaves over the whole range of magnitudes
static void leaf_wide() {
  static const int N[] = {1, 5, 20, 200, 1500}; static const double SC[] = {1e-6, 1e-3, 0.3, 40, 1e4}; int nt = N[vf::choose(5)]; double sc = SC[vf::choose(5)]; int depth = vf::choose(4); double a = NU[vf::choose(3)], b = LAM[vf::choose(3)]; int k = 0, nl = 0; long double ss = 0; TreeEnsemble e(nt, 1, true); auto val = [&]() { k++; return sc * ((k * 5 % 13) - 6) / 4.0; };
  for (int j = 0; j < nt; j++) { Tree* t = e.GetTree(j); double v = val(); t->SetLeaf(0, v); for (int d = 0; d < depth; d++) for (int id : std::vector<std::int32_t>(t->GetLeaves())) if ((id + j + d) % 3 || d == 0) { double l = val(), r = val(); t->ExpandNode(id, d % 2, 0.1 * d, l, r); } for (auto id : t->GetLeaves()) { nl++; ss += (long double)t->LeafValue(id, 0) * t->LeafValue(id, 0); } }
  vf::transition(); vf::state(vf::Hash().i(nt).d(sc).i(depth).d(a).d(b).h); LeafNodeHomoskedasticVarianceModel v; std::mt19937 g(1); double scale = b + (double)ss / 2;
  for (double u : U) { Drive d(u); double x = v.SampleVarianceParameter(&e, a, b, g); vf::count("draws"); VF_CHECK(d.n == 1, "gamma-draws", "%d gamma draws", d.n); VF_CHECK(vf::close(d.shape, a + nl / 2., 1e-12, 0), "shape", "%d leaves: shape %.12g, exact conditional %.12g", nl, d.shape, a + nl / 2.); VF_CHECK(vf::close(x * d.u, scale, 1e-9, 0), "scale", "%d leaves of magnitude %g: scale %.12g, exact conditional %.12g", nl, sc, x * d.u, scale); } }
// ensembles reached by grow/prune histories; leaf values then set from a grid
static void leaf() {
  static const double LV[] = {0.5, -1, 0, 2}; int nt = 1 + vf::choose(vf::thorough() ? 3 : 2), steps = vf::thorough() ? 3 : 2; int container = vf::choose(2); double a = NU[vf::choose(3)], b = LAM[vf::choose(3)];
  TreeEnsemble e(nt, 1, true); ForestContainer fc(nt, 1, true); std::vector<MTree> m(nt); for (auto& t : m) t.init(1); int nv = 0;
  for (int j = 0; j < nt; j++) for (int s = 0; s < steps; s++) { std::vector<std::pair<int, int>> ops; for (int k : m[j].leaves()) if (m[j].n[k].depth < 3) ops.push_back({k, 0}); for (int k : m[j].internals()) if (m[j].n[m[j].n[k].l].leaf && m[j].n[m[j].n[k].r].leaf) ops.push_back({k, 1});
    int q = vf::choose(ops.size() + 1); if (q == (int)ops.size()) break; vf::transition(); Tree* t = e.GetTree(j); auto im = idmap(m[j], *t); int id = im.at(ops[q].first);
    if (!ops[q].second) { double l = LV[nv++ % 4], r = LV[(nv * 3) % 4]; vfm::expand(m[j], *t, ops[q].first, id, 0, false, 0.5, {}, {l}, {r}, 0); } else { double v = LV[(nv++ + 1) % 4]; t->CollapseToLeaf(id, v); m[j].collapse(ops[q].first, {v}); } }
  // one leaf of the ensemble takes every value of the grid, incl. the value of another leaf
  int pick = vf::choose(4); { auto L = m[nt - 1].leaves(); auto im = idmap(m[nt - 1], *e.GetTree(nt - 1)); e.GetTree(nt - 1)->SetLeaf(im.at(L.back()), LV[pick]); m[nt - 1].n[L.back()].val = {LV[pick]}; }
  if (vf::replaying()) return;
  double ss = 0; int nl = 0; vf::Hash h; for (auto& t : m) { h.i(t.hash()); for (int k : t.leaves()) { nl++; ss += t.n[k].val[0] * t.n[k].val[0]; } } vf::state(h.i(container).h);
  TreeEnsemble* target = &e; if (container) { fc.InitializeRoot(0.); fc.AddSamples(2); for (int s = 0; s < 3; s++) for (int j = 0; j < nt; j++) { if (s == 1) fc.GetEnsemble(s)->ResetInitTree(j), fc.GetEnsemble(s)->CloneFromExistingTree(j, e.GetTree(j)); } target = fc.GetEnsemble(1); }
  LeafNodeHomoskedasticVarianceModel v; std::mt19937 g(1); for (double u : U) { Drive d(u); double x = v.SampleVarianceParameter(target, a, b, g); judge("leaf variance", d, x, a + nl / 2., b + ss / 2); }
  for (int j = 0; j < nt; j++) compare(m[j], *target->GetTree(j)); }
static void setup() { vf::add("inverse-gamma", ig); vf::add("global", global); vf::add("leaf-scale", leaf); vf::add("global-wide", wide); vf::add("leaf-scale-wide", leaf_wide); }
VF_MAIN

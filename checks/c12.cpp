// C12: one random-effects iteration draws every parameter from its exact conditional, for every group labelling.
// The normal generator is driven with zero and unit vectors, the gamma generator with a chosen unit-scale value;
// means and covariances so recovered are compared with dense Gaussian conditioning.
#include "vf.hpp"
#include "bayes.hpp"
#include <stochtree/random_effects.h>
using namespace StochTree; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static const std::vector<std::vector<int32_t>> LABELS = {{7, -2, 100, 3}, {0, 1, 2, 3}, {2, 1, 0, -1}, {5, 4, 9, 1000000}};
struct Setup { int n, K, G; std::vector<int32_t> lab; std::vector<double> y, x; std::unique_ptr<ColumnVector> res; RandomEffectsDataset ds; std::unique_ptr<RandomEffectsTracker> tr; std::unique_ptr<MultivariateRegressionRandomEffectsModel> m;
  std::vector<int32_t> uniq; std::map<int32_t, int> num; V alpha; M Sa, Sx, xi; double shape, scale, s2; std::vector<double> wt;
  vfb::Obs obs_group(int32_t l, const V& a) const { vfb::Obs o; o.d = K; for (int i = 0; i < n; i++) if (lab[i] == l) { std::vector<double> b(K); for (int k = 0; k < K; k++) b[k] = x[i * K + k] * a(k); o.add(y[i], wt[i], b); } return o; }
  vfb::Obs obs_all(const M& X) const { vfb::Obs o; o.d = K; for (int i = 0; i < n; i++) { int g = num.at(lab[i]); std::vector<double> b(K); for (int k = 0; k < K; k++) b[k] = x[i * K + k] * X(k, g); o.add(y[i], wt[i], b); } return o; } };
static const double YV[4][5] = {{1, -2, 0.5, 3, -0.7}, {0.3, 0.3, -1, 2, 4}, {-5, 1, 1, 0, 2}, {0, 0, 0, 0, 0}};
static const double XV[2][5] = {{1, 1, 1, 1, 1}, {0.5, -1, 2, 0.25, 3}};
static void labelling(Setup& S) { int set = vf::choose(vf::thorough() ? 4 : 2), L = vf::thorough() ? 4 : 3; for (int i = 0; i < S.n; i++) S.lab.push_back(LABELS[set][vf::choose(L)]); }
static void make(Setup& S, int wts = 0) {
  S.wt.assign(S.n, 1.); if (wts) for (int i = 0; i < S.n; i++) S.wt[i] = 1 + i; int yi = vf::choose(vf::thorough() ? 3 : 2); for (int i = 0; i < S.n; i++) S.y.push_back(YV[yi][i % 5] + 0.13 * (i / 5)); int basis = vf::choose(2); for (int i = 0; i < S.n; i++) for (int k = 0; k < S.K; k++) S.x.push_back(XV[(basis + k) % 2][i % 5] + (k == 2 ? i : 0) - 0.07 * k * (i / 5));
  std::set<int32_t> u(S.lab.begin(), S.lab.end()); S.uniq.assign(u.begin(), u.end()); S.G = S.uniq.size();
  S.res.reset(new ColumnVector(S.y.data(), S.n)); S.ds.AddBasis(S.x.data(), S.n, S.K, true); S.ds.AddGroupLabels(S.lab); if (wts) S.ds.AddVarianceWeights(S.wt.data(), S.n);
  S.tr.reset(new RandomEffectsTracker(S.lab)); VF_CHECK(S.tr->NumCategories() == S.G, "num-groups", "tracker has %d groups, %d distinct labels", S.tr->NumCategories(), S.G);
  std::set<int> seen; for (auto l : S.uniq) { int c = S.tr->CategoryNumber(l); VF_CHECK(c >= 0 && c < S.G && seen.insert(c).second, "group-number", "label %d has number %d of %d", l, c, S.G); S.num[l] = c; }
  S.m.reset(new MultivariateRegressionRandomEffectsModel(S.K, S.G)); int ps = vf::choose(2); S.alpha = V(S.K); for (int k = 0; k < S.K; k++) S.alpha(k) = ps ? -0.5 + k : 1; S.Sa = M::Identity(S.K, S.K) * (ps ? 0.7 : 2); S.Sx = M::Identity(S.K, S.K) * (ps ? 1.5 : 0.4); if (ps && S.K > 1) { S.Sa(0, 1) = S.Sa(1, 0) = 0.3; S.Sx(1, 1) = 3; }
  S.shape = ps ? 2.5 : 1; S.scale = ps ? 0.8 : 1; S.s2 = ps ? 0.6 : 2; S.xi = M(S.K, S.G); for (int k = 0; k < S.K; k++) for (int g = 0; g < S.G; g++) S.xi(k, g) = 0.4 * (k + 1) - 0.3 * g; }
static void reset(Setup& S, MultivariateRegressionRandomEffectsModel& m) { m.SetWorkingParameter(S.alpha); m.SetGroupParameters(S.xi); m.SetWorkingParameterCovariance(S.Sa); m.SetGroupParameterCovariance(S.Sx); m.SetVariancePriorShape(S.shape); m.SetVariancePriorScale(S.scale); }
struct Run { M xi; V a, sig; int normals = 0; std::vector<double> shapes; };
static Run iterate(Setup& S, MultivariateRegressionRandomEffectsModel& m, RandomEffectsTracker& tr, ColumnVector& res, int unit, double u, double amp = 1) {
  Run r; std::mt19937 gen(1); vf::rng().std_normal = [&] { return r.normals++ == unit ? amp : 0.; }; vf::rng().gamma = [&](double a, double b) { r.shapes.push_back(a); return u * b; };
  m.SampleRandomEffects(S.ds, res, tr, S.s2, gen); vf::rng().std_normal = nullptr; vf::rng().gamma = nullptr; r.xi = m.GetGroupParameters(); r.a = m.GetWorkingParameter(); r.sig = m.GetGroupParameterCovariance().diagonal(); return r; }
static void check_run(Setup& S, const Run& r, const V& prevA, double u, const char* wh, bool variance) { // working parameter given the drawn group parameters, variances given them
  V pm; M pc; if (!variance) { vfb::posterior(S.obs_all(r.xi), S.Sa, S.s2, pm, pc); for (int k = 0; k < S.K; k++) VF_CHECK(vf::close(r.a(k), pm(k), 1e-7, 1e-8), "working-parameter-mean", "%s: working parameter %d is %.12g, conditional mean %.12g", wh, k, r.a(k), pm(k)); }
  VF_CHECK((int)r.shapes.size() == S.K, "gamma-draws", "%d gamma draws for %d components", (int)r.shapes.size(), S.K);
  for (int k = 0; k < S.K; k++) { double sc = S.scale; for (int g = 0; g < S.G; g++) sc += r.xi(k, g) * r.xi(k, g) / 2; VF_CHECK(vf::close(r.shapes[k], S.shape + S.G / 2., 1e-12, 0), "variance-shape", "%s: shape %.12g expected %.12g", wh, r.shapes[k], S.shape + S.G / 2.);
    VF_CHECK(vf::close(r.sig(k) * u, sc, 1e-9, 1e-12), "variance-scale", "%s component %d: scale %.12g expected %.12g", wh, k, r.sig(k) * u, sc); } }
static void check_residual(Setup& S, const Run& r, MultivariateRegressionRandomEffectsModel& m, RandomEffectsTracker& tr, ColumnVector& res, const char* wh) {
  std::vector<double> p = m.Predict(S.ds, tr); for (int i = 0; i < S.n; i++) { double e = 0; int g = S.num[S.lab[i]]; for (int k = 0; k < S.K; k++) e += S.x[i * S.K + k] * r.a(k) * r.xi(k, g);
    VF_CHECK(vf::close(p[i], e, 1e-9, 1e-9), "prediction", "%s: prediction of row %d (label %d) %.12g, expected %.12g", wh, i, S.lab[i], p[i], e);
    VF_CHECK(vf::close(res.GetElement(i) + e, S.y[i], 1e-9, 1e-9), "residual", "%s: residual %.12g + prediction %.12g is not the outcome %.12g", wh, res.GetElement(i), e, S.y[i]);
    VF_CHECK(vf::close(tr.GetPrediction(i), e, 1e-9, 1e-9), "tracked-prediction", "%s: tracked prediction %.12g expected %.12g", wh, tr.GetPrediction(i), e); } }
static void exact(Setup& S, const char* tag) {
  if (vf::replaying()) return; double u = 2; vf::Hash h; for (int i = 0; i < S.n; i++) h.i(S.lab[i]).d(S.y[i]); h.d(S.s2).i(S.K).d(S.x[S.n - 1]); vf::state(h.h);
  auto once = [&](int unit, double amp = 1) { reset(S, *S.m); RandomEffectsTracker tr(S.lab); ColumnVector res(S.y.data(), S.n); vf::transition(); Run r = iterate(S, *S.m, tr, res, unit, u, amp); check_residual(S, r, *S.m, tr, res, tag); return r; };
  Run r0 = once(-1); vf::count("iterations"); check_run(S, r0, S.alpha, u, tag, false); int N = r0.normals; VF_CHECK(N >= S.K * (S.G + 1), "normal-draws", "%d normal draws for %d groups and %d components", N, S.G, S.K);
  std::map<int32_t, V> mean; std::map<int32_t, M> cov, acc; M cross = M::Zero(S.K * S.G, S.K * S.G), aacc = M::Zero(S.K, S.K);
  for (auto l : S.uniq) { V pm; M pc; vfb::posterior(S.obs_group(l, S.alpha), S.Sx, S.s2, pm, pc); mean[l] = pm; cov[l] = pc; int g = S.num[l]; for (int k = 0; k < S.K; k++) VF_CHECK(vf::close(r0.xi(k, g), pm(k), 1e-7, 1e-8), "group-parameter-mean", "%s label %d (group %d): %.12g, conditional mean %.12g", tag, l, g, r0.xi(k, g), pm(k)); }
  for (int q = 0; q < N; q++) { Run r = once(q); V d = V::Zero(S.K * S.G); for (int g = 0; g < S.G; g++) for (int k = 0; k < S.K; k++) d(g * S.K + k) = r.xi(k, g) - r0.xi(k, g); cross += d * d.transpose();
    if (d.norm() < 1e-13) { V a = r.a - r0.a; aacc += a * a.transpose(); check_run(S, r, S.alpha, u, tag, true); } else check_run(S, r, S.alpha, u, tag, false); vf::outcome(vf::Hash().d(std::round(r.a(0) * 1e8)).d(std::round(r.xi(0, 0) * 1e8)).h); }
  for (auto l : S.uniq) for (auto l2 : S.uniq) for (int k = 0; k < S.K; k++) for (int k2 = 0; k2 < S.K; k2++) { double e = l == l2 ? cov[l](k, k2) : 0, g = cross(S.num[l] * S.K + k, S.num[l2] * S.K + k2); VF_CHECK(vf::close(g, e, 1e-7, 1e-9), "group-parameter-covariance", "%s labels %d,%d components %d,%d: %.12g expected %.12g", tag, l, l2, k, k2, g, e); }
  V pm; M pc; vfb::posterior(S.obs_all(r0.xi), S.Sa, S.s2, pm, pc); for (int k = 0; k < S.K; k++) for (int k2 = 0; k2 < S.K; k2++) VF_CHECK(vf::close(aacc(k, k2), pc(k, k2), 1e-7, 1e-9), "working-parameter-covariance", "%s: %.12g expected %.12g", tag, aacc(k, k2), pc(k, k2)); }
static void one() { Setup S; S.n = vf::thorough() ? 5 : 4; S.K = 1 + vf::choose(vf::thorough() ? 3 : 2); if (vf::thorough() && S.K == 3) S.n = 4; labelling(S); make(S); exact(S, "one iteration"); }
// ordinary sizes: more groups and observations than the exhaustive labellings have
static void many_groups() { Setup S; S.K = 1 + vf::choose(2); int G = vf::choose(2) ? 13 : 6, per = 1 + vf::choose(4), order = vf::choose(3); for (int q = 0; q < G * per; q++) { int g = order == 0 ? q % G : order == 1 ? q / per : (q * 7 + 3) % G; if (order == 2 && g == 4 && q > G) g = 5; S.lab.push_back(g * 3 - 7); } S.n = S.lab.size(); make(S); exact(S, "many groups"); }
static void weights() { Setup S; S.n = 4; S.K = 1 + vf::choose(2); labelling(S); make(S, 1); 
  // known finding: the sampler ignores the weights. Anything else than exactly that (the unweighted conditionals) is a different violation.
  try { exact(S, "weighted"); } catch (vf::ViolationEx& e) { std::string msg = e.msg; S.wt.assign(S.n, 1.); exact(S, "weighted data set"); vf::fail("rfx-variance-weights-ignored", msg); } }
// several iterations, with the rest of the model changing the residual in between
static void chain() {
  Setup S; S.n = 4; S.K = 1 + vf::choose(2); labelling(S); make(S); reset(S, *S.m); ColumnVector& res = *S.res; int T = vf::thorough() ? 4 : 3; int N = S.K * (S.G + 1);
  for (int t = 0; t < T; t++) { int z = vf::choose(t == 0 ? 2 : 3), ext = t ? vf::choose(2) : 0; double u = z == 1 ? 0.5 : 2; int unit = z == 0 ? -1 : z == 1 ? 0 : N - 1; vf::transition();
    if (ext) for (int i = 0; i < S.n; i++) { double d = 0.37 * (i + 1) - t; S.y[i] += d; res.SetElement(i, res.GetElement(i) + d); }
    V a0 = S.m->GetWorkingParameter(); Setup* s = &S; M Sx = S.m->GetGroupParameterCovariance(); Run r = iterate(S, *S.m, *S.tr, res, unit, u, 1.5); if (vf::replaying()) continue; vf::note("iteration %d", t);
    for (auto l : S.uniq) { V pm; M pc; vfb::posterior(S.obs_group(l, a0), Sx, S.s2, pm, pc); bool hit = false; if (unit >= 0) { V dd = r.xi.col(S.num[l]) - pm; hit = dd.norm() > 1e-9; if (hit && unit < S.K * S.G) { // a draw with one unit normal lies on the posterior ellipsoid of that radius
          double q = dd.dot(pc.ldlt().solve(dd)); VF_CHECK(vf::close(q, 1.5 * 1.5, 1e-6, 1e-6), "group-parameter-draw", "iteration %d label %d: squared posterior distance %.12g expected 2.25", t, l, q); hit = true; } }
      if (!hit || unit >= S.K * S.G) for (int k = 0; k < S.K; k++) VF_CHECK(vf::close(r.xi(k, S.num[l]), pm(k), 1e-6, 1e-8), "group-parameter-mean", "iteration %d label %d: %.12g conditional mean %.12g", t, l, r.xi(k, S.num[l]), pm(k)); }
    check_run(S, r, a0, u, "chain", unit >= S.K * S.G); check_residual(S, r, *S.m, *S.tr, res, "chain"); vf::state(vf::Hash().d(r.a(0)).d(r.xi(0, 0)).d(r.sig(0)).i(t).h); } }
// bookkeeping of group membership for every labelling, incl. singleton and last-position groups, plus relabelling histories
static void tracker() {
  int n = 1 + vf::choose(vf::thorough() ? 7 : 6), set = vf::choose(3); std::vector<int32_t> lab; for (int i = 0; i < n; i++) lab.push_back(LABELS[set][vf::choose(n > 5 ? 3 : 4)]); vf::transition(); if (vf::replaying()) return;
  std::map<int32_t, std::vector<int>> ref; for (int i = 0; i < n; i++) ref[lab[i]].push_back(i); CategorySampleTracker t(lab); RandomEffectsTracker rt(lab); vf::Hash h; for (auto l : lab) h.i(l); vf::state(h.h);
  VF_CHECK(t.NumCategories() == (int)ref.size() && rt.NumCategories() == (int)ref.size(), "num-groups", "%d groups, expected %d", (int)t.NumCategories(), (int)ref.size()); VF_CHECK(t.GetLabelMap().size() == ref.size(), "label-map", "label map has %d entries", (int)t.GetLabelMap().size());
  std::set<int32_t> u(t.GetUniqueGroupIds().begin(), t.GetUniqueGroupIds().end()); VF_CHECK(u.size() == ref.size() && t.GetUniqueGroupIds().size() == ref.size(), "unique-ids", "unique group ids");
  for (auto& kv : ref) { int l = kv.first, c = t.CategoryNumber(l); VF_CHECK(c >= 0 && c < (int)ref.size() && t.GetUniqueGroupIds()[c] == l && rt.CategoryNumber(l) == c, "group-number", "label %d has number %d", l, c);
    auto srt = [](std::vector<data_size_t> v) { std::vector<int> o(v.begin(), v.end()); std::sort(o.begin(), o.end()); return o; };
    VF_CHECK(srt(t.NodeIndices(l)) == kv.second && srt(t.NodeIndicesInternalIndex(c)) == kv.second && srt(rt.NodeIndices(l)) == kv.second && srt(rt.NodeIndicesInternalIndex(c)) == kv.second, "group-members", "members of label %d: %d listed, %d expected", l, (int)t.NodeIndices(l).size(), (int)kv.second.size());
    VF_CHECK((int)t.CategorySize(l) == (int)kv.second.size() && (int)rt.CategorySize(l) == (int)kv.second.size(), "group-size", "label %d has size %d expected %d", l, (int)t.CategorySize(l), (int)kv.second.size());
    VF_CHECK(t.CategoryEnd(l) - t.CategoryBegin(l) == (int)kv.second.size() && rt.CategoryEnd(l) - rt.CategoryBegin(l) == (int)kv.second.size(), "group-range", "label %d covers [%d,%d)", l, (int)t.CategoryBegin(l), (int)t.CategoryEnd(l));
    std::vector<data_size_t> sl(t.indices_.begin() + t.CategoryBegin(l), t.indices_.begin() + t.CategoryEnd(l)); VF_CHECK(srt(sl) == kv.second, "group-range", "range of label %d holds other observations", l); }
  for (int i = 0; i < n; i++) VF_CHECK(rt.GetCategoryId(i) == lab[i] && rt.GetPrediction(i) == 0, "category-id", "observation %d has label %d expected %d", i, (int)rt.GetCategoryId(i), lab[i]);
  // unknown labels are refused and leave the map alone
  for (int bad : {-77, 55, 4242}) { bool thrown = false; try { int c = t.CategoryNumber(bad); vf::note("label %d got %d", bad, c); } catch (std::exception&) { thrown = true; } VF_CHECK(thrown && t.GetLabelMap().size() == ref.size(), "unknown-label", "label %d never seen: %s, map has %d entries for %d groups", bad, thrown ? "refused" : "accepted", (int)t.GetLabelMap().size(), (int)ref.size()); } }
static void mapper() { int n = 1 + vf::choose(3); std::vector<int32_t> lab; for (int i = 0; i < n; i++) lab.push_back(LABELS[0][vf::choose(3)]); SampleCategoryMapper m(lab); int steps = vf::thorough() ? 4 : 3;
  for (int s = 0; s < steps; s++) { int i = vf::choose(n), v = LABELS[3][vf::choose(3)]; m.SetCategoryId(i, v); lab[i] = v; vf::transition(); if (vf::replaying()) continue; SampleCategoryMapper c(m); VF_CHECK(m.NumObservations() == n, "mapper-size", "size");
    for (int k = 0; k < n; k++) VF_CHECK(m.GetCategoryId(k) == lab[k] && c.GetCategoryId(k) == lab[k], "mapper-value", "observation %d maps to %d (copy %d), expected %d", k, m.GetCategoryId(k), c.GetCategoryId(k), lab[k]); vf::Hash h; for (auto l : lab) h.i(l); vf::state(h.h); } }
static void setup() { vf::add("many-groups", many_groups); vf::add("exact-conditionals", one); vf::add("chains", chain); vf::add("tracker", tracker); vf::add("category-mapper", mapper); vf::add("variance-weights", weights); }
VF_MAIN

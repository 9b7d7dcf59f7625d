// C13: stored random-effects draws, prediction by label, unseen labels, and serialization of container and label mapper.
#include "vf.hpp"
#include <stochtree/random_effects.h>
#include <algorithm>
using namespace StochTree; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static const int32_t POOL[] = {3, -5, 0, 1000000, 7, 2}; // distinct labels, any order
static const double VAL[] = {1.5, -0.25, 0.1, 3, -2, 1.0 / 3, 1e-300, 7e12};
struct Sample { V a; M xi; V sig; };
struct W { int K, G, S; std::vector<int32_t> uniq; std::map<int32_t, int> num; std::vector<Sample> s; std::unique_ptr<RandomEffectsTracker> tr; std::unique_ptr<RandomEffectsContainer> c; std::unique_ptr<LabelMapper> lm; std::vector<int32_t> train; std::unique_ptr<MultivariateRegressionRandomEffectsModel> m; };
static void draw(W& w, int s) { Sample q; q.a = V(w.K); q.xi = M(w.K, w.G); q.sig = V(w.K); for (int k = 0; k < w.K; k++) { q.a(k) = VAL[(3 * s + k) % 6]; q.sig(k) = 0.3 + s + 2 * k; for (int g = 0; g < w.G; g++) q.xi(k, g) = VAL[(s + 2 * g + 5 * k) % 8] + g; }
  w.m->SetWorkingParameter(q.a); M sg = M::Identity(w.K, w.K); sg.diagonal() = q.sig; w.m->SetGroupParameterCovariance(sg);
  if (s % 2) w.m->SetGroupParameters(q.xi); else for (int g = 0; g < w.G; g++) { V col = q.xi.col(g); w.m->SetGroupParameter(col, g); }
  w.c->AddSample(*w.m); w.s.push_back(q); }
static void make_large(W& w) { // two-digit numbers of groups and stored draws together, three-digit numbers of one of them
  w.K = 1 + vf::choose(3); int giant = vf::choose(3); w.G = giant == 1 ? 150 : giant ? 3 : vf::choose(2) ? 37 : 12; w.S = giant == 2 ? 130 : giant ? 3 : vf::choose(2) ? 24 : 11; int order = vf::choose(3); for (int g = 0; g < w.G; g++) w.train.push_back(order == 0 ? g + 1 : order == 1 ? (g * 29 % w.G) * 1000 - 7000 : 100 - g);
  std::vector<int32_t> lab = w.train; lab.insert(lab.end(), w.train.rbegin(), w.train.rend()); w.tr.reset(new RandomEffectsTracker(lab)); for (auto l : w.train) w.num[l] = w.tr->CategoryNumber(l); w.uniq = w.train; std::sort(w.uniq.begin(), w.uniq.end());
  w.m.reset(new MultivariateRegressionRandomEffectsModel(w.K, w.G)); w.c.reset(new RandomEffectsContainer(w.K, w.G)); w.lm.reset(new LabelMapper(w.tr->GetLabelMap())); for (int s = 0; s < w.S; s++) { draw(w, s); vf::transition(); } }
static void make(W& w) { w.K = 1 + vf::choose(vf::thorough() ? 3 : 2); w.G = 1 + vf::choose(vf::thorough() ? 4 : 3); w.S = vf::choose(4); std::vector<int32_t> pool(POOL, POOL + (vf::thorough() ? 6 : 5));
  for (int g = 0; g < w.G; g++) { int q = vf::choose(pool.size()); w.train.push_back(pool[q]); pool.erase(pool.begin() + q); } // every ordered selection of distinct labels
  std::vector<int32_t> lab = w.train; if (vf::choose(2)) lab.insert(lab.end(), w.train.rbegin(), w.train.rend()); w.tr.reset(new RandomEffectsTracker(lab)); for (auto l : w.train) w.num[l] = w.tr->CategoryNumber(l); w.uniq = w.train; std::sort(w.uniq.begin(), w.uniq.end());
  w.m.reset(new MultivariateRegressionRandomEffectsModel(w.K, w.G)); w.c.reset(new RandomEffectsContainer(w.K, w.G)); w.lm.reset(new LabelMapper(w.tr->GetLabelMap())); for (int s = 0; s < w.S; s++) { draw(w, s); vf::transition(); } }
static void same(W& w, RandomEffectsContainer& c, const char* wh) {
  VF_CHECK(c.NumSamples() == (int)w.s.size() && c.NumComponents() == w.K && c.NumGroups() == w.G, "container-counts", "%s: %d samples, %d components, %d groups; expected %d %d %d", wh, c.NumSamples(), c.NumComponents(), c.NumGroups(), (int)w.s.size(), w.K, w.G);
  int n = w.s.size(); VF_CHECK((int)c.GetBeta().size() == n * w.K * w.G && (int)c.GetXi().size() == n * w.K * w.G && (int)c.GetAlpha().size() == n * w.K && (int)c.GetSigma().size() == n * w.K, "container-sizes", "%s: stored array sizes", wh);
  for (int s = 0; s < n; s++) for (int k = 0; k < w.K; k++) { VF_CHECK(c.GetAlpha()[s * w.K + k] == w.s[s].a(k) && c.GetSigma()[s * w.K + k] == w.s[s].sig(k), "stored-parameters", "%s: sample %d component %d working parameter %g (expected %g), variance %g (expected %g)", wh, s, k, c.GetAlpha()[s * w.K + k], w.s[s].a(k), c.GetSigma()[s * w.K + k], w.s[s].sig(k));
    for (int g = 0; g < w.G; g++) { int i = s * w.G * w.K + g * w.K + k; VF_CHECK(c.GetXi()[i] == w.s[s].xi(k, g), "stored-parameters", "%s: sample %d group %d component %d: %g expected %g", wh, s, g, k, c.GetXi()[i], w.s[s].xi(k, g)); VF_CHECK(vf::close(c.GetBeta()[i], w.s[s].xi(k, g) * w.s[s].a(k), 1e-15, 0), "stored-effect", "%s: sample %d group %d component %d: effect %g expected %g", wh, s, g, k, c.GetBeta()[i], w.s[s].xi(k, g) * w.s[s].a(k)); } } }
static void same_map(W& w, LabelMapper& lm, const char* wh) { VF_CHECK(lm.Map().size() == w.num.size(), "mapper-size", "%s: label map has %d entries for %d groups", wh, (int)lm.Map().size(), (int)w.num.size()); auto k = lm.Keys(); std::sort(k.begin(), k.end()); VF_CHECK(std::vector<int32_t>(k.begin(), k.end()) == w.uniq, "mapper-keys", "%s: %d keys for %d groups", wh, (int)k.size(), (int)w.uniq.size());
  for (auto& kv : w.num) VF_CHECK(lm.ContainsLabel(kv.first) && lm.CategoryNumber(kv.first) == kv.second, "mapper-value", "%s: label %d maps to %d, expected %d", wh, kv.first, lm.ContainsLabel(kv.first) ? lm.CategoryNumber(kv.first) : -1, kv.second); }
// prediction of every row pattern
static void predict(W& w, RandomEffectsContainer& c, LabelMapper& lm, const std::vector<int32_t>& rows, const char* wh) {
  int n = rows.size(), S = w.s.size(); bool unseen = false; for (auto l : rows) if (!w.num.count(l)) unseen = true; std::vector<double> x(n * w.K); for (int i = 0; i < n; i++) for (int k = 0; k < w.K; k++) x[i * w.K + k] = VAL[(i * 2 + k) % 5] + i;
  RandomEffectsDataset d; d.AddBasis(x.data(), n, w.K, true); auto r = rows; d.AddGroupLabels(r); std::vector<double> out(n * S, -99); bool thrown = false; vf::count("predictions");
  try { c.Predict(d, lm, out); } catch (std::exception&) { thrown = true; }
  same_map(w, lm, wh); same(w, c, wh);
  if (unseen) { if (S) VF_CHECK(thrown, "unseen-label", "%s: rows with a label never seen in training were predicted without any report", wh); }
  else { VF_CHECK(!thrown, "predict-failed", "%s: prediction of known labels was refused", wh);
    for (int s = 0; s < S; s++) for (int i = 0; i < n; i++) { double e = 0, mag = 0; for (int k = 0; k < w.K; k++) { double t = x[i * w.K + k] * w.s[s].a(k) * w.s[s].xi(k, w.num[rows[i]]); e += t; mag += std::fabs(t); }
      VF_CHECK(std::fabs(out[s * n + i] - e) <= 1e-12 * mag, "prediction", "%s: row %d label %d sample %d: %.12g expected %.12g", wh, i, rows[i], s, out[s * n + i], e); vf::outcome(vf::Hash().d(out[s * n + i]).h); } }
  // current-state prediction through the tracker
  if (S) { bool th2 = false; std::vector<double> p; try { p = w.m->Predict(d, *w.tr); } catch (std::exception&) { th2 = true; } VF_CHECK(w.tr->GetLabelMap().size() == w.num.size(), "tracker-map-changed", "%s: predicting changed the tracker's label map", wh);
    if (unseen) VF_CHECK(th2, "unseen-label", "%s: current-state prediction accepted an unseen label", wh); else { VF_CHECK(!th2 && (int)p.size() == n, "predict-failed", "%s: current-state prediction was refused", wh);
      for (int i = 0; i < n; i++) { double e = 0, mag = 0; for (int k = 0; k < w.K; k++) { double t = x[i * w.K + k] * w.s.back().a(k) * w.s.back().xi(k, w.num[rows[i]]); e += t; mag += std::fabs(t); } VF_CHECK(std::fabs(p[i] - e) <= 1e-12 * mag, "prediction", "%s: current-state prediction of row %d %.12g expected %.12g", wh, i, p[i], e); } } } }
static void run(bool large) {
  W w; if (large) make_large(w); else make(w); int form = vf::choose(4); // 0 as sampled, 1 reloaded into fresh objects, 2 into used objects, 3 through text
  int n = large ? 0 : 1 + vf::choose(vf::thorough() ? 4 : 3); std::vector<int32_t> rows; if (large) for (int i = 0; i < 3 * w.G; i++) rows.push_back(w.train[i * 5 % w.G]); int choices = w.G + 1; for (int i = 0; i < n; i++) { int q = vf::choose(choices); rows.push_back(q < w.G ? w.train[q] : -424242); }
  if (vf::replaying()) return; vf::Hash h; h.i(w.K).i(w.G).i(w.S).i(form); for (auto l : w.train) h.i(l); for (auto l : rows) h.i(l); vf::state(h.h); same(w, *w.c, "after sampling"); same_map(w, *w.lm, "after sampling");
  std::unique_ptr<RandomEffectsContainer> c2; std::unique_ptr<LabelMapper> l2; RandomEffectsContainer* c = w.c.get(); LabelMapper* l = w.lm.get();
  if (form) { nlohmann::json jc = w.c->to_json(), jl = w.lm->to_json(); if (form == 3) { jc = nlohmann::json::parse(jc.dump()); jl = nlohmann::json::parse(jl.dump()); }
    c2.reset(new RandomEffectsContainer()); l2.reset(new LabelMapper()); if (form == 2) { W o; o.K = 2; o.G = 2; o.m.reset(new MultivariateRegressionRandomEffectsModel(2, 2)); o.c.reset(new RandomEffectsContainer(2, 2)); draw(o, 0); draw(o, 1); nlohmann::json oj = o.c->to_json(); c2->from_json(oj); std::map<int32_t, int32_t> om{{3, 1}, {999, 0}, {1000000, 5}}; l2.reset(new LabelMapper(om)); }
    c2->from_json(jc); l2->from_json(jl); c = c2.get(); l = l2.get(); same(w, *c, "reloaded"); same_map(w, *l, "reloaded"); VF_CHECK(c->to_json() == w.c->to_json() && l->to_json() == w.lm->to_json(), "rejson", "serializing the reloaded objects gives something else"); }
  predict(w, *c, *l, rows, form ? "reloaded" : "as sampled");
  // sampling continues after the reload, and prediction afterwards still uses every stored draw
  if (form && (w.S < 3 || large)) { auto keep = std::move(w.c); w.c.swap(c2); draw(w, w.S); same(w, *w.c, "sampled after reload"); std::vector<int32_t> all(w.train); predict(w, *w.c, *l, all, "sampled after reload"); } }
static void setup() { vf::add("store-predict-reload", [] { run(false); }); vf::add("large", [] { run(true); }); }
VF_MAIN

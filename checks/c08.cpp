// C08: backfitting bookkeeping over every bounded history of MCMC / grow-from-root iterations and whole-forest residual
// updates, for one forest or two forests sharing a residual.
#include "world.hpp"
using namespace vfw;
#ifdef __SANITIZE_ADDRESS__
enum { ASAN = 1 };
#else
enum { ASAN = 0 };
#endif
struct Sys { Config c[2]; int nf = 1; std::unique_ptr<World> w[2]; std::vector<std::string> snap[2]; std::vector<double> extra; // extra: predictions taken out of / put back into the residual so far
  std::shared_ptr<ColumnVector> res; };
static void check(Sys& S, const char* when) {
  int n = S.c[0].n; for (int f = 0; f < S.nf; f++) { World& w = *S.w[f]; if (w.samples()) w.audit(when);
    VF_CHECK(w.samples() == (int)S.snap[f].size(), "sample-count", "%s: %d samples, expected %d", when, w.samples(), (int)S.snap[f].size());
    for (int s = 0; s < w.samples(); s++) { std::string j = w.fc->GetEnsemble(s)->to_json().dump(); if (S.snap[f][s].empty()) S.snap[f][s] = j; VF_CHECK(j == S.snap[f][s], "earlier-sample-changed", "%s: stored sample %d of %d changed", when, s, w.samples()); } }
  for (int i = 0; i < n; i++) { double e = S.c[0].y[i] + S.extra[i]; for (int f = 0; f < S.nf; f++) if (S.w[f]->samples() || S.c[f].preinit) e -= S.w[f]->predict(i, S.w[f]->samples() ? S.w[f]->samples() - 1 : 0); VF_CHECK(vf::close(S.res->GetElement(i), e, 1e-8, 1e-8), "residual", "%s: residual of observation %d is %.12g; outcome minus current predictions is %.12g", when, i, S.res->GetElement(i), e); } }
static void hist(int kind, int depth, int b0, bool large = false, bool zero = false, bool chain = false) {
  Sys S; S.nf = kind == 2 ? 2 : 1; int giant = large ? vf::choose(ASAN ? 1 : 3) : 0; if (giant) depth = 2; int n = giant == 1 ? 1200 : giant ? 8 : large ? 47 : 6; int ti = giant ? giant - 1 : vf::choose(2);
  static const std::vector<std::vector<double>> TX = {{-3, 0, 2, -1, 2, 0, -1, 1, 3, 2, 2, 0, 4, 0, 1, 2, 3, 2}, {7, 1, 1, -2, 1, 0, 0.5, 1, 1, 3, 0, 2, -4, 0, 0, 1, 2, 2}};
  int mod = kind == 2 ? 1 : vf::choose(3), trees = giant == 2 ? 140 : giant ? 2 : large ? 12 : kind == 1 ? 1 + vf::choose(3) : 2, wt = giant ? 1 : vf::choose(2), pre = vf::choose(2), ml = large ? 3 : 1 + vf::choose(2);
  for (int f = 0; f < S.nf; f++) { Config& c = S.c[f]; c.n = n; c.p = 3; c.X = TX[ti]; c.vw = {1, 1, 1}; c.ft = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical}; c.model = kind == 2 ? f : mod; c.d = c.model == 2 ? 2 : 1; c.trees = kind == 2 && !large ? 1 + vf::choose(2) : trees; c.weights = wt; c.w = {1, 2, .5, 4, .7, 1.5};
    c.b = c.d == 2 ? std::vector<double>{1, -1, .5, 2, 0, 1, -2, .25, 1, 1, 2, .5} : std::vector<double>{1, -1, 0, 2, .25, -.75}; c.y = {-1, 2.1, .5, -2.3, 1.5, .47}; if (c.d == 2) for (double& v : c.y) v -= 1.27 / 6; c.s2 = .8; c.tau = .7; c.minleaf = ml; c.alpha = .95; c.beta = 2; if (large) { c.X.clear(); c.w.clear(); c.b.clear(); c.y.clear(); for (int i = 0; i < n; i++) { c.X.push_back(ti ? 0.1 * ((i * 37) % 101) - 3.3 : 1e5 + 0.01 * (i % 9)); c.X.push_back(i * i % 5); c.X.push_back(i * 7 % (ti ? 3 : 26)); c.w.push_back(0.3 + i % 4); for (int q = 0; q < c.d; q++) c.b.push_back(0.37 * ((i * (q + 3)) % 11) - 1.6); c.y.push_back((ti ? 1 : 80) * std::sin(i * 1.3)); } if (c.d == 2) { double a = 0; for (double v : c.y) a += v; for (double& v : c.y) v -= a / n; } }
    if (zero) for (double& v : c.y) v = 0; // leaf values drawn exactly zero
    c.preinit = pre; c.init = pre ? .3 + .5 * f : 0; c.settle = false; }
  auto yy = S.c[0].y; S.res.reset(new ColumnVector(yy.data(), n)); S.extra.assign(n, 0.); for (int f = 0; f < S.nf; f++) S.w[f].reset(new World(S.c[f], S.res));
  Driver D; int nz = 0, budget = 0, zmode = 0, pat = chain ? vf::choose(4) : 0; uint32_t lcg = 7; D.policy = [&](const Draw& d) -> double { if (d.kind == 'z') return zero ? (zmode == 0 || (zmode == 1 && nz++ % 2) ? .8 : 0) : ZPAT[nz++ % 5]; auto pick = [&](int k) { if (chain) { lcg = lcg * 1664525u + 1013904223u; return (int)((lcg >> 16) % k); } if (budget <= 0 || k <= 1) return 0; budget--; return vf::choose(k); };
    if (d.kind == 'u') return pick(2) ? 1 - 1e-15 : 1e-300; if (d.kind == 'r') return d.a + (d.b - d.a) * (pick(2) ? .8 : .35); std::vector<int> o; for (size_t i = 0; i < d.p.size(); i++) if (d.p[i] > 0) o.push_back(i); VF_CHECK(!o.empty(), "no-choice", "a random choice with no outcome of positive probability");
    if (o.size() > 3) o = {o[0], o[o.size() / 2], o.back()}; return o[pick(o.size())]; };
  D.install();
  if (pre) for (int f = 0; f < S.nf; f++) { S.w[f]->forest_residual(0, false); for (int t = 0; t < S.c[f].trees; t++) for (int i = 0; i < n; i++) VF_CHECK(vf::close(S.w[f]->tr->GetTreeSamplePrediction(i, t), S.c[f].leafdot(std::vector<double>(S.c[f].d, S.c[f].init), i), 1e-12, 1e-12), "cached-prediction", "whole-forest update cached %.12g", S.w[f]->tr->GetTreeSamplePrediction(i, t)); }
  if (!vf::replaying()) check(S, "at the start");
  for (int s = 0; s < depth; s++) {
    std::vector<int> ops; for (int f = 0; f < S.nf; f++) { ops.push_back(f * 4); ops.push_back(f * 4 + 1); if (S.w[f]->samples() || pre) { ops.push_back(f * 4 + 2); } }
    int o = ops[!chain ? vf::choose(ops.size()) : pat == 0 ? 0 : pat == 1 ? s % ops.size() : pat == 2 ? (s < depth / 2 ? 1 : 0) : (s * 5 / 3) % ops.size()], f = o / 4; World& w = *S.w[f]; vf::transition(); if (zero) { zmode = vf::choose(3); nz = 0; } budget = s == 0 ? b0 : std::max(1, b0 - 1); if (vf::thorough()) budget += 1; const char* nm[] = {"MCMC iteration", "grow-from-root iteration", "whole-forest residual add and subtract"}; vf::note("step %d: %s of forest %d", s, nm[o % 4], f);
    if (o % 4 == 0) { w.mcmc(); S.snap[f].push_back(""); } else if (o % 4 == 1) { w.gfr(); S.snap[f].push_back(""); }
    else { int cur = w.samples() ? w.samples() - 1 : 0; std::vector<double> before(n); for (int i = 0; i < n; i++) before[i] = S.res->GetElement(i); bool addfirst = chain ? s % 2 : vf::choose(2); w.forest_residual(cur, addfirst); for (int i = 0; i < n; i++) { double e = before[i] + (addfirst ? 1 : -1) * w.predict(i, cur); VF_CHECK(vf::close(S.res->GetElement(i), e, 1e-9, 1e-9), "forest-residual", "%s the forest of %d trees moved observation %d from %.12g to %.12g, expected %.12g", addfirst ? "adding" : "subtracting", S.c[f].trees, i, before[i], S.res->GetElement(i), e); } w.forest_residual(cur, !addfirst); }
    if (vf::replaying()) continue; check(S, nm[o % 4]); vf::Hash h; for (int q = 0; q < S.nf; q++) { h.i(w.samples()); for (int t = 0; t < S.c[q].trees; t++) if (S.w[q]->samples()) h.i(S.w[q]->tree(t).hash()); } vf::state(h.h); }
  vf::outcome(vf::Hash().d(S.res->GetElement(0)).d(S.res->GetElement(3)).h); }
int main(int argc, char** argv) {
  vf::add("one-forest", [] { hist(1, vf::thorough() ? 3 : 2, 3); }); vf::add("two-forests", [] { hist(2, vf::thorough() ? 3 : 2, 3); }); vf::add("one-forest-deep", [] { hist(1, vf::thorough() ? 5 : 4, 1); }); vf::add("two-forests-deep", [] { hist(2, vf::thorough() ? 4 : 3, 1); }); vf::add("chain", [] { hist(1 + vf::choose(2), vf::thorough() ? 150 : 45, 0, false, false, true); }); vf::add("zero-leaves", [] { hist(1, vf::thorough() ? 3 : 2, 0, false, true); }); vf::add("one-forest-large", [] { hist(1, vf::thorough() ? 4 : 3, 1, true); }); vf::add("two-forests-large", [] { hist(2, vf::thorough() ? 3 : 2, 1, true); }); return vf::main_(argc, argv); }

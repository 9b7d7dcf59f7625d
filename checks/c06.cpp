// C06: the MCMC grow/prune step, one complete Metropolis-Hastings audit at every tree reached by every bounded history of steps.
#include "world.hpp"
using namespace vfw;
static const double UACC = 1e-300, UREJ = 1 - 1e-15;
static std::vector<double> cuts_in(const Config& c, double a, double b) { std::set<double> s; for (int j = 0; j < c.p; j++) { std::set<double> v; for (int i = 0; i < c.n; i++) v.insert(c.x(i, j)); int g = 0, st = v.size() > 12 ? v.size() / 3 : 1; double prev = 0; bool f = true; for (double q : v) { if (!f && g++ % st == 0) s.insert(prev + .375 * (q - prev)); prev = q; f = false; } } std::vector<double> o; for (double t : s) if (t > a && t < b) o.push_back(t); if (o.empty()) o.push_back(a + .5 * (b - a)); return o; }
struct Move { std::vector<double> path; double q = 1, lo = 0, hi = 0; bool draw_u = false; int kind = 0; std::string where; int feat = -1; double thr = 0; MTree after; };
struct Run { Move mv; std::vector<MTree> trees; std::vector<double> partial; };
// one iteration in world w; the moves of tree `focus` follow `path` (then first options), with acceptance draw u; other trees take first options and reject when they can
static Run step(World& w, int focus, std::vector<double> path, std::vector<std::vector<double>>* opts, double u, const std::vector<double>& extra, std::vector<Draw>* log = nullptr) {
  Run R; Driver D; int seg = 0, nz = 0; bool innorm = false; size_t at_ = 0; const Config& c = w.c;
  D.policy = [&](const Draw& d) -> double {
    if (d.kind == 'z') { innorm = true; return ZPAT[nz++ % 5]; }
    if (innorm) { innorm = false; seg++; }
    if (d.kind == 'u') { if (seg == focus) { R.mv.draw_u = true; return u; } return UREJ; }
    std::vector<double> menu; if (d.kind == 'd') { for (size_t i = 0; i < d.p.size(); i++) if (d.p[i] > 0) menu.push_back(i); } else { VF_CHECK(d.kind == 'r' && d.b > d.a, "range", "split point drawn from the range [%.17g, %.17g)", d.a, d.b); menu = cuts_in(c, d.a, d.b); for (double e : extra) if (e >= d.a && e < d.b && std::find(menu.begin(), menu.end(), e) == menu.end()) menu.push_back(e); }
    VF_CHECK(!menu.empty(), "no-choice", "a random choice with no outcome of positive probability");
    if (seg != focus) return menu[0];
    double v = at_ < path.size() ? path[at_] : menu[0]; at_++; R.mv.path.push_back(v); if (opts) opts->push_back(menu);
    if (d.kind == 'd') { VF_CHECK((size_t)v < d.p.size(), "replay", "divergence"); R.mv.q *= d.p[(size_t)v]; } else { R.mv.q /= d.b - d.a; R.mv.lo = d.a; R.mv.hi = d.b; } return v; };
  D.install(); std::vector<MTree> before; bool had = w.samples() > 0 || c.preinit; for (int t = 0; t < c.trees; t++) before.push_back(had ? w.tree(t, w.samples() ? -1 : 0) : MTree()); if (!had) for (auto& m : before) m.init(c.d);
  w.mcmc(); for (int t = 0; t < c.trees; t++) R.trees.push_back(w.tree(t)); VF_CHECK(c.trees == 1 || seg == c.trees - 1, "step-structure", "one iteration over %d trees drew leaf values in %d groups", c.trees, seg + 1);
  // partial residual seen by the focus tree: outcome minus the other trees' predictions at that time
  R.partial = c.y; for (int t = 0; t < c.trees; t++) if (t != focus) for (int i = 0; i < c.n; i++) { auto& m = t < focus ? R.trees[t] : before[t]; R.partial[i] -= c.leafdot(m.n[m.route(c.row(i))].val, i); }
  if (log) *log = D.log; return R; }
// every proposal of tree `focus` from the state that build() reconstructs
static std::vector<Move> proposals(const std::function<std::unique_ptr<World>()>& build, int focus, const MTree& T, const std::vector<double>& extra, std::vector<double>* partial) {
  std::vector<Move> out; std::vector<double> path; auto memT = std::map<int, std::vector<int>>(); bool first = true;
  while (true) { auto w = build(); std::vector<std::vector<double>> opts; Run R = step(*w, focus, path, &opts, UACC, extra); vf::transition(); const Config& c = w->c; Move mv = R.mv; mv.after = R.trees[focus]; if (partial) *partial = R.partial;
    if (first) { memT = members(T, c); first = false; }
    uint64_t a = shape(T), b = shape(mv.after);
    if (!mv.draw_u || a == b) { VF_CHECK(a == b, "move-without-acceptance", "tree changed from %s to %s without an acceptance draw", T.str().c_str(), mv.after.str().c_str()); VF_CHECK(!mv.draw_u, "accept-ignored", "a proposal with acceptance draw %g was not applied to %s", UACC, T.str().c_str()); mv.kind = 0; }
    else { // classify: exactly one grow or one prune
      int diff = 0; for (int k : T.leaves()) { int j = at(mv.after, pos(T, k)); if (j >= 0 && !mv.after.n[j].leaf) { MTree U = T; auto& nd = mv.after.n[j]; std::vector<double> z(c.d, 0.); U.expand(k, nd.feat, nd.cat, nd.thr, nd.cats, z, z); if (shape(U) == b) { mv.kind = 1; mv.where = pos(T, k); mv.feat = nd.feat; mv.thr = nd.thr; diff++;
              VF_CHECK(!nd.cat, "split-kind", "grow move proposed a categorical split"); VF_CHECK(nd.feat >= 0 && nd.feat < c.p && c.vw[nd.feat] > 0, "zero-weight-variable", "split on variable %d of weight %g", nd.feat, c.vw[nd.feat]);
              double lo = 1e300, hi = -1e300; int L = 0; for (int i : memT[k]) { lo = std::min(lo, c.x(i, nd.feat)); hi = std::max(hi, c.x(i, nd.feat)); L += c.x(i, nd.feat) <= nd.thr; } int n = memT[k].size();
              VF_CHECK(nd.thr >= lo && nd.thr <= hi, "range", "split at %.12g outside the node's range [%.12g, %.12g]", nd.thr, lo, hi); VF_CHECK(vf::close(mv.lo, lo, 0, 0) && vf::close(mv.hi, hi, 0, 0), "range", "split point drawn from [%.12g, %.12g], node's values span [%.12g, %.12g]", mv.lo, mv.hi, lo, hi);
              VF_CHECK(L >= c.minleaf && n - L >= c.minleaf, "min-leaf", "split of %d observations into %d and %d, minimum leaf size %d", n, L, n - L, c.minleaf); } } }
      for (int k : T.internals()) if (T.n[T.n[k].l].leaf && T.n[T.n[k].r].leaf) { MTree U = T; U.collapse(k, std::vector<double>(c.d, 0.)); int j = at(mv.after, pos(T, k)); if (j >= 0 && mv.after.n[j].leaf && shape(U) == b) { mv.kind = 2; mv.where = pos(T, k); diff++; } }
      VF_CHECK(diff == 1, "illegal-move", "one step changed %s into %s", T.str().c_str(), mv.after.str().c_str()); }
    w->audit(mv.kind == 1 ? "after an accepted grow" : mv.kind == 2 ? "after an accepted prune" : "after a step without a move");
    out.push_back(mv);
    // next path
    path = mv.path; int i = (int)path.size() - 1; for (; i >= 0; i--) { auto& m = opts[i]; auto it = std::find(m.begin(), m.end(), path[i]); if (it + 1 != m.end()) { path[i] = *(it + 1); path.resize(i + 1); break; } } if (i < 0) break; }
  return out; }
static void mh_audit(const Config& c, const std::function<std::unique_ptr<World>()>& build, int focus, const MTree& T) {
  std::vector<double> partial; auto props = proposals(build, focus, T, {}, &partial); auto mem = members(T, c); double lpT = log_tree_prior(T, c), lmT = log_marginal(T, c, partial);
  // completeness
  bool any = false; for (auto& m : props) any |= m.kind != 0;
  auto offered = [&](int kind, const std::string& w, int f, double t) { for (auto& m : props) if (m.kind == kind && m.where == w && (kind == 2 || (m.feat == f && m.thr == t))) return true; return false; };
  for (int k : T.leaves()) for (int f = 0; f < c.p; f++) if (c.vw[f] > 0) { double lo = 1e300, hi = -1e300; for (int i : mem[k]) { lo = std::min(lo, c.x(i, f)); hi = std::max(hi, c.x(i, f)); } if (lo >= hi) continue; for (double t : cuts_in(c, lo, hi)) { int L = 0; for (int i : mem[k]) L += c.x(i, f) <= t; if (L < c.minleaf || (int)mem[k].size() - L < c.minleaf) continue; VF_CHECK(offered(1, pos(T, k), f, t), "move-missing", "no proposal splits leaf '%s' of %s on variable %d at %g", pos(T, k).c_str(), T.str().c_str(), f, t); } }
  for (int k : T.internals()) if (T.n[T.n[k].l].leaf && T.n[T.n[k].r].leaf) VF_CHECK(offered(2, pos(T, k), 0, 0), "move-missing", "no proposal prunes node '%s' of %s", pos(T, k).c_str(), T.str().c_str());
  // probabilities: total over discrete choices is one is implied; the acceptance threshold of every proposal
  for (auto& m : props) { if (!m.kind) continue; vf::count(m.kind == 1 ? "grow_proposals" : "prune_proposals");
    double q = 0; for (auto& o : props) if (o.kind == m.kind && o.where == m.where && (m.kind == 2 || (o.feat == m.feat && o.thr == m.thr))) q += o.q;
    Config c1 = c; c1.trees = 1; c1.preinit = true; c1.init = 0; std::vector<double> extra; if (m.kind == 2) { int k = at(T, m.where); extra.push_back(T.n[k].thr); }
    static std::unordered_map<uint64_t, std::vector<Move>> cache; vf::Hash key; key.s(c1.str()).d(c.X[0]).d(c.vw[0]).i(shape(m.after)).i(extra.size()); for (double e : extra) key.d(e); if (cache.size() > 20000) cache.clear();
    auto hit = cache.find(key.h); if (hit == cache.end()) hit = cache.emplace(key.h, proposals([&] { std::unique_ptr<World> w(new World(c1)); w->impose(0, m.after); return w; }, 0, m.after, extra, nullptr)).first; auto& back = hit->second;
    double qr = 0; for (auto& o : back) if (o.kind && shape(o.after) == shape(T)) qr += o.q; VF_CHECK(qr > 0, "irreversible", "%s can become %s but never back", T.str().c_str(), m.after.str().c_str());
    double r = log_marginal(m.after, c, partial) - lmT + log_tree_prior(m.after, c) - lpT + std::log(qr) - std::log(q); vf::outcome(vf::Hash().d(std::round(r * 1e9)).h);
    struct Try { double u; bool acc; }; std::vector<Try> tries{{std::exp(std::min(r, 0.)) * (1 - 1e-7), true}}; if (r < -1e-9) { tries.push_back({std::exp(r) * (1 + 1e-7), false}); tries.push_back({UREJ, false}); }
    for (auto& t : tries) { auto w = build(); Run R = step(*w, focus, m.path, nullptr, t.u, {}); vf::transition(); bool acc = shape(R.trees[focus]) == shape(m.after), rej = shape(R.trees[focus]) == shape(T); VF_CHECK(acc != rej, "illegal-move", "the step ended in %s", R.trees[focus].str().c_str());
      VF_CHECK(acc == t.acc, "mh-ratio", "%s of %s %s -> %s with acceptance draw log(u)=%.10g was %s; Metropolis-Hastings log ratio is %.10g (forward proposal %.8g, reverse %.8g)", m.kind == 1 ? "grow" : "prune", c.str().c_str(), T.str().c_str(), m.after.str().c_str(), std::log(t.u), acc ? "accepted" : "rejected", r, q, qr);
      w->audit(acc ? "after an accepted move" : "after a rejected move"); } }
  if (!any) vf::count("states_without_moves"); vf::state(vf::Hash().i(shape(T)).i(focus).s(c.str()).h); vf::count("audits"); }
static Config config(int trees, int lite) {
  Config c; c.trees = trees; c.p = 3; static const std::vector<std::vector<double>> TX = { // rows of (x0, x1, x2); x2 has weight zero in some configurations
    {-3, 5, 0.5, -1, 5, 3, -1, 2, 7, 2, 2, 1, 4, -6, 2}, {-5, -1, 2, -4.5, -1, 3, -4, -1, 9, -2, -1, 8, -2, -1, 4}, {10, -2, -7, 7, -2, 3, 7, 4, -2, 3.5, 4, 0.25, -1, 0.5, 6}, {1, 2, 5, 1, 2, 5, 1, 2, 5, 1, 2, 5, 1, 2, 5}};
  int ti = vf::choose(lite ? 2 : TX.size()); c.n = 5; c.X = TX[ti]; c.ft.assign(3, FeatureType::kNumeric); static const std::vector<std::vector<double>> VW = {{0.5, 0.5, 0}, {0.7, 0.1, 0.2}, {0, 1, 1}}; c.vw = VW[vf::choose(lite ? 1 : 3)];
  c.model = vf::choose(3); c.d = c.model == 2 ? 2 : 1; int yi = vf::choose(2); c.weights = vf::thorough() ? vf::choose(2) : yi; c.w = {1, 2, .5, 4, .7}; c.b = c.model == 2 ? std::vector<double>{1, -1, .5, 2, 0, 1, -2, .25, 1, 1} : std::vector<double>{1, -1, .5, 2, .25};
  int pi = vf::choose(2); if (pi) { c.alpha = .5; c.beta = 1; } c.minleaf = 1 + vf::choose(lite ? 2 : 3); c.y = yi ? std::vector<double>{-1, 2, .5, -2, 1.5} : std::vector<double>{.1, -.2, .05, .3, -.3}; { double s = 0; for (double v : c.y) s += v; if (c.model == 2) for (double& v : c.y) v -= s / c.n; }
  c.s2 = .8; c.tau = .7; c.preinit = trees > 1 || (vf::thorough() ? vf::choose(2) : pi); c.init = c.preinit ? .05 : 0; return c; }
// more observations, values that no float represents, other scales of noise and leaf prior
static Config large(int trees) {
  Config c; c.trees = trees; c.p = 3; c.n = 41; int ti = vf::choose(2), si = vf::choose(2); c.model = vf::choose(3); c.d = c.model == 2 ? 2 : 1; c.weights = si ^ (c.model == 1); c.ft.assign(3, FeatureType::kNumeric); c.vw = {0.3, 0.1, 0.6}; c.minleaf = ti ? 5 : 1; c.s2 = si ? .03 : 2.6; c.tau = si ? 14.3 : .07; c.preinit = true; c.init = .05; c.alpha = .9; c.beta = 1.5;
  for (int i = 0; i < c.n; i++) { c.X.push_back(ti ? 0.1 * ((i * 37) % 101) - 3.3 : 1e5 + 0.01 * ((i * 17) % 41)); c.X.push_back(i * i % 5 - 1.7); c.X.push_back(1e-4 * ((i * 29) % 43)); c.w.push_back(0.3 + i % 4); for (int q = 0; q < c.d; q++) c.b.push_back(0.37 * ((i * (q + 3)) % 11) - 1.6); c.y.push_back((si ? .2 : 3) * std::sin(i * 1.3) + .1 * (i > 20)); }
  if (c.model == 2) { double s = 0; for (double v : c.y) s += v; for (double& v : c.y) v -= s / c.n; } return c; }
// history of steps through the real sampler; every draw an explorer choice; audited before each step
static void walk(int trees, int lite, int depth) {
  Config c = lite == 2 ? large(trees) : config(trees, lite); std::vector<std::vector<double>> ans; std::vector<MTree> cur(trees); for (auto& m : cur) m.init(c.d);
  auto build = [&]() { std::unique_ptr<World> w(new World(c)); for (auto& a : ans) { Driver D; size_t i = 0; D.policy = [&](const Draw&) { return i < a.size() ? a[i++] : throw std::logic_error("replay divergence in world"); }; D.install(); w->mcmc(); } return w; };
  for (int s = 0; s <= depth; s++) {
    if (!vf::replaying()) { vf::note("state after %d steps: %s | %s", s, cur[0].str().c_str(), c.str().c_str()); for (int f = 0; f < trees; f++) { if ((f && s == depth) || (lite == 2 && f != s % trees)) continue; Config cc = c; MTree T = cur[f]; mh_audit(cc, build, f, T); } }
    if (s == depth) break; vf::Hash h; h.s(c.str()).d(c.y[0]).d(c.X[0]).d(c.vw[0]); for (auto& m : cur) h.i(trees > 1 ? m.hash() : shape(m)); vf::prune_if_seen(h.h, depth - s);
    auto w = build(); Driver D; int nz = 0; D.policy = [&](const Draw& d) -> double { if (d.kind == 'z') return ZPAT[nz++ % 5]; if (d.kind == 'u') return vf::choose(2) ? UREJ : UACC; if (d.kind == 'd') { std::vector<int> o; for (size_t i = 0; i < d.p.size(); i++) if (d.p[i] > 0) o.push_back(i); VF_CHECK(!o.empty(), "no-choice", "a random choice with no outcome of positive probability"); return o[vf::choose(o.size())]; } VF_CHECK(d.b > d.a, "range", "split point drawn from the range [%.17g, %.17g)", d.a, d.b); auto m = cuts_in(c, d.a, d.b); return m[vf::choose(m.size())]; };
    D.install(); w->mcmc(); vf::transition(); Driver::uninstall(); std::vector<double> a; for (auto& d : D.log) a.push_back(d.ans); ans.push_back(a); VF_CHECK(w->samples() == s + 1, "sample-count", "%d samples after %d iterations", w->samples(), s + 1); w->audit("after a step"); for (int t = 0; t < trees; t++) cur[t] = w->tree(t); } }
// one audit at trees of many levels: chains to the left, to the right and zigzag, every proposal of every node
static void deep() {
  Config c = large(1); c.minleaf = 1; c.init = 0; c.n = 14; c.X.resize(c.n * c.p); c.y.resize(c.n); c.w.resize(c.n); c.b.resize(c.n * c.d); if (c.model == 2) { double s = 0; for (double v : c.y) s += v; for (double& v : c.y) v -= s / c.n; } int dir = vf::choose(3), D = 3 + 2 * vf::choose(vf::thorough() ? 4 : 3); MTree T; T.init(c.d); std::vector<int> rows(c.n); std::iota(rows.begin(), rows.end(), 0); int k = 0; std::vector<double> z(c.d, 0.);
  for (int lev = 0; lev < D; lev++) { std::vector<double> u; int f = 0; for (int a = 0; a < 3 && u.size() < 2; a++) { f = (lev + a) % 3; std::set<double> s; for (int i : rows) s.insert(c.x(i, f)); u.assign(s.begin(), s.end()); } if (u.size() < 2) break; bool left = dir == 0 || (dir == 2 && lev % 2); size_t i = left ? u.size() - 2 - u.size() / 7 : u.size() / 7; if (u.size() == 2) i = 0; double thr = u[i] + .375 * (u[i + 1] - u[i]); T.expand(k, f, false, thr, {}, z, z); std::vector<int> q; for (int r : rows) if ((c.x(r, f) <= thr) == left) q.push_back(r); rows = q; k = left ? T.n[k].l : T.n[k].r; }
  vf::transition(); if (vf::replaying()) return; vf::note("imposed %s | %s", T.str().c_str(), c.str().c_str()); mh_audit(c, [&]() { std::unique_ptr<World> w(new World(c)); w->impose(0, T); return w; }, 0, T); }
int main(int argc, char** argv) {
  vf::add("one-tree", [] { walk(1, 0, vf::thorough() ? 3 : 2); }); vf::add("two-trees", [] { walk(2, 1, vf::thorough() ? 2 : 1); });
  vf::add("large", [] { walk(1, 2, vf::thorough() ? 2 : 1); }); vf::add("deep", deep); vf::add("large-many-trees", [] { walk(5, 2, vf::thorough() ? 1 : 0); });
  return vf::main_(argc, argv); }

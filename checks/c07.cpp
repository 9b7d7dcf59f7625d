// C07: the grow-from-root step.  At every node decision reached by every sequence of earlier decisions, every option of
// positive probability is executed, identified by the tree it produces, and its probability compared with the exact one.
#include "world.hpp"
using namespace vfw;
struct Run { std::vector<std::vector<double>> probs; std::vector<MTree> trees; std::vector<double> partial; };
// one GFR iteration; tree `focus` takes the options in `path`, then the last (found by probing: "no split") ones; other trees take no split
static const int NOSPLIT = -1;
static Run iterate(World& w, int focus, const std::vector<int>& path) {
  Run R; Driver D; const Config& c = w.c; int seg = 0, nz = 0; bool innorm = false; size_t at_ = 0;
  std::vector<MTree> before; bool had = w.samples() > 0 || c.preinit; for (int t = 0; t < c.trees; t++) { before.push_back(had ? w.tree(t, w.samples() ? -1 : 0) : MTree()); if (!had) before[t].init(c.d); }
  D.policy = [&](const Draw& d) -> double { if (d.kind == 'z') { innorm = true; return ZPAT[nz++ % 5]; } if (innorm) { innorm = false; seg++; }
    VF_CHECK(d.kind == 'd', "unexpected-draw", "a grow-from-root iteration drew '%c'", d.kind); for (double p : d.p) VF_CHECK(p >= 0 && p <= 1 + 1e-12, "probability-range", "split probability %g", p);
    if (seg != focus) return (double)d.p.size() - 1; R.probs.push_back(d.p); int k = at_ < path.size() ? path[at_] : NOSPLIT; at_++; return k == NOSPLIT ? (double)d.p.size() - 1 : k; };
  D.install(); w.gfr(); vf::transition(); VF_CHECK(c.trees == 1 || seg == c.trees - 1, "iteration-structure", "%d groups of leaf draws for %d trees", seg + 1, c.trees);
  for (int t = 0; t < c.trees; t++) R.trees.push_back(w.tree(t)); R.partial = c.y; for (int t = 0; t < c.trees; t++) if (t != focus) for (int i = 0; i < c.n; i++) { auto& m = t < focus ? R.trees[t] : before[t]; R.partial[i] -= c.leafdot(m.n[m.route(c.row(i))].val, i); }
  w.audit("after a grow-from-root iteration"); for (int t = 0; t < c.trees; t++) { auto mem = members(R.trees[t], c); if (R.trees[t].n[0].leaf) continue; for (int k : R.trees[t].leaves()) VF_CHECK((int)mem[k].size() >= c.minleaf, "min-leaf", "leaf with %d observations, minimum %d", (int)mem[k].size(), c.minleaf); }
  return R; }
struct Cand { int feat; std::vector<int> left; double lw; };
// all splits of a node: (variable, observations sent left); exact log weights
static std::vector<Cand> candidates(const Config& c, const std::vector<int>& mem, const std::vector<double>& r) {
  std::vector<Cand> o; for (int f = 0; f < c.p; f++) { if (c.vw[f] <= 0) continue; std::vector<double> ord; std::set<double> vals; for (int i : mem) vals.insert(c.x(i, f)); ord.assign(vals.begin(), vals.end());
    if (c.ft[f] == FeatureType::kUnorderedCategorical) { std::map<double, double> s, n; for (int i : mem) { s[c.x(i, f)] += r[i]; n[c.x(i, f)]++; } std::stable_sort(ord.begin(), ord.end(), [&](double a, double b) { return s[a] / n[a] < s[b] / n[b]; }); }
    std::set<double> L; for (size_t k = 0; k + 1 < ord.size(); k++) { L.insert(ord[k]); Cand q; q.feat = f; std::vector<int> rt; for (int i : mem) (L.count(c.x(i, f)) ? q.left : rt).push_back(i); if ((int)q.left.size() < c.minleaf || (int)rt.size() < c.minleaf) continue; q.lw = vfb::loggain(c.obs(q.left, r), c.S(), c.s2) + vfb::loggain(c.obs(rt, r), c.S(), c.s2); o.push_back(q); } }
  return o; }
// deep: few configurations, and after each decision only the first, the middle and the last option are followed, but to the bottom of the tree
static void gfr(int trees, bool thin, int depth, bool deep = false, bool large = false) {
  auto some = [&](int n) { return deep ? 0 : vf::choose(n); };
  Config c; c.trees = trees; c.n = 6; c.p = 3; static const std::vector<std::vector<double>> TX = {
    {-3, 0, 2, -1, 2, 0, -1, 1, 3, 2, 2, 0, 4, 0, 1, 2, 3, 2}, {7, 1, 1, -2, 1, 0, 0.5, 1, 1, 3, 0, 2, -4, 0, 0, 1, 2, 2}, {1, 2, 5, 1, 2, 5, 1, 2, 0, 1, 2, 0, 1, 2, 5, 1, 2, 0}};
  int ti = vf::choose(TX.size()); c.X = TX[ti]; c.ft = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical}; static const std::vector<std::vector<double>> VW = {{1, 1, 1}, {0.004, 0, 0.996}, {0, 0.5, 0}}; c.vw = VW[some(3)];
  c.model = vf::choose(3); c.d = c.model == 2 ? 2 : 1; int yi = deep ? 1 : vf::choose(2); c.weights = vf::thorough() ? vf::choose(2) : yi; c.w = {1, 2, .5, 4, .7, 1.5}; c.b = c.model == 2 ? std::vector<double>{1, -1, .5, 2, 0, 1, -2, .25, 1, 1, 2, .5} : std::vector<double>{1, -1, .5, 2, .25, -.75};
  int pi = vf::choose(2); if (pi) { c.alpha = .5; c.beta = 1; } c.minleaf = 1 + some(3); c.y = yi ? std::vector<double>{-1, 2.1, .5, -2.3, 1.5, .47} : std::vector<double>{.11, -.21, .05, .32, -.34, .17}; { double s = 0; for (double v : c.y) s += v; if (c.model == 2) for (double& v : c.y) v -= s / c.n; }
  c.s2 = .8; c.tau = .7; c.preinit = trees > 1 || pi; c.init = c.preinit ? .05 : 0; c.grid = thin ? (large ? 9 : 1 + vf::choose(4)) : deep || vf::choose(2) ? 6 : 100; int focus = trees > 1 ? vf::choose(trees) : 0;
  if (large) { c.n = ti == 2 ? 90 : 43; c.X.clear(); c.w.clear(); c.b.clear(); c.y.clear(); c.minleaf = pi ? 4 : 1; c.grid = thin ? 9 : 120; c.vw = {0.2, 0.5, 0.3}; for (int i = 0; i < c.n; i++) { c.X.push_back(ti == 1 ? 1e5 + 0.01 * ((i * 17) % 41) : 0.1 * ((i * 37) % 101) - 3.3); c.X.push_back(i * i % 5); c.X.push_back(i * 7 % (ti ? 3 : 26)); c.w.push_back(0.3 + i % 4); for (int q = 0; q < c.d; q++) c.b.push_back(0.37 * ((i * (q + 3)) % 11) - 1.6); c.y.push_back(1.3 * std::sin(i * 1.3) + (i % 7 > 3)); } if (c.d == 2) { double s = 0; for (double v : c.y) s += v; for (double& v : c.y) v -= s / c.n; } }
  int warm = large ? vf::choose(2) : some(2); // an earlier iteration that grew a tree, so that this one starts from existing splits
  auto build = [&] { std::unique_ptr<World> w(new World(c)); if (warm) { Driver D; int nz = 0, k = 0; D.policy = [&](const Draw& d) -> double { if (d.kind == 'z') return ZPAT[(nz++ + 2) % 5]; return (k++ % 2) ? (double)d.p.size() - 1 : 0.; }; D.install(); w->gfr(); w->audit("after the first iteration"); } return w; };
  std::vector<int> path;
  for (int lev = 0;; lev++) {
    auto w0 = build(); Run B = iterate(*w0, focus, path); const MTree& T = B.trees[focus]; if ((int)B.probs.size() <= lev) { // all nodes decided
      if (vf::replaying()) return; auto mem = members(T, c); VF_CHECK(B.probs.size() == T.pre().size(), "node-decisions", "%d split decisions for a tree of %d nodes", (int)B.probs.size(), (int)T.pre().size());
      if (!thin) { int want = T.internals().size(), got = 0; for (int k : T.leaves()) want += !candidates(c, mem[k], B.partial).empty(); for (auto& p : B.probs) got += p.size() > 1; VF_CHECK(want == got, "node-decisions", "%d decisions had a choice, %d nodes of the grown tree have candidate splits", got, want); }
      vf::count("trees_grown"); vf::outcome(shape(T)); return; }
    int K = B.probs[lev].size();
    if (!vf::replaying()) { vf::note("decision %d of %s, %d options, tree so far %s", lev, c.str().c_str(), K, T.str().c_str()); std::vector<std::pair<Cand, double>> seen; int node = -1; double pno = -1; auto mem = members(T, c); bool duplicate = false;
      for (int k = 0; k < K; k++) { if (B.probs[lev][k] <= 0) continue; auto pp = path; pp.push_back(k); auto w = build(); Run R = iterate(*w, focus, pp); const MTree& U = R.trees[focus]; for (size_t q = 0; q <= (size_t)lev; q++) VF_CHECK(R.probs[q].size() == B.probs[q].size(), "nondeterministic", "repeating the same decisions offered different options");
        for (int j = 0; j < K; j++) VF_CHECK(vf::close(R.probs[lev][j], B.probs[lev][j], 1e-12, 1e-13), "nondeterministic", "repeating the same decisions changed probabilities");
        if (shape(U) == shape(T)) { VF_CHECK(pno < 0, "two-no-split", "two options leave the node unsplit"); pno = B.probs[lev][k]; continue; }
        int found = -1; for (int l : T.leaves()) { int j = at(U, pos(T, l)); if (j >= 0 && !U.n[j].leaf) { VF_CHECK(found < 0, "illegal-split", "one decision split two leaves"); found = l; } } VF_CHECK(found >= 0 && U.pre().size() == T.pre().size() + 2, "illegal-split", "decision turned %s into %s", T.str().c_str(), U.str().c_str());
        VF_CHECK(node < 0 || node == found, "illegal-split", "options of one decision split different nodes"); node = found; auto& nd = U.n[at(U, pos(T, found))]; Cand q; q.feat = nd.feat; auto mu = members(U, c); q.left = mu[nd.l]; VF_CHECK(c.vw.at(nd.feat) > 0, "zero-weight-variable", "split on variable %d of weight zero", nd.feat);
        VF_CHECK(nd.cat == (c.ft[nd.feat] == FeatureType::kUnorderedCategorical), "split-kind", "variable %d of type %d got a %s split", nd.feat, (int)c.ft[nd.feat], nd.cat ? "categorical" : "numeric"); for (auto& s : seen) duplicate |= s.first.feat == q.feat && s.first.left == q.left; VF_CHECK(!duplicate, "duplicate-candidate", "variable %d offers the division %s twice", q.feat, ids(q.left).c_str()); seen.push_back({q, B.probs[lev][k]}); }
      VF_CHECK(pno >= 0, "no-split-missing", "no option leaves the node unsplit");
      if (node < 0) VF_CHECK(vf::close(pno, 1, 1e-12, 0), "probability", "no-split probability %g without candidates", pno);
      else { auto cand = candidates(c, mem[node], B.partial); std::vector<std::pair<double, double>> lw; // exact log weight, probability
        for (auto& s : seen) { bool ok = false; for (auto& q : cand) if (q.feat == s.first.feat && q.left == s.first.left) { ok = true; lw.push_back({q.lw, s.second}); } VF_CHECK(ok, "illegal-candidate", "variable %d, observations %s sent left of node %s: not a candidate division", s.first.feat, ids(s.first.left).c_str(), ids(mem[node]).c_str()); }
        if (!thin) VF_CHECK(cand.size() == seen.size(), "candidate-missing", "%d of %d candidate splits of node %s offered", (int)seen.size(), (int)cand.size(), ids(mem[node]).c_str());
        double dep = T.n[node].depth; lw.push_back({vfb::loggain(c.obs(mem[node], B.partial), c.S(), c.s2) + std::log(std::pow(1 + dep, c.beta) / c.alpha - 1) + std::log((double)seen.size()), pno}); double mx = -1e300, tot = 0; for (auto& a : lw) mx = std::max(mx, a.first); for (auto& a : lw) tot += std::exp(a.first - mx);
        for (size_t k = 0; k < lw.size(); k++) { double e = std::exp(lw[k].first - mx) / tot; vf::count("probabilities"); VF_CHECK(vf::close(lw[k].second, e, 1e-8, 1e-12), "probability", "node %s at depth %g of %s: option %s has probability %.12g, exact %.12g", ids(mem[node]).c_str(), dep, c.str().c_str(), k + 1 == lw.size() ? "no split" : vf::fmt("x%d left %s", seen[k].first.feat, ids(seen[k].first.left).c_str()).c_str(), lw[k].second, e); } }
      vf::state(vf::Hash().s(c.str()).i(ti).d(c.vw[0]).d(c.y[0]).i(shape(T)).i(lev).i(focus).i(warm).h); }
    std::vector<int> opt; for (int k = 0; k < K; k++) if (B.probs[lev][k] > 0) opt.push_back(k);
    if (lev >= depth) { path.push_back(K - 1); continue; } // beyond the decision depth: follow the last option only
    if (deep && opt.size() > 3) opt = {opt[0], opt[opt.size() / 2], opt.back()};
    path.push_back(opt[vf::choose(opt.size())]); } }
int main(int argc, char** argv) {
  bool t = false; for (int i = 1; i < argc; i++) t |= std::string(argv[i]) == "--thorough";
  vf::add("full-grid", [] { gfr(1, false, vf::thorough() ? 4 : 2); }); vf::add("thinned-grid", [] { gfr(1, true, vf::thorough() ? 3 : 1); }); vf::add("to-the-bottom", [] { gfr(1, false, vf::thorough() ? 12 : 11, true); }); vf::add("large", [] { gfr(1, false, vf::thorough() ? 3 : 2, true, true); }); vf::add("large-thinned", [] { gfr(1, true, vf::thorough() ? 3 : 2, true, true); }); vf::add("two-trees", [] { gfr(2, false, vf::thorough() ? 2 : 1); });
  (void)t; return vf::main_(argc, argv); }

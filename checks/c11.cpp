// C11: sampling is a function of data, settings and seed only.  Every interleaving of two samplers' bounded schedules, under
// every heap / stack fill pattern, must give each sampler the bits it gets when it runs alone.
#include "vf.hpp"
namespace vf { struct NoRng { std::function<long(const std::vector<double>&)> discrete; std::function<double(double, double)> uniform_real, gamma; std::function<long(long, long)> uniform_int; std::function<double()> std_normal; }; inline NoRng& rng() { static NoRng r; return r; } }
#include "world.hpp"
#include <stochtree/random_effects.h>
#include <stochtree/variance_model.h>
#include <stochtree/kernel.h>
using namespace vfw;
// fresh memory holds a chosen byte: what was in it before must not matter
extern "C" void* __libc_malloc(size_t); static volatile int FILL = -1;
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (FILL >= 0 && p) std::memset(p, FILL, n); return p; }
__attribute__((noinline)) static void dirty_stack(int b) { volatile unsigned char a[1 << 15]; for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)b; asm volatile("" ::: "memory"); }
static const int FILLS[] = {0, 0xff, 0x41, 0x3f};
static void fill(int b) { FILL = b; if (b >= 0) dirty_stack(b); }
struct Vars { GlobalHomoskedasticVarianceModel g; LeafNodeHomoskedasticVarianceModel l; };
struct Session {
  Config c; std::unique_ptr<World> w; double s2, tau; Eigen::MatrixXd S; Vars own; std::vector<int32_t> lab; std::unique_ptr<RandomEffectsTracker> rt; std::unique_ptr<MultivariateRegressionRandomEffectsModel> rm; RandomEffectsDataset rd; std::unique_ptr<RandomEffectsContainer> rc;
  Session(const Config& cc, int seed) : c(cc) { w.reset(new World(c)); w->gen.seed(seed); s2 = c.s2; tau = c.tau; S = c.S();
    lab = {4, 4, 1, 9, 1, 4}; int K = 1 + (c.model == 2), G = 3; rt.reset(new RandomEffectsTracker(lab)); rm.reset(new MultivariateRegressionRandomEffectsModel(K, G)); std::vector<double> x(c.n * K); for (int i = 0; i < c.n * K; i++) x[i] = 1 - 0.3 * (i % 4); rd.AddBasis(x.data(), c.n, K, true); rd.AddGroupLabels(lab); rc.reset(new RandomEffectsContainer(K, G));
    Eigen::VectorXd a = Eigen::VectorXd::Ones(K); Eigen::MatrixXd xi = Eigen::MatrixXd::Constant(K, G, 0.5), I = Eigen::MatrixXd::Identity(K, K); rm->SetWorkingParameter(a); rm->SetGroupParameters(xi); rm->SetWorkingParameterCovariance(I); rm->SetGroupParameterCovariance(I); rm->SetVariancePriorShape(1); rm->SetVariancePriorScale(1); }
  template <class L> void forest(L& leaf, bool gfr) { auto& W = *w; bool pre = W.first && c.preinit;
    if (gfr) { GFRForestSampler<L> s(c.grid); s.SampleOneIter(*W.tr, *W.fc, leaf, W.ds, *W.res, W.prior, W.gen, W.vw, s2, W.ft, pre); } else { MCMCForestSampler<L> s; s.SampleOneIter(*W.tr, *W.fc, leaf, W.ds, *W.res, W.prior, W.gen, W.vw, s2, pre); } W.first = false; }
  void step(char k, Vars* shared) { auto& W = *w; Vars& v = shared ? *shared : own; vf::transition();
    if (k == 'M' || k == 'G') { if (c.model == 0) { GaussianConstantLeafModel m(tau); forest(m, k == 'G'); } else if (c.model == 1) { GaussianUnivariateRegressionLeafModel m(tau); forest(m, k == 'G'); } else { GaussianMultivariateRegressionLeafModel m(S); forest(m, k == 'G'); } }
    else if (k == 'V') s2 = v.g.SampleVarianceParameter(W.res->GetData(), 3, 0.5, W.gen);
    else if (k == 'L') { if (W.samples()) tau = v.l.SampleVarianceParameter(W.fc->GetEnsemble(W.samples() - 1), 3, 0.5, W.gen); }
    else { rm->SampleRandomEffects(rd, *W.res, *rt, s2, W.gen); rc->AddSample(*rm); } }
  uint64_t hash() { auto& W = *w; vf::Hash h; h.d(s2).d(tau); for (int i = 0; i < c.n; i++) h.d(W.res->GetElement(i)); h.i(W.samples()); for (int s = 0; s < W.samples(); s++) { h.s(W.fc->GetEnsemble(s)->to_json().dump()); } if (W.samples()) { for (double v : W.fc->Predict(W.ds)) h.d(v); for (double v : W.fc->PredictRaw(W.ds)) h.d(v); }
    for (double v : rc->GetBeta()) h.d(v); for (double v : rc->GetAlpha()) h.d(v); for (double v : rc->GetXi()) h.d(v); for (double v : rc->GetSigma()) h.d(v); std::mt19937 g = W.gen; h.i(g()); return h.h; } };
static std::vector<Config> configs() { std::vector<Config> o; static const std::vector<std::vector<double>> TX = {{-3, 0, 2, -1, 2, 0, -1, 1, 3, 2, 2, 0, 4, 0, 1, 2, 3, 2}, {7, 1, 1, -2, 1, 0, 0.5, 1, 1, 3, 0, 2, -4, 0, 0, 1, 2, 2}};
  for (int k = 0; k < 6; k++) { Config c; c.n = 6; c.p = 3; c.X = TX[k % 2]; c.vw = {1, 2, 1}; c.ft = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical}; c.model = k % 3; c.d = c.model == 2 ? 2 : 1; c.trees = k < 3 ? 2 : 3; c.minleaf = 1; c.alpha = .99; c.beta = .5; c.grid = k < 3 ? 100 : 2;
    c.b = c.d == 2 ? std::vector<double>{1, -1, .5, 2, 0, 1, -2, .25, 1, 1, 2, .5} : std::vector<double>{1, -1, 0, 2, .25, -.75}; c.y = {-1, 2.1, .5, -2.3, 1.5, .47}; if (c.d == 2) for (double& v : c.y) v -= 1.27 / 6; c.s2 = .8; c.tau = .7; c.weights = k >= 3; c.w = {1, 2, .5, 1, 1.5, 1}; c.preinit = k == 1 || k == 5; c.init = 0; o.push_back(c); }
  return o; }
static const std::vector<Config>& CF() { static auto c = configs(); return c; }
static std::map<std::string, uint64_t> SOLO; // (configuration, seed, schedule so far) -> bits when run alone on zeroed memory
static uint64_t solo(int k, int seed, const std::string& sch, size_t len) { std::string key = vf::fmt("%d/%d/", k, seed) + sch.substr(0, len); auto it = SOLO.find(key); if (it != SOLO.end()) return it->second;
  int keep = FILL; FILL = 0; { Session s(CF()[k], seed); for (size_t i = 0; i < sch.size(); i++) { s.step(sch[i], nullptr); SOLO[vf::fmt("%d/%d/", k, seed) + sch.substr(0, i + 1)] = s.hash(); } } FILL = keep; return SOLO.at(key); }
static std::string schedule(int len) { static const char* K = "MGVLR"; std::string s; for (int i = 0; i < len; i++) s += K[vf::choose(i == 0 ? 2 : 5)]; return s; }
static void interleave(int la) { // every merge of the two schedules
  int k1 = vf::choose(6); std::string a = schedule(la); int same = vf::choose(2), k2 = same ? k1 : (k1 + 2) % 6, seed2 = same ? 5 : 8; static const char* B[] = {"GVM", "MRM", "GLG", "MVR"}; std::string b = same ? a : B[vf::choose(4)]; int fp = vf::choose(vf::thorough() ? 4 : 2), sh = vf::choose(2);
  if (!vf::replaying()) fill(FILLS[fp]);
  Vars shared; Session A(CF()[k1], 5), B_(CF()[k2], seed2); size_t i = 0, j = 0; std::string order;
  while (i < a.size() || j < b.size()) { int w = i == a.size() ? 1 : j == b.size() ? 0 : vf::choose(2); Session& S = w ? B_ : A; char op = w ? b[j++] : a[i++]; order += w ? vf::fmt("[%c]", op) : std::string(1, op); S.step(op, sh ? &shared : nullptr); }
  fill(-1); if (vf::replaying()) return;
  vf::note("configurations %d and %d, interleaved %s", k1, k2, order.c_str());
  VF_CHECK(A.hash() == solo(k1, 5, a, i), "interleaving", "sampler 1 (configuration %d, schedule %s) gives different results when interleaved as %s with configuration %d%s (fresh memory holds byte %d)", k1, a.c_str(), order.c_str(), k2, sh ? ", variance samplers shared" : "", FILLS[fp]);
  VF_CHECK(B_.hash() == solo(k2, seed2, b, j), "interleaving", "sampler 2 (configuration %d, schedule %s) gives different results when interleaved as %s with configuration %d%s (fresh memory holds byte %d)", k2, b.c_str(), order.c_str(), k1, sh ? ", variance samplers shared" : "", FILLS[fp]);
  vf::state(vf::Hash().i(k1).i(k2).s(order).i(fp).i(sh).h); vf::outcome(A.hash()); }
static void repeat(int len) { // the same schedule after other work, on memory holding every fill pattern
  int k = vf::choose(6), fp = vf::choose(4), pre = vf::choose(4); std::string a = schedule(len); if (vf::replaying()) return; fill(FILLS[fp]);
  if (pre == 1) { Session o(CF()[(k + 1) % 6], 3); for (char c : std::string("MGRLV")) o.step(c, nullptr); std::srand(fp); std::rand(); }
  else if (pre == 2) { Session o(CF()[k], 5); for (char c : a) o.step(c, nullptr); }
  else if (pre == 3) { Session o(CF()[k], 6); o.step('G', nullptr); ForestKernel fk; fk.ComputeKernel(o.w->ds.GetCovariates(), *o.w->fc->GetEnsemble(0)); ForestContainer q(CF()[k].trees, CF()[k].d, CF()[k].model == 0); q.from_json(o.w->fc->to_json()); try { q.from_json(nlohmann::json::object()); } catch (std::exception&) {} }
  { Session s(CF()[k], 5); for (size_t i = 0; i < a.size(); i++) { dirty_stack(FILLS[fp]); s.step(a[i], nullptr); uint64_t h = s.hash(); fill(-1); VF_CHECK(h == solo(k, 5, a, i + 1), "repeat", "configuration %d, schedule %s: step %zu differs from the first run (what ran before: %d, fresh memory holds byte %d)", k, a.c_str(), i + 1, pre, FILLS[fp]); fill(FILLS[fp]); } }
  fill(-1); vf::state(vf::Hash().i(k).s(a).i(fp).i(pre).h); vf::outcome(solo(k, 5, a, a.size())); }
int main(int argc, char** argv) {
  vf::add("interleavings", [] { interleave(vf::thorough() ? 4 : 3); }); vf::add("repeats", [] { repeat(vf::thorough() ? 6 : 4); });
  return vf::main_(argc, argv); }

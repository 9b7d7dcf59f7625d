// C23 reference: one history of the sampling loop, run through the C++ core alone.  Loaded as a shared library by the Python and R
// harnesses, which run the same history through the language bindings.  Input and output are JSON texts.
#include <stochtree/container.h>
#include <stochtree/data.h>
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>
#include <nlohmann/json.hpp>
#include <functional>
#include <memory>
#include <random>
#include <string>
#ifdef VF_R
#include <Rinternals.h>
#endif
using namespace StochTree; using nlohmann::json; typedef std::vector<double> D;
static D flat(const json& rows) { D o; for (auto& r : rows) for (auto& v : r) o.push_back(v.get<double>()); return o; }
static Eigen::MatrixXd mat(const json& rows) { Eigen::MatrixXd m(rows.size(), rows[0].size()); for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[0].size(); j++) m(i, j) = rows[i][j].get<double>(); return m; }
static bool has(const json& j, const char* k) { return j.contains(k) && !j[k].is_null(); }
struct Forest { ForestDataset ds; Eigen::MatrixXd X; std::vector<FeatureType> ft; std::unique_ptr<ForestTracker> tr; std::unique_ptr<ForestContainer> fc; std::unique_ptr<TreePrior> prior; int k; };
template <class M, class F> static void go(M model, const F& f) { f(model); }
static json run(const json& q) {
  D y = q["y"].get<D>(); int n = y.size(); ColumnVector res(y.data(), n); std::mt19937 gen(q["seed"].get<int>()); json draws = json::array(), forests = json::array(), preds = json::array(), raw = json::array(); std::vector<std::unique_ptr<Forest>> F;
  for (auto& f : q["forests"]) { auto o = std::make_unique<Forest>(); D x = flat(f["cov"]); int p = f["cov"][0].size(); o->X = mat(f["cov"]); o->ds.AddCovariates(x.data(), n, p, true); o->k = f["k"];
    if (has(f, "basis")) { D b = flat(f["basis"]); o->ds.AddBasis(b.data(), n, f["basis"][0].size(), true); } if (has(f, "weights")) { D w = f["weights"].get<D>(); o->ds.AddVarianceWeights(w.data(), n); }
    for (int t : f["types"].get<std::vector<int>>()) o->ft.push_back(static_cast<FeatureType>(t)); o->tr = std::make_unique<ForestTracker>(o->X, o->ft, f["trees"].get<int>(), n);
    o->prior = std::make_unique<TreePrior>(f["alpha"].get<double>(), f["beta"].get<double>(), f["min"].get<int>()); o->fc = std::make_unique<ForestContainer>(f["trees"].get<int>(), f["dim"].get<int>(), f["k"].get<int>() == 0); F.push_back(std::move(o)); }
  std::unique_ptr<MultivariateRegressionRandomEffectsModel> rm; std::unique_ptr<RandomEffectsTracker> rt; std::unique_ptr<RandomEffectsContainer> rc; RandomEffectsDataset rd;
  if (has(q, "rfx")) { auto& r = q["rfx"]; auto lab = r["labels"].get<std::vector<int32_t>>(); D b = flat(r["basis"]); int K = r["basis"][0].size(); rd.AddBasis(b.data(), n, K, true); rd.AddGroupLabels(lab); rt = std::make_unique<RandomEffectsTracker>(lab); int G = rt->NumCategories();
    rm = std::make_unique<MultivariateRegressionRandomEffectsModel>(K, G); rc = std::make_unique<RandomEffectsContainer>(K, G); D w = r["wp"].get<D>(); Eigen::VectorXd wp = Eigen::Map<Eigen::VectorXd>(w.data(), K); rm->SetWorkingParameter(wp);
    Eigen::MatrixXd gp = mat(r["gp"]), wc = mat(r["wc"]), gc = mat(r["gc"]); rm->SetGroupParameters(gp); rm->SetWorkingParameterCovariance(wc); rm->SetGroupParameterCovariance(gc); rm->SetVariancePriorShape(r["shape"].get<double>()); rm->SetVariancePriorScale(r["scale"].get<double>()); }
  for (auto& o : q["ops"]) { std::string op = o["op"]; Forest* f = o.contains("f") ? F[o["f"].get<int>()].get() : nullptr;
    if (op == "M" || op == "G") { D vw = o["vw"].get<D>(); double s2 = o["s2"]; bool pre = o["pre"]; int grid = o["grid"];
      auto one = [&](auto& m) { typedef std::decay_t<decltype(m)> T; if (op == "M") { MCMCForestSampler<T> s; s.SampleOneIter(*f->tr, *f->fc, m, f->ds, res, *f->prior, gen, vw, s2, pre); } else { GFRForestSampler<T> s(grid); s.SampleOneIter(*f->tr, *f->fc, m, f->ds, res, *f->prior, gen, vw, s2, f->ft, pre); } };
      Eigen::MatrixXd S = mat(o["scale"]); if (f->k == 0) go(GaussianConstantLeafModel(S(0, 0)), one); else if (f->k == 1) go(GaussianUnivariateRegressionLeafModel(S(0, 0)), one); else go(GaussianMultivariateRegressionLeafModel(S), one); }
    else if (op == "V") { GlobalHomoskedasticVarianceModel v; draws.push_back(v.SampleVarianceParameter(res.GetData(), o["nu"].get<double>(), o["lam"].get<double>(), gen)); }
    else if (op == "L") { LeafNodeHomoskedasticVarianceModel v; draws.push_back(v.SampleVarianceParameter(f->fc->GetEnsemble(o["i"].get<int>()), o["a"].get<double>(), o["b"].get<double>(), gen)); }
    else if (op == "U") { std::function<double(double, double)> g; if (o["add"].get<bool>()) g = std::plus<double>(); else g = std::minus<double>(); UpdateResidualEntireForest(*f->tr, f->ds, res, f->fc->GetEnsemble(o["i"].get<int>()), o["basis"].get<bool>(), g); }
    else if (op == "S") { if (o["v"].size() == 1) f->fc->InitializeRoot(o["v"][0].get<double>()); else { D v = o["v"].get<D>(); f->fc->InitializeRoot(v); } }
    else if (op == "B") { D b = flat(o["b"]); f->ds.UpdateBasis(b.data(), n, o["b"][0].size(), true); }
    else if (op == "R") { rm->SampleRandomEffects(rd, res, *rt, o["s2"].get<double>(), gen); rc->AddSample(*rm); }
    else throw std::runtime_error("operation " + op);
    // what is observed after every operation: a variance draw from a generator of its own identifies the residual sum of squares
    std::mt19937 g2(3); GlobalHomoskedasticVarianceModel v2; draws.push_back(v2.SampleVarianceParameter(res.GetData(), 1.5, 0.7, g2)); }
  std::string text; for (auto& f : F) { text += f->fc->to_json().dump(); text += "\n"; preds.push_back(f->fc->NumSamples() ? f->fc->Predict(f->ds) : D()); raw.push_back(f->fc->NumSamples() ? f->fc->PredictRaw(f->ds) : D()); }
  json out = {{"draws", draws}, {"preds", preds}, {"raw", raw}, {"forests", text}, {"residual", D(res.GetData().data(), res.GetData().data() + n)}};
  if (rc) { out["rfx"] = {{"beta", rc->GetBeta()}, {"alpha", rc->GetAlpha()}, {"xi", rc->GetXi()}, {"sigma", rc->GetSigma()}, {"pred", rm->Predict(rd, *rt)}}; }
  return out; }
static std::string call(const char* in) { try { return run(json::parse(in)).dump(); } catch (std::exception& e) { return json{{"error", std::string(e.what())}}.dump(); } }
extern "C" __attribute__((visibility("default"))) const char* vf_ref(const char* in) { static thread_local std::string out; out = call(in); return out.c_str(); }
#ifdef VF_R
extern "C" __attribute__((visibility("default"))) SEXP vf_ref_call(SEXP s) { SEXP r; { std::string o = call(CHAR(STRING_ELT(s, 0))); r = PROTECT(Rf_mkString(o.c_str())); } UNPROTECT(1); return r; }
#endif

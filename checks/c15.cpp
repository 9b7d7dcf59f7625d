// C15: data containers hold exactly the values supplied; every bounded sequence of load / update operations.
#include "vf.hpp"
#include <stochtree/data.h>
#include <limits>
using namespace StochTree;
static const double SP[] = {0.1, -0.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 5e-324, -1.7976931348623157e308, 1.0 / 3, -7};
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
struct Mat { int n = 0, p = 0; std::vector<double> v; double at(int i, int j) const { return v[i * p + j]; } };
static Mat gen(int n, int p, int salt) { Mat m; m.n = n; m.p = p; for (int i = 0; i < n * p; i++) m.v.push_back(i % 3 == 2 ? SP[(i + salt) % 8] : salt * 100 + i + 0.25); return m; }
// an exactly sized heap buffer, so that any read past the end is caught by the address sanitizer build
struct Buf { std::unique_ptr<double[]> b; std::vector<double> copy; int len; Buf(const Mat& m, bool row) : b(new double[m.n * m.p]), len(m.n * m.p) { for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) b[row ? i * m.p + j : j * m.n + i] = m.at(i, j); copy.assign(b.get(), b.get() + len); }
  void unchanged(const char* w) { for (int i = 0; i < len; i++) VF_CHECK(bits(b[i]) == bits(copy[i]), "input-modified", "%s: element %d of the caller's buffer changed", w, i); }
  void scribble() { for (int i = 0; i < len; i++) b[i] = -12345; } };
template <class D> static void eqmat(D& got, const Mat& e, const char* w) { VF_CHECK((int)got.rows() == e.n && (int)got.cols() == e.p, "shape", "%s: %d x %d stored, %d x %d supplied", w, (int)got.rows(), (int)got.cols(), e.n, e.p); for (int i = 0; i < e.n; i++) for (int j = 0; j < e.p; j++) VF_CHECK(bits(got(i, j)) == bits(e.at(i, j)), "value", "%s: entry (%d,%d) is %g, supplied %g", w, i, j, got(i, j), e.at(i, j)); }
static uint64_t hm(const Mat& m, uint64_t h) { h = vf::mix(h, m.n * 16 + m.p); for (double d : m.v) h = vf::mix(h, bits(d)); return h; }
struct Ref { Mat x, b, w; bool hx = false, hb = false, hw = false; std::vector<int32_t> g; bool hg = false; };
static void verify(ForestDataset& d, Ref& r, const char* w) {
  VF_CHECK(d.HasCovariates() == r.hx && d.HasBasis() == r.hb && d.HasVarWeights() == r.hw, "presence", "%s: covariates/basis/weights present %d%d%d expected %d%d%d", w, d.HasCovariates(), d.HasBasis(), d.HasVarWeights(), r.hx, r.hb, r.hw);
  VF_CHECK(d.NumObservations() == r.x.n && d.NumCovariates() == r.x.p && d.NumBasis() == r.b.p, "counts", "%s: %d observations, %d covariates, %d bases", w, (int)d.NumObservations(), d.NumCovariates(), d.NumBasis());
  if (r.hx) { eqmat(d.GetCovariates(), r.x, w); for (int i = 0; i < r.x.n; i++) for (int j = 0; j < r.x.p; j++) VF_CHECK(bits(d.CovariateValue(i, j)) == bits(r.x.at(i, j)), "value", "%s: CovariateValue(%d,%d)", w, i, j); }
  if (r.hb) { eqmat(d.GetBasis(), r.b, w); for (int i = 0; i < r.b.n; i++) for (int j = 0; j < r.b.p; j++) VF_CHECK(bits(d.BasisValue(i, j)) == bits(r.b.at(i, j)), "value", "%s: BasisValue(%d,%d)", w, i, j); }
  if (r.hw) { eqmat(d.GetVarWeights(), r.w, w); for (int i = 0; i < r.w.n; i++) VF_CHECK(bits(d.VarWeightValue(i)) == bits(r.w.at(i, 0)), "value", "%s: VarWeightValue(%d)", w, i); } }
static void dataset_(int L, int N, int P) {
  ForestDataset d; Ref r; uint64_t h = 1; L = 1 + vf::choose(L);
  for (int s = 0; s < L; s++) { int o = vf::choose(4); vf::transition(); bool row = true; char w[80]; snprintf(w, sizeof w, "operation %d (%s)", s, o == 0 ? "add covariates" : o == 1 ? "add basis" : o == 2 ? "add weights" : "update basis");
    if (o == 0 || o == 1) { int n = 1 + vf::choose(N), p = 1 + vf::choose(P); row = vf::choose(2); Mat m = gen(n, p, s + 1); Buf b(m, row); vf::note("%s %d x %d %s", w, n, p, row ? "row-major" : "column-major");
      if (o == 0) { d.AddCovariates(b.b.get(), n, p, row); r.x = m; r.hx = true; } else { d.AddBasis(b.b.get(), n, p, row); r.b = m; r.hb = true; } b.unchanged(w); verify(d, r, w); b.scribble(); }
    else if (o == 2) { int n = 1 + vf::choose(N); Mat m = gen(n, 1, s + 1); Buf b(m, true); vf::note("%s %d", w, n); d.AddVarianceWeights(b.b.get(), n); r.w = m; r.hw = true; b.unchanged(w); verify(d, r, w); b.scribble(); }
    else { row = vf::choose(2); int bad = vf::choose(4); int n = r.hb ? r.b.n : 2, p = r.hb ? r.b.p : 1; if (bad == 1) p++; if (bad == 2) n++; if (bad == 3) n -= n > 1 ? 1 : -2; Mat m = gen(n, p, s + 1); Buf b(m, row); vf::note("%s %d x %d %s", w, n, p, row ? "row-major" : "column-major"); bool thrown = false; try { d.UpdateBasis(b.b.get(), n, p, row); } catch (std::exception&) { thrown = true; }
      if (!r.hb || bad) VF_CHECK(thrown, "bad-update-accepted", "%s: a basis update %s was accepted", w, r.hb ? "of another shape" : "without a basis"); else { VF_CHECK(!thrown, "update-refused", "%s: refused", w); r.b = m; } b.unchanged(w); verify(d, r, w); b.scribble(); }
    verify(d, r, w); h = hm(r.x, hm(r.b, hm(r.w, h))); vf::state(h); }
  vf::outcome(h); }
static void matvec() {
  int n = 1 + vf::choose(4), p = 1 + vf::choose(4); bool row = vf::choose(2); Mat m = gen(n, p, 3); Buf b(m, row); ColumnMatrix c; if (vf::choose(2)) { Mat o = gen(1 + vf::choose(4), 1 + vf::choose(4), 9); Buf ob(o, true); c.LoadData(ob.b.get(), o.n, o.p, true); vf::transition(); }
  if (vf::choose(2)) c = ColumnMatrix(b.b.get(), n, p, row); else c.LoadData(b.b.get(), n, p, row); vf::transition(); b.unchanged("matrix"); b.scribble(); VF_CHECK((int)c.NumRows() == n && c.NumCols() == p, "counts", "matrix %d x %d", (int)c.NumRows(), c.NumCols()); eqmat(c.GetData(), m, "matrix");
  int i = vf::choose(n), j = vf::choose(p); c.SetElement(i, j, 99); m.v[i * p + j] = 99; vf::transition(); eqmat(c.GetData(), m, "matrix after SetElement"); for (int a = 0; a < n; a++) for (int q = 0; q < p; q++) VF_CHECK(bits(c.GetElement(a, q)) == bits(m.at(a, q)), "value", "GetElement(%d,%d)", a, q); vf::state(hm(m, row));
  Mat v = gen(n, 1, 5); Buf vb(v, true); ColumnVector cv(vb.b.get(), n); if (vf::choose(2)) { Mat v2 = gen(1 + vf::choose(4), 1, 8); Buf b2(v2, true); cv.LoadData(b2.b.get(), v2.n); b2.unchanged("vector"); b2.scribble(); v = v2; } vb.unchanged("vector"); vb.scribble(); VF_CHECK((int)cv.NumRows() == v.n, "counts", "vector of %d", (int)cv.NumRows()); int k = vf::choose(v.n); cv.SetElement(k, -3); v.v[k] = -3; eqmat(cv.GetData(), v, "vector"); for (int a = 0; a < v.n; a++) VF_CHECK(bits(cv.GetElement(a)) == bits(v.v[a]), "value", "vector element %d", a); }
static void rfx() {
  RandomEffectsDataset d; Ref r; int L = 1 + vf::choose(vf::thorough() ? 4 : 3); int N = vf::thorough() ? 4 : 3; uint64_t h = 2; static const int32_t LAB[] = {3, -1, 0, 2147483647, -2147483647, 3, 7};
  for (int s = 0; s < L; s++) { int o = vf::choose(3); vf::transition(); const char* w = "random effects dataset"; int n = 1 + vf::choose(N);
    if (o == 0) { int p = 1 + vf::choose(3); bool row = vf::choose(2); Mat m = gen(n, p, s + 1); Buf b(m, row); d.AddBasis(b.b.get(), n, p, row); b.unchanged(w); b.scribble(); r.b = m; r.hb = true; } else if (o == 1) { Mat m = gen(n, 1, s + 1); Buf b(m, true); d.AddVarianceWeights(b.b.get(), n); b.unchanged(w); b.scribble(); r.w = m; r.hw = true; }
    else { std::vector<int32_t> g; for (int i = 0; i < n; i++) g.push_back(LAB[(i * 2 + s) % 7]); auto g2 = g; d.AddGroupLabels(g2); VF_CHECK(g2 == g, "input-modified", "group labels"); for (auto& q : g2) q = -99; r.g = g; r.hg = true; }
    VF_CHECK(d.HasBasis() == r.hb && d.HasVarWeights() == r.hw && d.HasGroupLabels() == r.hg && d.NumObservations() == r.b.n, "presence", "presence or count of the random effects dataset");
    if (r.hb) { eqmat(d.GetBasis(), r.b, w); for (int i = 0; i < r.b.n; i++) for (int j = 0; j < r.b.p; j++) VF_CHECK(bits(d.BasisValue(i, j)) == bits(r.b.at(i, j)), "value", "rfx BasisValue(%d,%d)", i, j); } if (r.hw) { eqmat(d.GetVarWeights(), r.w, w); for (int i = 0; i < r.w.n; i++) VF_CHECK(bits(d.VarWeightValue(i)) == bits(r.w.v[i]), "value", "rfx weight %d", i); }
    if (r.hg) { VF_CHECK(d.GetGroupLabels() == r.g, "value", "group labels"); for (size_t i = 0; i < r.g.size(); i++) VF_CHECK(d.GroupId(i) == r.g[i], "value", "GroupId(%d)", (int)i); } h = hm(r.b, hm(r.w, h)); for (auto q : r.g) h = vf::mix(h, q); vf::state(h); }
  vf::outcome(h); }
// many rows, many columns
static void large() {
  static const int NN[] = {1300, 40000, 7, 300}, PP[] = {1, 2, 300, 70}; int z = vf::choose(4), n = NN[z], p = PP[z]; bool row = vf::choose(2), row2 = vf::choose(2), rd = vf::choose(2); Mat x = gen(n, p, 1), b = gen(n, p, 2), u = gen(n, p, 3), w = gen(n, 1, 4); Buf bx(x, row), bb(b, row2), bu(u, row), bw(w, true); vf::transition();
  if (!rd) { ForestDataset d; Ref r; d.AddCovariates(bx.b.get(), n, p, row); r.x = x; r.hx = true; verify(d, r, "covariates"); d.AddBasis(bb.b.get(), n, p, row2); r.b = b; r.hb = true; d.AddVarianceWeights(bw.b.get(), n); r.w = w; r.hw = true; verify(d, r, "covariates, basis and weights"); d.UpdateBasis(bu.b.get(), n, p, row); r.b = u; verify(d, r, "updated basis"); bx.unchanged("x"); bb.unchanged("b"); bu.unchanged("u"); bw.unchanged("w"); }
  else { RandomEffectsDataset d; d.AddBasis(bx.b.get(), n, p, row); d.AddVarianceWeights(bw.b.get(), n); std::vector<int32_t> g; for (int i = 0; i < n; i++) g.push_back(i * 7919 % 50021 - 20000); auto g2 = g; d.AddGroupLabels(g2); eqmat(d.GetBasis(), x, "random effects basis"); for (int i = 0; i < n; i++) VF_CHECK(bits(d.VarWeightValue(i)) == bits(w.v[i]) && d.GroupId(i) == g[i], "value", "random effects weight or label %d", i); VF_CHECK((int)d.NumObservations() == n && d.GetGroupLabels() == g, "value", "group labels"); ColumnMatrix c(bx.b.get(), n, p, row); eqmat(c.GetData(), x, "matrix"); ColumnVector v(bw.b.get(), n); VF_CHECK((int)v.NumRows() == n, "counts", "vector of %d", (int)v.NumRows()); for (int i = 0; i < n; i++) VF_CHECK(bits(v.GetElement(i)) == bits(w.v[i]), "value", "vector element %d", i); }
  uint64_t h = hm(x, z * 8 + row * 4 + row2 * 2 + rd); vf::state(h); vf::outcome(h); }
static void setup() { vf::add("large", large); vf::add("forest-dataset", [] { dataset_(3, vf::thorough() ? 4 : 3, 3); }); vf::add("forest-dataset-long", [] { dataset_(vf::thorough() ? 5 : 4, 2, 2); }); vf::add("matrix-vector", matvec); vf::add("random-effects-dataset", rfx); }
VF_MAIN

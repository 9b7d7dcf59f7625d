// Controlled randomness: force-included (-include) before any code under test.
// All std distributions become choice points whose outcome the explorer decides;
// every type stays a valid standard-conforming drop-in (real engine underneath).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <numeric>
#include <random>
#include <string>
#include <vector>
#include <limits>

namespace vf {
// A hook may decide a draw; when absent the real distribution is used.
struct RngHooks {
  std::function<long(const std::vector<double>& /*probabilities*/)> discrete;
  std::function<double(double a, double b)> uniform_real;
  std::function<long(long a, long b)> uniform_int;
  std::function<double()> std_normal;                       // returns z
  std::function<double(double alpha, double beta)> gamma;
  long draws = 0;
};
inline RngHooks& rng() { static RngHooks h; return h; }
}  // namespace vf

namespace std {
class vf_mt19937 : public mt19937 { public: using mt19937::mt19937; };

template <class I = int> class vf_discrete_distribution {
 public:
  using result_type = I; using base = discrete_distribution<I>; using param_type = typename base::param_type;
  vf_discrete_distribution() {}
  template <class It> vf_discrete_distribution(It b, It e) : d(b, e) {}
  vf_discrete_distribution(initializer_list<double> l) : d(l) {}
  template <class F> vf_discrete_distribution(size_t n, double x, double y, F f) : d(n, x, y, f) {}
  explicit vf_discrete_distribution(const param_type& p) : d(p) {}
  void reset() { d.reset(); }
  vector<double> probabilities() const { return d.probabilities(); }
  param_type param() const { return d.param(); }
  void param(const param_type& p) { d.param(p); }
  I min() const { return d.min(); } I max() const { return d.max(); }
  template <class G> I operator()(G& g) {
    vf::rng().draws++;
    if (vf::rng().discrete) {
      auto p = d.probabilities(); if (p.empty()) p.push_back(1.0);
      return static_cast<I>(vf::rng().discrete(p));
    }
    return d(g);
  }
  template <class G> I operator()(G& g, const param_type& p) { return vf_discrete_distribution(p)(g); }
 private: base d;
};
template <class R = double> class vf_uniform_real_distribution {
 public:
  using result_type = R; using base = uniform_real_distribution<R>; using param_type = typename base::param_type;
  vf_uniform_real_distribution() : d(0., 1.) {}
  explicit vf_uniform_real_distribution(R a, R b = R(1)) : d(a, b) {}
  explicit vf_uniform_real_distribution(const param_type& p) : d(p) {}
  void reset() { d.reset(); } R a() const { return d.a(); } R b() const { return d.b(); }
  R min() const { return d.min(); } R max() const { return d.max(); }
  param_type param() const { return d.param(); } void param(const param_type& p) { d.param(p); }
  template <class G> R operator()(G& g) {
    vf::rng().draws++;
    if (vf::rng().uniform_real) return static_cast<R>(vf::rng().uniform_real(d.a(), d.b()));
    return d(g);
  }
  template <class G> R operator()(G& g, const param_type& p) { return vf_uniform_real_distribution(p)(g); }
 private: base d;
};
template <class I = int> class vf_uniform_int_distribution {
 public:
  using result_type = I; using base = uniform_int_distribution<I>; using param_type = typename base::param_type;
  vf_uniform_int_distribution() {}
  explicit vf_uniform_int_distribution(I a, I b = numeric_limits<I>::max()) : d(a, b) {}
  explicit vf_uniform_int_distribution(const param_type& p) : d(p) {}
  void reset() { d.reset(); } I a() const { return d.a(); } I b() const { return d.b(); }
  I min() const { return d.min(); } I max() const { return d.max(); }
  template <class G> I operator()(G& g) {
    vf::rng().draws++;
    if (vf::rng().uniform_int) return static_cast<I>(vf::rng().uniform_int(d.a(), d.b()));
    return d(g);
  }
  template <class G> I operator()(G& g, const param_type& p) { return vf_uniform_int_distribution(p)(g); }
 private: base d;
};
template <class R = double> class vf_normal_distribution {
 public:
  using result_type = R; using base = normal_distribution<R>; using param_type = typename base::param_type;
  vf_normal_distribution() {}
  explicit vf_normal_distribution(R m, R s = R(1)) : d(m, s) {}
  explicit vf_normal_distribution(const param_type& p) : d(p) {}
  void reset() { d.reset(); } R mean() const { return d.mean(); } R stddev() const { return d.stddev(); }
  R min() const { return d.min(); } R max() const { return d.max(); }
  param_type param() const { return d.param(); } void param(const param_type& p) { d.param(p); }
  template <class G> R operator()(G& g) {
    vf::rng().draws++;
    if (vf::rng().std_normal) return d.mean() + d.stddev() * vf::rng().std_normal();
    return d(g);
  }
  template <class G> R operator()(G& g, const param_type& p) { return vf_normal_distribution(p)(g); }
 private: base d;
};
template <class R = double> class vf_gamma_distribution {
 public:
  using result_type = R; using base = gamma_distribution<R>; using param_type = typename base::param_type;
  vf_gamma_distribution() {}
  explicit vf_gamma_distribution(R a, R b = R(1)) : d(a, b) {}
  explicit vf_gamma_distribution(const param_type& p) : d(p) {}
  void reset() { d.reset(); } R alpha() const { return d.alpha(); } R beta() const { return d.beta(); }
  R min() const { return d.min(); } R max() const { return d.max(); }
  param_type param() const { return d.param(); } void param(const param_type& p) { d.param(p); }
  template <class G> R operator()(G& g) {
    vf::rng().draws++;
    if (vf::rng().gamma) return vf::rng().gamma(d.alpha(), d.beta());
    return d(g);
  }
  template <class G> R operator()(G& g, const param_type& p) { return vf_gamma_distribution(p)(g); }
 private: base d;
};
template <class R, size_t bits, class G> R vf_generate_canonical(G& g) {
  vf::rng().draws++;
  if (vf::rng().uniform_real) return static_cast<R>(vf::rng().uniform_real(0., 1.));
  return generate_canonical<R, bits>(g);
}
}  // namespace std
#define generate_canonical vf_generate_canonical
#define mt19937 vf_mt19937
#define discrete_distribution vf_discrete_distribution
#define uniform_real_distribution vf_uniform_real_distribution
#define uniform_int_distribution vf_uniform_int_distribution
#define normal_distribution vf_normal_distribution
#define gamma_distribution vf_gamma_distribution

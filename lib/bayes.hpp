// Dense, definition-level Gaussian computations used as oracles (no sufficient statistics).
#pragma once
#include "vf.hpp"
#include <Eigen/Dense>
namespace vfb {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
// data of a node: outcome y, leaf basis B (ones for the constant model), observation variance multipliers w
struct Obs { std::vector<double> y, w; std::vector<std::vector<double>> b; int d = 1;
  void add(double yy, double ww, std::vector<double> bb) { y.push_back(yy); w.push_back(ww); b.push_back(bb); } };
inline double logdet_spd(const M& A) { Eigen::LLT<M> l(A); double s = 0; M L = l.matrixL(); for (int i = 0; i < A.rows(); i++) s += 2 * std::log(L(i, i)); return s; }
// the same two quantities for many observations: conditioning on one observation at a time, in extended precision
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> LM; typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> LV;
inline long double sequential(const Obs& o, const M& S, double s2, LV& m, LM& C) {
  m = LV::Zero(o.d); C = S.cast<long double>(); long double g = 0; LV b(o.d);
  for (size_t i = 0; i < o.y.size(); i++) { for (int k = 0; k < o.d; k++) b(k) = o.b[i][k]; long double v = (long double)s2 * o.w[i], y = o.y[i]; LV Cb = C * b; long double q = v + b.dot(Cb), e = y - b.dot(m); g += -0.5L * std::log(q / v) - 0.5L * (e * e / q - y * y / v); m += Cb * (e / q); LV K = Cb / q; LM J = LM::Identity(o.d, o.d) - K * b.transpose(); C = J * C * J.transpose() + v * K * K.transpose(); }
  return g; }
static size_t MANY = 12;
// log N(y; 0, s2 W + B S B') - log N(y; 0, s2 W): the node's log marginal likelihood up to a partition-independent constant
inline double loggain(const Obs& o, const M& S, double s2) {
  int n = o.y.size(); if (!n) return 0; if (o.y.size() > MANY) { LV m; LM C; return sequential(o, S, s2, m, C); } M B(n, o.d), C = M::Zero(n, n); V y(n); double base = 0;
  for (int i = 0; i < n; i++) { y(i) = o.y[i]; for (int k = 0; k < o.d; k++) B(i, k) = o.b[i][k]; C(i, i) = s2 * o.w[i]; base += -0.5 * std::log(C(i, i)) - 0.5 * y(i) * y(i) / C(i, i); }
  C += B * S * B.transpose(); return -0.5 * logdet_spd(C) - 0.5 * y.dot(C.ldlt().solve(y)) - base; }
inline void posterior(const Obs& o, const M& S, double s2, V& mean, M& cov) { // conditional of beta given y, by joint-Gaussian conditioning
  int n = o.y.size(); if (!n) { mean = V::Zero(o.d); cov = S; return; } if (o.y.size() > MANY) { LV m; LM C; sequential(o, S, s2, m, C); mean = m.cast<double>(); cov = C.cast<double>(); return; } M B(n, o.d), C = M::Zero(n, n); V y(n);
  for (int i = 0; i < n; i++) { y(i) = o.y[i]; for (int k = 0; k < o.d; k++) B(i, k) = o.b[i][k]; C(i, i) = s2 * o.w[i]; }
  C += B * S * B.transpose(); M K = (C.ldlt().solve(B * S)).transpose(); mean = K * y; cov = S - K * B * S; }
}  // namespace vfb

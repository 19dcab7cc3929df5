#define DCV_MAIN
#include "dcv.hpp"
#include "mav_trajectory_generation/polynomial.h"
using namespace dcv;
using mav_trajectory_generation::Polynomial;

void dcv_once() {}

void dcv_case(Src& s, long i) {
  int N = s.num("N", 1, 22);
  Eigen::VectorXd c(N);
  for (int k = 0; k < N; ++k) c[k] = s.real("c" + std::to_string(k), -10, 10);
  double t = s.real("t", -3, 3);
  Polynomial p(c);
  for (int k = 0; k <= N + 1; ++k)
    near(p.evaluate(t, k), polyval(c, k, t), "value", polyscale(c, k, t), 1e-11L, "derivative " + std::to_string(k));
  int M = s.num("M", 0, N);
  Eigen::VectorXd r = Eigen::VectorXd::Constant(M, 77.0);
  p.evaluate(t, &r);
  ensure(r.size() == M, "all_derivatives_size");
  for (int k = 0; k < M; ++k) near(r[k], polyval(c, k, t), "all_derivatives", polyscale(c, k, t), 1e-11L);
  int k = s.num("k", 0, N);
  Eigen::VectorXd g = p.getCoefficients(k);
  ensure(g.size() == N, "derivative_coefficients_size");
  if (g.size() == N)
    for (int j = 0; j < N; ++j) {
      ld want = 0;
      if (j + k < N) { want = c[j + k]; for (int q = 0; q < k; ++q) want *= (j + k - q); }
      near(g[j], want, "derivative_coefficients", 0, 1e-12L);
    }
  if (k < N) {
    Eigen::VectorXd row = Eigen::VectorXd::Constant(s.num("oldsize", 0, 25), 5.0);
    Polynomial::baseCoeffsWithTime(N, k, t, &row);
    Eigen::VectorXd row2 = Polynomial::baseCoeffsWithTime(N, k, t);
    ensure(row.size() == N && row2.size() == N, "basis_row_size");
    for (int j = 0; j < N && row.size() == N && row2.size() == N; ++j) {
      ld want = j >= k ? 1 : 0;
      if (j >= k) { for (int q = 0; q < k; ++q) want *= (j - q); for (int q = 0; q < j - k; ++q) want *= (ld)t; }
      near(row[j], want, "basis_row", 0, 1e-12L);
      near(row2[j], want, "basis_row", 0, 1e-12L);
    }
    near(row2.dot(c), polyval(c, k, t), "basis_row_times_coefficients", polyscale(c, k, t), 1e-11L);
  }
  for (int j = 0; j < N; ++j) ensure(p.getCoefficients(0)[j] == c[j], "object_unchanged");
}

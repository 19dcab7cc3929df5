#define DCV_MAIN
#include "dcv.hpp"
#include "mav_trajectory_generation/polynomial.h"
using namespace dcv;
using mav_trajectory_generation::Polynomial;
void dcv_once() {}
static Eigen::VectorXd vec(Src& s, const char* n, int N) {
  Eigen::VectorXd c(N);
  for (int k = 0; k < N; ++k) c[k] = s.real(n + std::to_string(k), -10, 10);
  return c;
}
static void same(const Polynomial& p, const Eigen::VectorXd& c, const char* w) {
  Eigen::VectorXd g = p.getCoefficients(0);
  ensure(p.N() == c.size() && g.size() == c.size() && g == c, w);
}
void dcv_case(Src& s, long i) {
  int n = s.num("n", 1, 22), m = s.num("m", 1, 22);
  Eigen::VectorXd c = vec(s, "c", n), d = vec(s, "d", n), e = vec(s, "e", m);
  double t = s.real("t", -2, 2), f = s.real("s", -3, 3);
  const Polynomial p(c), q(d), r(e);
  Polynomial sum = p + q, prod = p * r, sca = p * f, pp = p, self = p;
  pp += q;
  self += self;
  ensure(sum.N() == n && pp.N() == n && sca.N() == n && prod.N() == n + m - 1, "sizes");
  ld sc = polyscale(c, 0, t) + polyscale(d, 0, t);
  near(sum.evaluate(t, 0), polyval(c, 0, t) + polyval(d, 0, t), "sum", sc, 1e-11L);
  near(pp.evaluate(t, 0), polyval(c, 0, t) + polyval(d, 0, t), "in_place_sum", sc, 1e-11L);
  near(self.evaluate(t, 0), 2 * polyval(c, 0, t), "in_place_sum_with_itself", sc, 1e-11L);
  near(sca.evaluate(t, 0), polyval(c, 0, t) * f, "scalar_multiple", sc * std::fabs(f), 1e-11L);
  Eigen::VectorXd pc = prod.getCoefficients(0);
  Eigen::VectorXd cv = Polynomial::convolve(c, e);
  ensure(Polynomial::getConvolutionLength(n, m) == n + m - 1, "convolution_length");
  ensure(cv.size() == n + m - 1, "convolution_size");
  for (int k = 0; k < n + m - 1; ++k) {
    ld w = 0;
    for (int a = 0; a < n; ++a) if (k - a >= 0 && k - a < m) w += (ld)c[a] * e[k - a];
    near(pc[k], w, "product", 1000, 1e-12L);
    near(cv[k], w, "convolution", 1000, 1e-12L);
  }
  Polynomial b = p, o = p;
  b.scalePolynomialInTime(f);
  near(b.evaluate(t, 0), polyval(c, 0, (ld)f * t), "time_scaling", polyscale(c, 0, (ld)f * t), 1e-11L);
  o.offsetPolynomial(f);
  for (int k = 0; k < n; ++k) near(o.getCoefficients(0)[k], (ld)c[k] + (k == 0 ? f : 0), "offset", 0, 1e-13L);
  Polynomial out(vec(s, "old", 3));
  int M = s.num("M", 1, 22);
  bool ok = p.getPolynomialWithAppendedCoefficients(M, &out);
  ensure(ok == (M >= n), "padding_refusal");
  Eigen::VectorXd want = c;
  if (M >= n) { want = Eigen::VectorXd::Zero(M); want.head(n) = c; }
  same(out, want, "padding");
  same(p, c, "operand_unchanged"); same(q, d, "operand_unchanged"); same(r, e, "operand_unchanged");
  Polynomial u = p, v = p;
  ensure(u == v && !(u != v), "equality");
  Eigen::VectorXd c2 = c;
  int at = s.num("at", 0, n - 1);
  c2[at] += 1e-6;
  Polynomial w(c2);
  ensure(!(w == p) && (w != p), "inequality");
  Polynomial x(n);
  x.setCoefficients(c);
  same(x, c, "set_coefficients");
}

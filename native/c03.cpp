#define DCV_MAIN
#include "dcv.hpp"
#include "mav_trajectory_generation/polynomial.h"
using namespace dcv;
using mav_trajectory_generation::Polynomial;
// slopes with a cluster of roots near zero, on which Jenkins-Traub gives up
static const double hard[3][14] = {
    {3.8303172184523246, 1.3927228837202563, -2107167.373583572, 81358965.795068264, -1072952115.7087016, 170439415254208.56, -7027453259397374, 1.2203079596773523e+17, -1.1730666980748477e+18, 6.8619805245845975e+18, -2.5111929064244756e+19, 5.6325707464957608e+19, -7.098110656267291e+19, 3.8559691153985806e+19},
    {-1.5639797779435169e-10, 0.4457095412173171, -2.7187343935553892, -151407.08775211559, 1744550.1694312228, 13684195241.892908, -236808349098.87732, 1732311377316.5134, -7040658952177.9512, 17467054801886.094, -27179709932213.727, 25976574581365.344, -13972717990913.137, 3244558287727.6001},
    {-6.0535572258627927e-11, 0.057591846591208674, 0.92218566135358371, -6857.9133406128603, 42477.320788359299, 229051853.60490477, -3664514813.9366732, 24695345079.708817, -92168445141.860962, 209404176900.57938, -297735542298.41083, 259533107863.41043, -127137103216.19135, 26853756961.759762},
};
void dcv_once() {
  for (auto& h : hard) {
    Eigen::VectorXd c = Eigen::VectorXd::Zero(15);
    for (int i = 0; i < 14; ++i) c[i + 1] = h[i] / (i + 1);
    Polynomial p(c);
    for (double b : {0.05, 0.2, 0.28, 0.5, 0.68, 0.8}) {
      std::pair<double, double> lo, hi;
      ensure(p.computeMinMax(0.0, b, 0, &lo, &hi), "extrema_found");
      double m = 1e300, M = -1e300;
      for (int k = 0; k <= 4000; ++k) { double v = p.evaluate(b * k / 4000, 0); m = std::min(m, v); M = std::max(M, v); }
      double tol = 1e-6 * (M - m);
      ensure(lo.second <= m + tol && hi.second >= M - tol, "extrema_of_a_polynomial_with_clustered_slope_roots", str(b) + ": [" + str(lo.second) + "," + str(hi.second) + "] sampled [" + str(m) + "," + str(M) + "]");
    }
  }
}
void dcv_case(Src& s, long i) {
  // 1. candidates from given roots
  double a = s.real("a", -5, 5), b = s.real("b", -5, 5);
  int n = s.num("nroots", 0, 6);
  Eigen::VectorXcd R(n);
  for (int k = 0; k < n; ++k) {
    double re = s.real("root" + std::to_string(k) + ".re", -6, 6);
    int at = s.num("edge" + std::to_string(k), 0, 9);
    if (at == 0) re = a; else if (at == 1) re = b;
    double im = s.num("isreal" + std::to_string(k), 0, 2) ? 0 : s.real("root" + std::to_string(k) + ".im", -1, 1);
    R[k] = std::complex<double>(re, im);
  }
  std::vector<double> c = {42, 43, 44};
  bool ok = Polynomial::selectMinMaxCandidatesFromRoots(a, b, R, &c);
  ensure(ok == (a <= b), "reversed_interval_refused");
  if (a <= b) {
    std::multiset<double> want = {a, b};
    for (int k = 0; k < n; ++k)
      if (std::abs(R[k].imag()) <= std::numeric_limits<double>::epsilon() && R[k].real() >= a && R[k].real() <= b) want.insert(R[k].real());
    ensure(std::multiset<double>(c.begin(), c.end()) == want, "candidates_from_roots");
  }
  // 2. a polynomial whose derivative has known simple roots
  int m = s.num("m", 0, 5);
  Polynomial d(Eigen::VectorXd::Constant(1, s.flag("sign") ? 1.0 : -1.0));
  std::vector<double> roots;
  for (int k = 0; k < m; ++k) {
    double r = -3 + 1.2 * k + s.plain("r" + std::to_string(k), -0.3, 0.3);
    roots.push_back(r);
    d = d * Polynomial(Eigen::Vector2d(-r, 1));
  }
  int der = s.num("der", 0, 2);  // d is the (der+1)-th derivative of p
  Eigen::VectorXd cf = d.getCoefficients(0);
  for (int j = 0; j <= der; ++j) {
    Eigen::VectorXd up(cf.size() + 1);
    up[0] = s.real("const" + std::to_string(j), -2, 2);
    for (int k = 0; k < cf.size(); ++k) up[k + 1] = cf[k] / (k + 1);
    cf = up;
  }
  // leading coefficients that vanish do not change the polynomial
  int zeros = s.num("zeros", 0, 7);
  if (zeros > 5) { long n0 = cf.size(); cf.conservativeResize(n0 + zeros - 5); cf.tail(zeros - 5).setZero(); }
  Polynomial p(cf);
  double lo = std::min(a, b), hi = std::max(a, b);
  c = {1, 2, 3};
  ensure(p.computeMinMaxCandidates(lo, hi, der, &c), "candidates_reported");
  bool in = true, hasa = false, hasb = false;
  for (double x : c) { in = in && x >= lo && x <= hi; hasa |= x == lo; hasb |= x == hi; }
  ensure(in, "candidate_outside_interval");
  ensure(hasa && hasb, "interval_ends_are_candidates");
  for (double r : roots)
    if (r > lo + 1e-6 && r < hi - 1e-6) {
      bool f = false;
      for (double x : c) f = f || std::fabs(x - r) < 1e-4;
      ensure(f, "critical_point_missing", str(r));
    }
  for (double x : c)
    if (x != lo && x != hi) {
      bool f = false;
      for (double r : roots) f = f || std::fabs(x - r) < 1e-3;
      ensure(f, "candidate_not_critical", str(x));
    }
  if (lo < hi) {
    std::vector<double> cc = {9};
    ensure(!p.computeMinMaxCandidates(hi, lo, der, &cc), "reversed_interval_refused");
  }
  ensure(!p.computeMinMaxCandidates(lo, hi, p.N() + s.num("over", 0, 2), &c), "missing_derivative_refused");
  // 3. extrema over candidates
  std::pair<double, double> mn(7, 7), mx(8, 8);
  std::vector<double> none;
  ensure(!p.selectMinMaxFromCandidates(none, der, &mn, &mx), "empty_candidates_refused");
  std::vector<double> cs;
  int nc = s.num("nc", 1, 5);
  for (int k = 0; k < nc; ++k) cs.push_back(s.real("cand" + std::to_string(k), -3, 3));
  auto good = [&](const std::vector<double>& l, int dd, const char* w) {
    double vmin = 1e300, vmax = -1e300;
    bool fmin = false, fmax = false;
    for (double x : l) { double v = p.evaluate(x, dd); vmin = std::min(vmin, v); vmax = std::max(vmax, v); }
    for (double x : l) { fmin |= x == mn.first && p.evaluate(x, dd) == mn.second; fmax |= x == mx.first && p.evaluate(x, dd) == mx.second; }
    ensure(mn.second == vmin && mx.second == vmax, w);
    ensure(fmin && fmax, "extremum_not_at_its_time", w);
  };
  ensure(p.selectMinMaxFromCandidates(cs, der, &mn, &mx), "candidates_accepted");
  good(cs, der, "extrema_of_candidates");
  std::vector<double> all;
  p.computeMinMaxCandidates(lo, hi, der, &all);
  ensure(p.computeMinMax(lo, hi, der, &mn, &mx), "extrema_reported");
  good(all, der, "extrema_of_interval");
  for (int k = 0; k <= 20; ++k) {
    double x = lo + (hi - lo) * k / 20;
    double v = p.evaluate(x, der), tol = 1e-6 * (1 + std::fabs(v) + (double)polyscale(cf, der, std::max(std::fabs(lo), std::fabs(hi))));
    ensure(v >= mn.second - tol && v <= mx.second + tol, "extrema_bound_the_interval");
  }
  if (lo < hi) ensure(!p.computeMinMax(hi, lo, der, &mn, &mx), "reversed_interval_refused");
  Eigen::VectorXcd RR;
  ensure(p.selectMinMaxFromRoots(lo, hi, der, R, &mn, &mx), "extrema_from_roots_reported");
  std::vector<double> cr;
  Polynomial::selectMinMaxCandidatesFromRoots(lo, hi, R, &cr);
  good(cr, der, "extrema_from_roots");
  if (lo < hi) ensure(!p.selectMinMaxFromRoots(hi, lo, der, R, &mn, &mx), "reversed_interval_refused");
}

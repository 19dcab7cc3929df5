#define DCV_MAIN
#include "opt.hpp"
using namespace dcv;
void dcv_once() {}
static void matrices(Opt& o, const Problem& q) {
  Eigen::MatrixXd A, B, M, P, R;
  o.getA(&A); o.getAInverse(&B); o.getM(&M); o.getMpinv(&P); o.getR(&R);
  int n = 10 * q.S, m = 5 * (q.S + 1), nf = o.getNumberFixedConstraints();
  ensure(A.rows() == n && A.cols() == n && B.rows() == n && B.cols() == n && M.rows() == n && M.cols() == m && P.rows() == m && P.cols() == n && R.rows() == m && R.cols() == m, "matrix_sizes");
  Eigen::MatrixXd E = A * B, C = A.cwiseAbs() * B.cwiseAbs(), I = P * M;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) near(E(i, j), i == j, "A_times_its_inverse", C(i, j), 1e-11);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j) near(I(i, j), i == j, "pseudo_inverse_of_M");
  Segment::Vector g;
  o.getSegments(&g);
  std::vector<Eigen::VectorXd> df, dp;
  o.getFixedConstraints(&df);
  o.getFreeConstraints(&dp);
  ld total = 0, scale = 0;
  for (int d = 0; d < q.D; ++d) {
    Eigen::VectorXd x(m), c(n);
    x << df[d], dp[d];
    ensure(df[d].size() == nf, "number_of_fixed_values");
    for (int i = 0; i < q.S; ++i) c.segment(10 * i, 10) = g[i][d].getCoefficients(0);
    Eigen::VectorXd l = A * c, r = M * x, s = A.cwiseAbs() * c.cwiseAbs();
    for (int i = 0; i < n; ++i) near(l[i], r[i], "end_derivatives_are_M_times_the_compact_values", s[i] + absval(g[i / 10], d, i % 5, g[i / 10].getTime()), 1e-9);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) { ld t = (ld)x[i] * R(i, j) * x[j]; total += t; scale += std::fabs((double)t); }
  }
  // rounding of the inverse mapping enters R squared
  ld s2 = 0, want = cost(o, q, &s2);
  near(total / 2, want, "cost_from_R", scale + s2, 1e-11);
}
void dcv_case(Src& s, long) {
  int D = s.wide("D", 1, 3, 7);
  Opt o(D);
  int n = s.num("ops", 1, 2);
  for (int u = 0; u < n; ++u) {
    Problem q = problem(s, "p" + std::to_string(u), D, 3);
    for (double& t : q.T) t = std::max(0.4, std::min(t, 3.0));
    ensure(o.setupFromVertices(q.v, q.T, q.r), "setup");
    ensure(o.getDerivativeToOptimize() == q.r, "derivative_to_optimise");
    int m = s.wide("steps", 1, 2, 7);
    for (int k = 0; k < m; ++k) {
      if (k > 0) {
        for (double& t : q.T) t = std::max(0.4, std::min(otime(s, "T"), 3.0));
        o.updateSegmentTimes(q.T);
      }
      std::vector<Eigen::VectorXd> x;
      auto randomise = [&]() {
        o.getFreeConstraints(&x);
        for (auto& v : x) for (int i = 0; i < v.size(); ++i) v[i] = s.real("free", -5, 5);
        o.setFreeConstraints(x);
      };
      bool hand = s.flag("by hand");
      if (hand) randomise();
      else ensure(o.solveLinear(), "solve");
      ld sc = 0, want = cost(o, q, &sc);
      double got = o.computeCost();
      ensure(std::fabs((double)(got - want)) <= 1e-9L + 1e-10L * want + 1e-13L * sc, "cost_is_the_integral_of_the_squared_derivative", str(got) + " " + str(want));
      if (!hand) {
        std::vector<Eigen::VectorXd> best;
        o.getFreeConstraints(&best);
        if (!best.empty() && best[0].size() > 0) {
          double h = s.plain("step", 0.01, 2);
          std::vector<Eigen::VectorXd> a = best, b = best;
          for (int d = 0; d < D; ++d)
            for (int i = 0; i < best[d].size(); ++i) { double e = h * s.plain("dir", -1, 1); a[d][i] += e; b[d][i] -= e; }
          ld sa = 0, sb = 0;
          o.setFreeConstraints(a);
          ld ca = cost(o, q, &sa);
          o.setFreeConstraints(b);
          ld cb = cost(o, q, &sb);
          ld tol = 1e-8L + 1e-6L * (ca + cb + want) + 1e-12L * (sa + sb + sc);
          ensure(ca >= want - tol && cb >= want - tol, "no_other_free_values_cost_less", str(want) + " " + str(ca) + " " + str(cb));
          ensure(std::fabs((double)(ca - cb)) <= tol, "stationary", str(ca) + " " + str(cb));
        }
        o.setFreeConstraints(best);
      }
      matrices(o, q);
    }
  }
  double t = s.plain("t", 0.1, 5);
  int r = s.num("r", 0, 9);
  Opt::SquareMatrix Q;
  Opt::computeQuadraticCostJacobian(r, t, &Q);
  for (int i = 0; i < 10; ++i)
    for (int j = 0; j < 10; ++j) {
      ld w = 0, sc = 0;
      if (i >= r && j >= r) {
        ld a = 2;
        for (int k = 0; k < r; ++k) a *= (ld)(i - k) * (j - k);
        w = a * powl(t, i + j - 2 * r + 1) / (i + j - 2 * r + 1);
      }
      near(Q(i, j), w, "cost_matrix", sc, 1e-12);
    }
}

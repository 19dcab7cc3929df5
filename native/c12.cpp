#define DCV_MAIN
#include "opt.hpp"
using namespace dcv;
void dcv_once() {}
static void hand(Src& s, Opt& o, const Problem& q, const std::vector<double>& T) {
  auto f = freelist(q);
  ensure(o.getNumberFreeConstraints() == f.size(), "number_of_free_derivatives");
  ensure(o.getNumberFixedConstraints() == 5 * (q.S + 1) - f.size(), "number_of_fixed_derivatives");
  ensure((int)o.getNumberAllConstraints() == 10 * q.S, "number_of_all_derivatives");
  std::vector<Eigen::VectorXd> x(q.D, Eigen::VectorXd::Zero(f.size())), y;
  for (auto& v : x) for (int i = 0; i < v.size(); ++i) v[i] = s.real("free", -5, 5);
  o.setFreeConstraints(x);
  o.getFreeConstraints(&y);
  ensure(y == x, "free_values_stored");
  meets(o, q, T);
  Segment::Vector g;
  o.getSegments(&g);
  for (size_t n = 0; n < f.size(); ++n)
    for (int d = 0; d < q.D; ++d)
      if (f[n].first < q.S) near(segval(g[f[n].first], d, f[n].second, 0), x[d][n], "free_value_taken", 0, 1e-7);
}
void dcv_case(Src& s, long) {
  int D = s.wide("D", 1, 3, 7);
  Opt o(D);
  int n = s.num("ops", 1, 3);
  for (int u = 0; u < n; ++u) {
    Problem q = problem(s, "p" + std::to_string(u), D);
    std::vector<double> T = q.T;
    ensure(o.setupFromVertices(q.v, q.T, q.r), "setup");
    int m = s.wide("steps", 1, 3, 9);
    for (int k = 0; k < m; ++k) {
      if (k > 0) {
        for (double& t : T) t = otime(s, "T");
        o.updateSegmentTimes(T);
      }
      if (s.flag("by hand")) hand(s, o, q, T);
      else { ensure(o.solveLinear(), "solve"); meets(o, q, T); }
    }
  }
  // the mapping between coefficients and end derivatives
  double t = s.plain("t", 0.1, 5);
  Opt::SquareMatrix A, B;
  Opt::setupMappingMatrix(t, &A);
  for (int k = 0; k < 5; ++k)
    for (int i = 0; i < 10; ++i) {
      Eigen::VectorXd e = Eigen::VectorXd::Zero(10);
      e[i] = 1;
      near(A(k, i), polyval(e, k, 0), "mapping_at_the_start");
      near(A(k + 5, i), polyval(e, k, t), "mapping_at_the_end", 0, 1e-12);
    }
  Opt::invertMappingMatrix(A, &B);
  Opt::SquareMatrix E = A * B, C = A.cwiseAbs() * B.cwiseAbs();
  for (int i = 0; i < 10; ++i)
    for (int j = 0; j < 10; ++j) near(E(i, j), i == j, "inverse", C(i, j), 1e-11);
}

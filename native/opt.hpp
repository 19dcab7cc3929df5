// random problems for the optimisers
#pragma once
#include "traj.hpp"
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
namespace dcv {
using mav_trajectory_generation::PolynomialOptimization;
typedef PolynomialOptimization<10> Opt;
struct Problem {
  int D, S, r;
  Vertex::Vector v;
  std::vector<double> T;
};
inline double otime(Src& s, const std::string& n) {
  static const double nice[] = {1, 0.5, 2, 3};
  if (s.num(n + ".long", 0, 15) == 0) return s.plain(n, 4, 25);
  return s.flag(n + ".nice") ? nice[s.num(n + ".kind", 0, 3)] : s.plain(n, 0.2, 4);
}
inline Problem problem(Src& s, const std::string& p, int D, int maxS = 4, int rare = 0) {
  Problem q;
  q.D = D;
  q.S = s.count(p + ".S", 1, maxS, rare ? rare : maxS + 5, 22);
  q.r = s.num(p + ".r", 0, 4);
  int style = s.num(p + ".style", 0, 4);
  // style 4: all but a few derivatives fixed
  std::set<int> open;
  if (style == 4) for (int k = s.num(p + ".open", 0, 2); k > 0; --k) open.insert(s.num(p + ".which", 0, 5 * q.S + 4));
  for (int i = 0; i <= q.S; ++i) {
    Vertex x(D);
    for (int k = 0; k < 8; ++k) {
      bool has = style == 0 ? (k == 0 || ((i == 0 || i == q.S) && k <= q.r)) : style == 1 || style == 4 ? k < 5 && !open.count(5 * i + k) : s.num(p + ".has", 0, k < 5 ? 1 : 9) == 1;
      if (k >= 5 && style < 2) has = false;
      if (!has) continue;
      Eigen::VectorXd c(D);
      for (int d = 0; d < D; ++d) c[d] = s.real(p + ".c", -5, 5);
      x.addConstraint(k, c);
    }
    q.v.push_back(x);
    if (i < q.S) q.T.push_back(otime(s, p + ".T"));
  }
  return q;
}
// magnitude of what cancels in derivative k: the end derivatives brought to its units
inline ld absval(const Segment& g, int d, int k, ld t) {
  ld r = segscale(g, d, k, t), T = g.getTime();
  for (int j = 0; j < 5; ++j) r += (std::fabs((double)segval(g, d, j, 0)) + std::fabs((double)segval(g, d, j, T))) * powl(T, j - k);
  return r;
}
// every constraint met, joints smooth, one segment of the given length per vertex pair
inline void meets(const Opt& o, const Problem& q, const std::vector<double>& T, double tol = 1e-9) {
  Segment::Vector g;
  o.getSegments(&g);
  Trajectory tr;
  o.getTrajectory(&tr);
  ensure((int)g.size() == q.S, "one_segment_per_vertex_pair");
  ensure(samesegs(g, tr.segments()), "trajectory_is_the_segments");
  std::vector<double> t2;
  o.getSegmentTimes(&t2);
  ensure(t2 == T, "segment_times_stored");
  ld total = 0;
  for (int i = 0; i < q.S; ++i) {
    ensure(g[i].getTime() == T[i], "segment_time", str(g[i].getTime()) + " " + str(T[i]));
    ensure(g[i].D() == q.D && g[i].N() == 10, "dimension_and_order");
    total += T[i];
  }
  near(tr.getMaxTime(), total, "total_time");
  for (int i = 0; i <= q.S; ++i)
    for (int k = 0; k < 5; ++k) {
      Eigen::VectorXd c;
      bool has = q.v[i].getConstraint(k, &c);
      for (int d = 0; d < q.D; ++d) {
        ld a = 0, b = 0, sa = 0, sb = 0;
        if (i > 0) { a = segval(g[i - 1], d, k, T[i - 1]); sa = absval(g[i - 1], d, k, T[i - 1]); }
        if (i < q.S) { b = segval(g[i], d, k, 0); sb = absval(g[i], d, k, 0); }
        std::string w = "vertex " + std::to_string(i) + " derivative " + std::to_string(k) + " dimension " + std::to_string(d);
        if (has && i > 0) near(a, c[d], "constraint_met_at_end", sa, tol, w);
        if (has && i < q.S) near(b, c[d], "constraint_met_at_start", sb, tol, w);
        if (i > 0 && i < q.S) near(a, b, "continuous", sa + sb, tol, w);
      }
    }
}
// integral over [0, T] of the squared r-th derivative; sum of the absolute terms
inline ld energy(const Eigen::VectorXd& c, int r, ld T, ld* scale) {
  ld sum = 0;
  for (int i = r; i < c.size(); ++i)
    for (int j = r; j < c.size(); ++j) {
      ld a = 1;
      for (int k = 0; k < r; ++k) a *= (ld)(i - k) * (j - k);
      int e = i + j - 2 * r + 1;
      ld x = a * (ld)c[i] * (ld)c[j] * powl(T, e) / e;
      sum += x;
      *scale += std::fabs((double)x);
    }
  return sum;
}
inline ld cost(const Opt& o, const Problem& q, ld* scale) {
  Segment::Vector g;
  o.getSegments(&g);
  ld sum = 0;
  for (int i = 0; i < q.S; ++i)
    for (int d = 0; d < q.D; ++d) sum += energy(g[i][d].getCoefficients(0), q.r, g[i].getTime(), scale);
  return sum;
}
// free derivatives in the order of the columns: by vertex, then derivative
inline std::vector<std::pair<int, int>> freelist(const Problem& q) {
  std::vector<std::pair<int, int>> f;
  for (int i = 0; i <= q.S; ++i)
    for (int k = 0; k < 5; ++k)
      if (!q.v[i].hasConstraint(k)) f.emplace_back(i, k);
  return f;
}
}  // namespace dcv

// random segments and trajectories, reference values in long double
#pragma once
#include "dcv.hpp"
#define private public
#define protected public
#include "mav_trajectory_generation/polynomial.h"
#include "mav_trajectory_generation/segment.h"
#include "mav_trajectory_generation/trajectory.h"
#include "mav_trajectory_generation/vertex.h"
#undef private
#undef protected
namespace dcv {
using mav_trajectory_generation::Polynomial;
using mav_trajectory_generation::Segment;
using mav_trajectory_generation::Trajectory;
using mav_trajectory_generation::Vertex;
using mav_trajectory_generation::Extremum;

inline Segment rseg(Src& s, const std::string& p, int N, int D, double T) {
  Segment g(N, D);
  for (int d = 0; d < D; ++d) {
    Eigen::VectorXd c(N);
    for (int k = 0; k < N; ++k) c[k] = s.real(p + ".c" + std::to_string(d) + "_" + std::to_string(k), -3, 3);
    g[d] = Polynomial(c);
  }
  g.setTime(T);
  return g;
}
inline double rtime(Src& s, const std::string& n) {
  static const double nice[] = {1, 0.5, 2, 0.25, 3, 1.5};
  int k = s.num(n + ".kind", 0, 3);
  if (k == 0) { double v = s.plain(n, 0.05, 4); return v; }
  return nice[s.num(n + ".nice", 0, 5)];
}
inline Segment::Vector rsegs(Src& s, const std::string& p, int K, int N, int D) {
  Segment::Vector v;
  for (int k = 0; k < K; ++k) v.push_back(rseg(s, p + std::to_string(k), N, D, rtime(s, p + std::to_string(k) + ".T")));
  return v;
}
inline Trajectory rtraj(Src& s, const std::string& p, int K, int N, int D) {
  Trajectory t;
  t.setSegments(rsegs(s, p, K, N, D));
  return t;
}
inline ld segval(const Segment& g, int d, int k, ld t) { return polyval(g[d].getCoefficients(0), k, t); }
inline ld segscale(const Segment& g, int d, int k, ld t) { return polyscale(g[d].getCoefficients(0), k, t); }
inline bool samesegs(const Segment::Vector& a, const Segment::Vector& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].getTime() != b[i].getTime() || a[i].D() != b[i].D() || a[i].N() != b[i].N()) return false;
    for (int d = 0; d < a[i].D(); ++d)
      if (a[i][d].getCoefficients(0) != b[i][d].getCoefficients(0)) return false;
  }
  return true;
}
inline bool sametraj(const Trajectory& a, const Trajectory& b) {
  return a.D_ == b.D_ && a.N_ == b.N_ && a.max_time_ == b.max_time_ && samesegs(a.segments_, b.segments_);
}
}  // namespace dcv

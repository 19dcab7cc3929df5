#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int K = s.count("K", 1, 5, 15, 300), N = s.wide("N", 1, 12, 16), D = s.wide("D", 1, 5, 9), k = s.num("k", 0, N + 1);
  Trajectory tr = rtraj(s, "seg", K, N, D);
  if (s.num("short", 0, 5) == 0) {
    Segment::Vector v = tr.segments_;
    v[s.num("short which", 0, K - 1)].setTime(s.plain("short time", 1e-5, 1e-2));
    tr.setSegments(v);
  }
  const Segment::Vector& g = tr.segments_;
  std::vector<double> b(1, 0.0);
  for (auto& x : g) b.push_back(b.back() + x.getTime());
  double t;
  int w = s.num("where", 0, 4), at = s.num("at", 0, K);
  if (w == 0) t = b[at];
  else if (w == 1) t = b.back();
  else if (w == 2) t = b.back() + s.plain("over", 1e-6, 5);
  else if (w == 3) { int q = at % K; t = b[q] + s.plain("inside", 0.1, 0.9) * tr.segments_[q].getTime(); }
  else t = s.plain("t", 0, 1) * b.back();
  Eigen::VectorXd v = tr.evaluate(t, k);
  ensure(v.size() == D, "one_value_per_dimension");
  if (v.size() != D) return;
  if (t > b.back()) {
    ensure((v.array() == 0).all(), "zero_beyond_end");
  } else {
    int j = K - 1;
    for (int m = 0; m < K; ++m) if (b[m] <= t && t < b[m + 1]) { j = m; break; }
    for (int d = 0; d < D; ++d) near(v[d], segval(g[j], d, k, (ld)t - b[j]), "value_of_covering_segment", segscale(g[j], d, std::min(k + 1, N), g[j].getTime()) + segscale(g[j], d, k, g[j].getTime()), 1e-9L);
  }
  int q = s.num("q", 0, K - 1);
  double tl = s.real("tl", -1, 4);
  Eigen::VectorXd sv = g[q].evaluate(tl, k);
  ensure(sv.size() == D, "segment_one_value_per_dimension");
  for (int d = 0; d < D; ++d) near(sv[d], segval(g[q], d, k, tl), "segment_value", segscale(g[q], d, k, tl), 1e-10L);
  const Segment& cs = g[q];
  Segment ms = cs;
  for (int d = 0; d < D; ++d) ensure(&cs[d] == &cs.polynomials_[d] && &ms[d] == &ms.polynomials_[d], "polynomial_of_dimension");
  Trajectory e;
  ensure(e.evaluate(1.0, 0).size() == e.D(), "empty_trajectory_beyond_end");
}

// vertices read back from random trajectories against evaluate() at the joints
#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
static void is_state(const Vertex& v, const Trajectory& t, double at, int K, const std::vector<int>& dims, const std::string& w) {
  ensure(v.D() == (int)dims.size(), (w + "_dimension").c_str());
  size_t n = 0;
  for (int q = -1; q <= 8; ++q) {
    bool want = q >= 0 && q <= K;
    ensure(v.hasConstraint(q) == want, (w + "_orders").c_str(), "order " + std::to_string(q) + " of " + std::to_string(K));
    if (!want) continue;
    ++n;
    Eigen::VectorXd x, y = t.evaluate(at, q);
    v.getConstraint(q, &x);
    ensure(x.size() == (long)dims.size(), (w + "_size").c_str());
    for (size_t d = 0; d < dims.size(); ++d) {
      ld want = y[dims[d]], e = std::fabs((ld)x[d] - want);
      ensure(e <= 1e-6L * (1 + std::fabs(want)), (w + "_value").c_str(), "order " + std::to_string(q));
    }
  }
  ensure(v.getNumberOfConstraints() == n, (w + "_no_more").c_str());
}
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int K = s.count("K", 1, 4, 11, 150), D = s.wide("tr.D", 1, 6, 9), N = s.wide("tr.N", 2, 8, 12);
  int o = s.num("order", 0, 6), op = s.num("position order", 0, 5), oy = s.num("heading order", 0, 5);
  Trajectory t;
  Segment::Vector segs;  // durations whose sums are exact, so a joint is one instant however it is summed
  for (int k = 0; k < K; ++k) segs.push_back(rseg(s, "tr" + std::to_string(k), N, D, s.wide("T" + std::to_string(k), 1, 32, 8000) / 8.0));
  t.setSegments(segs);
  Trajectory was = t;
  std::vector<int> all;
  for (int d = 0; d < D; ++d) all.push_back(d);
  double at = s.plain("t", 0, 1) * t.getMaxTime();
  is_state(t.getVertexAtTime(at, o), t, at, o, all, "at_time");
  is_state(t.getStartVertex(o), t, 0, o, all, "start");
  is_state(t.getGoalVertex(o), t, t.getMaxTime(), o, all, "goal");
  Vertex::Vector v;
  for (int k = s.num("old", 0, 7); k > 0; --k) { Vertex x(D); x.makeStartOrEnd(7.0, 9); v.push_back(x); }
  ensure(t.getVertices(o, &v), "all_succeed");
  ensure((int)v.size() == K + 1, "all_count");
  double T = 0;
  for (int k = 0; k <= K; ++k) {
    is_state(v[k], t, T, o, all, "joint");
    if (k < K) T += t.segments_[k].getTime();
  }
  Vertex::Vector p, y;
  for (int k = s.num("oldp", 0, 7); k > 0; --k) { Vertex x(3); x.makeStartOrEnd(7.0, 9); p.push_back(x); y.push_back(Vertex(1)); }
  bool ok = t.getVertices(op, oy, &p, &y);
  if (D >= 4) {
    ensure(ok, "parts_succeed");
    ensure((int)p.size() == K + 1 && (int)y.size() == K + 1, "parts_count");
    T = 0;
    for (int k = 0; k <= K; ++k) {
      is_state(p[k], t, T, op, {0, 1, 2}, "position");
      is_state(y[k], t, T, oy, {3}, "heading");
      if (k < K) T += t.segments_[k].getTime();
    }
  }
  ensure(sametraj(t, was), "trajectory_kept");
}

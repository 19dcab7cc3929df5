#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
// segment g is segment o, stretched to duration T, in dimensions d0 ...
static void stretched(const Segment& g, const Segment& o, int d0, double T, const char* w) {
  for (int d = 0; d < o.D(); ++d)
    for (int k = 0; k <= 8; ++k) {
      ld f = k / 8.0L, to = f * o.getTime(), tg = f * T;
      for (int dv = 0; dv < 2; ++dv) {
        ld want = segval(o, d, dv, to) * (dv ? (T > 0 ? (ld)o.getTime() / T : 1) : 1);
        near((double)segval(g, d0 + d, dv, tg), want, w, segscale(o, d, dv, to) + 1, 1e-9L);
      }
    }
}
static void stack(const Segment& g, const Segment& a, const Segment& b, const char* w) {
  double T = std::max(a.getTime(), b.getTime());
  ensure(g.D() == a.D() + b.D() && g.N() == std::max(a.N(), b.N()) && g.getTime() == T, w);
  for (int d = 0; d < g.D(); ++d) ensure(g[d].N() == g.N(), w);
  stretched(g, a, 0, T, w);
  stretched(g, b, a.D(), T, w);
}
static bool same1(const Segment& a, const Segment& b) { return samesegs(Segment::Vector(1, a), Segment::Vector(1, b)); }
void dcv_case(Src& s, long i) {
  int N = s.wide("N", 1, 8, 14), D = s.wide("D", 1, 5, 9), K = s.count("K", 1, 4, 10, 150);
  int N2 = s.wide("N2", 1, 8, 14), D2 = s.wide("D2", 1, 4, 9);
  Trajectory a = rtraj(s, "a", K, N, D), b = rtraj(s, "b", K, N2, D2);
  const Trajectory a0 = a, b0 = b;
  int d = s.wide("d", -1, 6, 10);
  Segment one = rseg(s, "old", 2, 2, 1), old = one;
  bool valid = d >= 0 && d < D;
  ensure(a.segments()[0].getSegmentWithSingleDimension(d, &one) == valid, "single_refused_only_when_missing");
  if (valid) {
    ensure(one.D() == 1 && one.N() == N && one.getTime() == a.segments()[0].getTime() && one[0] == a.segments()[0][d], "single_dimension");
    Trajectory t = a.getTrajectoryWithSingleDimension(d);
    ensure(t.K() == K && t.D() == 1 && t.N() == N && t.getMaxTime() == a.getMaxTime(), "single_dimension_trajectory");
    for (int k = 0; k < K && k < t.K(); ++k)
      ensure(t.segments()[k].D() == 1 && t.segments()[k].getTime() == a.segments()[k].getTime() && t.segments()[k][0] == a.segments()[k][d], "single_dimension_trajectory");
  }
  Segment g = rseg(s, "old2", 3, 2, 1);
  ensure(a.segments()[0].getSegmentWithAppendedDimension(b.segments()[0], &g), "stack_succeeds");
  stack(g, a.segments()[0], b.segments()[0], "stack_segments");
  Trajectory t = rtraj(s, "old3", 2, 3, 2);
  ensure(a.getTrajectoryWithAppendedDimension(b, &t), "stack_succeeds");
  ensure(t.K() == K && t.D() == D + D2 && t.N() == std::max(N, N2), "stack_trajectories");
  double sum = 0;
  for (int k = 0; k < K && k < t.K(); ++k) {
    stack(t.segments()[k], a.segments()[k], b.segments()[k], "stack_trajectories");
    sum += std::max(a.segments()[k].getTime(), b.segments()[k].getTime());
  }
  near(t.getMaxTime(), sum, "stack_duration", sum, 1e-12L);
  ensure(sametraj(a, a0) && sametraj(b, b0), "operands_unchanged");
  Segment es(0, 0);
  ensure(es.getSegmentWithAppendedDimension(b.segments()[0], &g) && same1(g, b.segments()[0]), "stack_onto_empty");
  ensure(b.segments()[0].getSegmentWithAppendedDimension(es, &g) && same1(g, b.segments()[0]), "stack_empty");
  Trajectory et;
  ensure(et.getTrajectoryWithAppendedDimension(b, &t) && sametraj(t, b), "stack_onto_empty");
  ensure(b.getTrajectoryWithAppendedDimension(et, &t) && sametraj(t, b), "stack_empty");
  // two segments of no duration
  if (i % 16 == 0) {
    Segment z1 = a.segments()[0], z2 = b.segments()[0];
    z1.setTime(0);
    z2.setTime(0);
    ensure(z1.getSegmentWithAppendedDimension(z2, &g), "stack_succeeds");
    ensure(g.getTime() == 0 && g.D() == D + D2, "stack_zero");
    for (int k = 0; k < D; ++k) near((double)segval(g, k, 0, 0), segval(a.segments()[0], k, 0, 0), "stack_zero", 1, 1e-12L);
  }
}

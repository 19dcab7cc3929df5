#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
static void check(const Trajectory& t, const Segment::Vector& want, const char* w) {
  double sum = 0;
  for (auto& x : want) sum += x.getTime();
  ensure(samesegs(t.segments(), want), w);
  near(t.getMaxTime(), sum, w, sum, 1e-12L);
  ensure(t.D() == want[0].D() && t.N() == want[0].N() && t.K() == (int)want.size() && !t.empty() && t.getMinTime() == 0.0, w);
}
void dcv_case(Src& s, long i) {
  int N = s.wide("N", 1, 6, 13), D = s.wide("D", 1, 5, 9), K = s.count("K", 1, 4, 9, 150), K2 = s.count("K2", 1, 3, 8, 150);
  Segment::Vector a = rsegs(s, "a", K, N, D), b = rsegs(s, "b", K2, N, D), all = a;
  const Segment::Vector a0 = a, b0 = b;
  all.insert(all.end(), b.begin(), b.end());
  Trajectory t = rtraj(s, "old", s.num("Kold", 1, 2), s.num("Nold", 1, 3), s.num("Dold", 1, 3));
  t.setSegments(a);
  check(t, a, "set_segments");
  const Trajectory ta = t;
  t.addSegments(b);
  check(t, all, "add_segments");
  ensure(samesegs(a, a0) && samesegs(b, b0), "given_lists_unchanged");
  t.addSegments(Segment::Vector());
  check(t, all, "add_no_segments");
  Segment::Vector out = b;
  t.getSegments(&out);
  ensure(samesegs(out, all) && samesegs(t.segments(), all), "get_segments");
  std::vector<double> tm = t.getSegmentTimes();
  ensure(tm.size() == all.size(), "segment_times");
  for (size_t k = 0; k < tm.size() && k < all.size(); ++k) ensure(tm[k] == all[k].getTime(), "segment_times");
  // merge
  int m = s.count("m", 0, 3, 7, 60), bad = s.num("bad", 0, 5);
  std::vector<Trajectory> ops;
  Segment::Vector want = a;
  bool ok = true;
  for (int k = 0; k < m; ++k) {
    int dn = 0, dd = 0;
    if (bad == k) (s.flag("badN") ? dn : dd) = 1;
    ok = ok && !dn && !dd;
    ops.push_back(rtraj(s, "op" + std::to_string(k), s.num("Kop" + std::to_string(k), 1, 3), N + dn, D + dd));
    want.insert(want.end(), ops.back().segments_.begin(), ops.back().segments_.end());
  }
  const std::vector<Trajectory> ops0 = ops;
  Trajectory me = ta, merged = rtraj(s, "merged", 2, 3, 2);
  ensure(me.addTrajectories(ops, &merged) == ok, "merge_refused_only_on_mismatch");
  if (ok) check(merged, want, "merge");
  ensure(sametraj(me, ta), "merge_leaves_operand");
  for (int k = 0; k < m; ++k) ensure(sametraj(ops[k], ops0[k]), "merge_leaves_operands");
  // offset
  int L = s.wide("L", 0, 6, 13);
  Eigen::VectorXd v(L);
  for (int k = 0; k < L; ++k) v[k] = s.real("v" + std::to_string(k), -5, 5);
  auto offset = [&](const Segment& x, const Segment& y, const char* w) {
    ensure(x.getTime() == y.getTime() && x.D() == y.D() && x.N() == y.N(), w);
    for (int d = 0; d < D; ++d) {
      Eigen::VectorXd c = y[d].getCoefficients(0);
      if (d < 3 && L >= std::min(D, 3)) c[0] += v[d];
      ensure(x[d].getCoefficients(0) == c, w);
    }
  };
  Segment so = a[0];
  ensure(so.offsetSegment(v) == (L >= std::min(D, 3)), "offset_refused_only_when_short");
  offset(so, a[0], "offset_segment");
  Trajectory to = ta;
  ensure(to.offsetTrajectory(v) == (L >= std::min(D, 3)), "offset_refused_only_when_short");
  ensure(to.K() == K && to.getMaxTime() == ta.getMaxTime() && to.D() == D && to.N() == N, "offset_trajectory");
  for (int k = 0; k < K && k < to.K(); ++k) offset(to.segments()[k], a[k], "offset_trajectory");
  // comparison
  Trajectory eq = ta;
  ensure(eq == ta && !(eq != ta) && a[0] == a0[0] && !(a[0] != a0[0]), "equal");
  int what = s.num("what", 0, 3), at = s.num("at", 0, K - 1), dim = s.num("dim", 0, D - 1), cf = s.num("cf", 0, N - 1);
  Segment::Vector z = a;
  if (what == 0) z[at].setTime(z[at].getTime() + 0.5);
  else if (what == 1) { Eigen::VectorXd c = z[at][dim].getCoefficients(0); c[cf] += 1; z[at][dim] = Polynomial(c); }
  else if (what == 2) z.push_back(z[at]);
  else { for (auto& x : z) { Segment y(N, D + 1); for (int d = 0; d < D; ++d) y[d] = x[d]; y.setTime(x.getTime()); x = y; } }
  Trajectory tz;
  tz.setSegments(z);
  ensure(!(tz == ta) && tz != ta && !(ta == tz) && ta != tz, "different");
  if (what != 2) ensure(!(z[at] == a[at]) && z[at] != a[at], "different_segment");
  ensure(Trajectory() == Trajectory(), "empty_trajectories_equal");
  eq.clear();
  ensure(eq.empty() && eq.K() == 0 && eq.D() == 0 && eq.N() == 0 && eq.getMaxTime() == 0.0, "clear");
  eq.setSegments(b);
  check(eq, b, "set_after_clear");
}

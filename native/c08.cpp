#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
// trajectory b is trajectory a slowed by s
static void slowed(const Trajectory& a, const Trajectory& b, ld s, const char* w) {
  ensure(b.K() == a.K() && b.D() == a.D() && b.N() == a.N(), w);
  if (b.K() != a.K()) return;
  near(b.getMaxTime(), s * a.getMaxTime(), w, s * a.getMaxTime() + 1e-9L, 1e-9L);
  for (int k = 0; k < a.K(); ++k) {
    const Segment &x = a.segments()[k], &y = b.segments()[k];
    near(y.getTime(), s * x.getTime(), w, s * x.getTime(), 1e-9L);
    ensure(x.D() == y.D() && x.N() == y.N(), w);
    for (int d = 0; d < x.D() && d < y.D(); ++d)
      for (int q = 0; q <= 4; ++q) {
        ld t = x.getTime() * q / 4.0L;
        for (int dv = 0; dv < 4; ++dv) {
          ld f = std::pow(s, (ld)dv);
          near((double)(segval(y, d, dv, t * s) * f), segval(x, d, dv, t), w, segscale(x, d, dv, t) + 1e-6L, 1e-8L);
        }
      }
  }
}
void dcv_case(Src& s, long i) {
  int N = s.wide("N", 1, 8, 12), D = s.wide("D", 1, 4, 7), K = s.count("K", 1, 3, 8, 60);
  const Trajectory a = rtraj(s, "t", K, N, D);
  {
    static const double sc[] = {1, 2, 0.5, 3, 0.1, 1.37, 7, 1e-5, 9e-7, 1e-7, 0, -1, 1e-6};
    double f = sc[s.num("scale.kind", 0, 12)];
    if (s.num("scale.any", 0, 2) == 0) f = s.plain("scaling", 0.05, 5);
    Trajectory b = a;
    bool ok = b.scaleSegmentTimes(f);
    ensure(ok == !(f < 1e-6), "refused_only_below_1e-6");
    if (!ok) ensure(sametraj(a, b), "refused_scaling_changes_nothing");
    else if (f > 1e-3) slowed(a, b, f, "scale");
  }
  if (N < 3) return;
  double v0, a0;
  if (!a.computeMaxVelocityAndAcceleration(&v0, &a0) || !(v0 > 1e-3) || !(a0 > 1e-3)) return;
  // the maxima are those of the velocity and acceleration over all dimensions
  {
    ld vs = 0, as = 0;
    for (int k = 0; k < K; ++k)
      for (int q = 0; q <= 40; ++q) {
        ld t = a.segments()[k].getTime() * q / 40.0L, v = 0, c = 0;
        for (int d = 0; d < D; ++d) v += segval(a.segments()[k], d, 1, t) * segval(a.segments()[k], d, 1, t), c += segval(a.segments()[k], d, 2, t) * segval(a.segments()[k], d, 2, t);
        vs = std::max(vs, std::sqrt(v));
        as = std::max(as, std::sqrt(c));
      }
    ensure(v0 >= vs * (1 - 1e-6L) - 1e-6L && a0 >= as * (1 - 1e-6L) - 1e-6L, "measured_maxima_bound_the_path");
  }
  static const double rel[] = {0.3, 0.9, 1.0, 1.1, 4, 0.999, 0.9995, 1.0005, 0.5};
  double vl = v0 * rel[s.num("vl", 0, 8)], al = a0 * rel[s.num("al", 0, 8)];
  Trajectory b = a;
  bool ok = b.scaleSegmentTimesToMeetConstraints(vl, al);
  ld F = b.getMaxTime() / a.getMaxTime();
  ensure(F >= 1 - 1e-9L, "never_shorter");
  for (int k = 0; k < K; ++k) ensure(b.segments()[k].getTime() >= a.segments()[k].getTime(), "never_shorter");
  slowed(a, b, F, "limits_scale");
  if (v0 > vl * 1.001 * (1 + 1e-9)) ensure(F * vl >= v0 * (1 - 1e-9L), "slowed_by_the_excess");
  if (a0 > al * 1.001 * (1 + 1e-9)) ensure(F * F * al >= a0 * (1 - 1e-9L), "slowed_by_the_excess");
  if (v0 <= vl && a0 <= al) ensure(ok && sametraj(a, b), "within_limits_unchanged");
  double v1, a1;
  bool m = b.computeMaxVelocityAndAcceleration(&v1, &a1);
  if (ok) ensure(m && v1 <= vl * 1.001 * (1 + 1e-12) && a1 <= al * 1.001 * (1 + 1e-12), "success_means_within_limits");
}

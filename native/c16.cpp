#define DCV_MAIN
#include "traj.hpp"
#include "mav_trajectory_generation/trajectory_sampling.h"
using namespace dcv;
using namespace mav_trajectory_generation;
typedef mav_msgs::EigenTrajectoryPoint Pt;
void dcv_once() {}
static const double TOL = 1e-9;
static void q_same(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, const char* w) { ensure(std::abs(std::abs(a.dot(b)) - 1) < 1e-9, w); }
// value of dimension d, derivative k, at t: covering segment
static ld val(const Segment::Vector& g, int d, int k, double t) {
  double acc = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    if (t < acc + g[i].getTime() || i + 1 == g.size()) return segval(g[i], d, k, t - acc);
    acc += g[i].getTime();
  }
  return 0;
}
static bool joint(const Segment::Vector& g, double t) {
  double acc = 0;
  for (size_t i = 0; i + 1 < g.size(); ++i) { acc += g[i].getTime(); if (std::abs(acc - t) < 1e-6) return true; }
  return false;
}
static Pt junk() {
  Pt p;
  p.position_W = p.velocity_W = p.acceleration_W = p.jerk_W = p.snap_W = Eigen::Vector3d(77, 78, 79);
  p.angular_velocity_W = p.angular_acceleration_W = Eigen::Vector3d(5, 6, 7);
  p.orientation_W_B = Eigen::Quaterniond(0.5, 0.5, 0.5, 0.5);
  p.time_from_start_ns = 12345;
  p.timestamp_ns = 99;
  return p;
}
static void check(const Pt& p, const Pt& old, const Segment::Vector& g, int D, double t, const char* w, bool fresh = false) {
  const Eigen::Vector3d* f[] = {&p.position_W, &p.velocity_W, &p.acceleration_W, &p.jerk_W, &p.snap_W};
  if (!joint(g, t))
    for (int k = 0; k < 5; ++k)
      for (int d = 0; d < 3; ++d) near((*f[k])(d), val(g, d, k, t), w, 300, TOL);
  ensure(std::llabs(p.time_from_start_ns - (long long)std::llround(t * 1e9)) <= 2, w);
  if (joint(g, t)) return;
  if (D == 4) {
    q_same(p.orientation_W_B, Eigen::Quaterniond(Eigen::AngleAxisd((double)val(g, 3, 0, t), Eigen::Vector3d::UnitZ())), w);
    near(p.angular_velocity_W(2), val(g, 3, 1, t), w, 300, TOL);
    near(p.angular_acceleration_W(2), val(g, 3, 2, t), w, 300, TOL);
    ensure(p.angular_velocity_W.head<2>().norm() == 0 && p.angular_acceleration_W.head<2>().norm() == 0, w);
  } else if (D == 6) {
    Eigen::Vector3d r((double)val(g, 3, 0, t), (double)val(g, 4, 0, t), (double)val(g, 5, 0, t));
    double a = r.norm();
    Eigen::Quaterniond q(1, 0, 0, 0);
    if (a > 0) q = Eigen::Quaterniond(Eigen::AngleAxisd(a, Eigen::Vector3d(r / a)));
    q_same(p.orientation_W_B, q, w);
    Eigen::Vector3d v((double)val(g, 3, 1, t), (double)val(g, 4, 1, t), (double)val(g, 5, 1, t)), c((double)val(g, 3, 2, t), (double)val(g, 4, 2, t), (double)val(g, 5, 2, t));
    ensure((p.angular_velocity_W - mav_msgs::omegaFromRotationVector(r, v)).norm() < 1e-6 * (1 + v.norm()), w);
    ensure((p.angular_acceleration_W - mav_msgs::omegaDotFromRotationVector(r, v, c)).norm() < 1e-6 * (1 + v.squaredNorm() + c.norm()), w);
  } else if (!fresh) {
    q_same(p.orientation_W_B, old.orientation_W_B, w);
    ensure(p.angular_velocity_W == old.angular_velocity_W && p.angular_acceleration_W == old.angular_acceleration_W, w);
  }
}
static bool same(const Pt& a, const Pt& b) { return a.position_W == b.position_W && a.velocity_W == b.velocity_W && a.time_from_start_ns == b.time_from_start_ns && a.orientation_W_B.coeffs() == b.orientation_W_B.coeffs(); }
void dcv_case(Src& s, long i) {
  int N = s.wide("N", 1, 7, 12), D = s.wide("D", 1, 7, 10), K = s.count("K", 1, 3, 9, 60);
  if (s.flag("common")) D = s.flag("six") ? 6 : 4;
  Trajectory tr = rtraj(s, "t", K, N, D);
  const Segment::Vector g = tr.segments();
  double T = tr.getMaxTime();
  double t = s.flag("edge") ? (s.flag("end") ? T : 0) : s.plain("tt", -0.5, 1.5) * T;
  if (t < 0 && t > -1e-9) t = 0;
  Pt old = junk(), p = old;
  bool ok = t >= 0 && t <= T && D >= 3;
  ensure(sampleTrajectoryAtTime(tr, t, &p) == ok, "refused_only_outside");
  if (ok) check(p, old, g, D, t, "state_at_time");
  else ensure(same(p, old), "refused_leaves_state");
  const Segment& sg = g[s.num("k", 0, K - 1)];
  double ts = s.flag("edge2") ? sg.getTime() : s.plain("ts", -0.5, 1.5) * sg.getTime();
  p = old;
  ok = ts >= 0 && ts <= sg.getTime() && D >= 3;
  ensure(sampleSegmentAtTime(sg, ts, &p) == ok, "segment_refused_only_outside");
  if (ok) check(p, old, Segment::Vector(1, sg), D, ts, "segment_state");
  else ensure(same(p, old), "refused_leaves_state");
  // ranges
  double a = s.plain("ra", -0.2, 1) * T, b = a + s.plain("rb", 0, 1.1) * (T - std::max(0.0, a)), dt = s.plain("dt", 0.03, 0.7);
  if (s.flag("full")) { a = 0; b = T; }
  int many = s.count("samples", 0, 0, 0, 6000);
  if (many > 0 && b > a + 1e-3 && K < 10) dt = (b - a) / (many + 0.5);
  Pt::Vector out(2, junk());
  ok = a >= 0 && b <= T && D >= 3;
  ensure(sampleTrajectoryInRange(tr, a, b, dt, &out) == ok, "range_refused_only_outside");
  std::vector<Eigen::VectorXd> ref;
  if (ok) {
    std::vector<double> tm;
    tr.evaluateRange(a, b, dt, 0, &ref, &tm);
    ensure(ref.size() == out.size(), "range_count");
    for (size_t k = 0; k < out.size(); ++k) {
      double tk = a + k * dt;
      check(out[k], old, g, D, tk, "range_state", true);
    }
    Pt::Vector o2, o3;
    ensure(sampleTrajectoryStartDuration(tr, a, b - a, dt, &o2) || a + (b - a) > T, "start_duration");
    if (a + (b - a) <= T && a + (b - a) == b) {
      Pt::Vector o5;
      ensure(sampleTrajectoryInRange(tr, a, b, dt, &o5) && o2.size() == o5.size(), "start_duration");
      for (size_t k = 0; k < o5.size() && k < o2.size(); ++k) ensure(same(o5[k], o2[k]), "start_duration");
    }
    ensure(sampleWholeTrajectory(tr, dt, &o3), "whole");
    Pt::Vector o4;
    ensure(sampleTrajectoryInRange(tr, 0, T, dt, &o4) && o4.size() == o3.size(), "whole");
    for (size_t k = 0; k < o3.size() && k < o4.size(); ++k) ensure(same(o3[k], o4[k]), "whole");
  } else
    ensure(out.size() == 2 && same(out[0], old), "refused_leaves_states");
}

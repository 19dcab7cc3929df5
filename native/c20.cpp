#define DCV_MAIN
#include "dyn.hpp"
using namespace dcv;
void dcv_once() {}
static void vnear(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const char* w, double sc) { for (int i = 0; i < 3; ++i) near(a[i], b[i], w, sc, 1e-9); }
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 3, false);
  const Trajectory& tr = *d.traj_.trajectory_ptr_;
  Snap b = snap(d);
  double T = tr.getMaxTime(), start = d.parameters_.global_time_last_trajectory_generated;
  double gt = s.num("far", 0, 7) == 0 ? s.real("global_time", 10, 40) : s.real("global_time", -3, 14), lt = s.flag("edge") ? T : s.real("local_time", -2, 10);
  const double SC = 3000;
  for (int k = 0; k < 3; ++k) {
    double c = std::min(std::max(lt, 0.0), T);
    Eigen::Vector3d g = d.evaluateModifiedTrajectory(d.traj_, gt, lt, k);
    if (!at_joint(tr, c)) vnear(g, deformed(tr, d.dynamic_waypoints_, gt, lt, k), "deformed_trajectory", SC);
  }
  ensure(diff(b, snap(d)) == "", "evaluation_changes_nothing", diff(b, snap(d)));
  ensure(d.getMaxTime() == T + start && d.getMinTime() == start, "span");
  ensure(d.convertFromGlobalTime(gt) == gt - start && d.convertIntoGlobalTime(lt) == lt + start, "conversion");
  ensure(d.getTimeCompensation() == d.parameters_.t_offset && d.getSpeed() == d.parameters_.speed, "getters");
  ensure(diff(b, snap(d)) == "", "getters_change_nothing", diff(b, snap(d)));
  bool only = s.flag("only"), plot = s.flag("plot");
  float t = (float)s.real("t", -2, 16);
  References r;
  for (int k = 0; k < 3; ++k) r[k] = Eigen::Vector3d(1, 2, 3);
  ensure(d.evaluateTrajectory(t, r, only, plot), "succeeds");
  double g = (double)t + b.p.t_offset, l = (double)t - start + b.p.t_offset, c = std::min(std::max(l, 0.0), T);
  for (int k = 0; k < (only ? 1 : 3); ++k)
    if (!at_joint(tr, c) && std::abs(g) > 1e-9) vnear(r[k], deformed(tr, d.dynamic_waypoints_, g, l, k), k == 0 ? "reference_position" : k == 1 ? "reference_velocity" : "reference_acceleration", SC);
  Snap a = snap(d);
  if (!plot) {
    ensure(a.p.last_global_time_evaluated == (double)t && a.p.last_local_time_evaluated == (double)t - start, "recorded");
    b.p.last_global_time_evaluated = a.p.last_global_time_evaluated;
    b.p.last_local_time_evaluated = a.p.last_local_time_evaluated;
  }
  ensure(diff(b, a) == "", "evaluation_records_only_the_time", diff(b, a));
  ensure(all_free(d), "locks_released");
  // the same instant on another plan and after another move of the waypoints
  d.traj_ = ThreadSafeTrajectory(rplan(s, "other"));
  for (auto& w : d.dynamic_waypoints_) if (w.getName() != "" && s.flag("moved")) w.setCurrentPosition(w.getCurrentPosition() + Eigen::Vector3d(1, -2, 3));
  const Trajectory& tr2 = *d.traj_.trajectory_ptr_;
  d.evaluateTrajectory(t, r, false, plot);
  c = std::min(std::max(l, 0.0), tr2.getMaxTime());
  for (int k = 0; k < 3; ++k)
    if (!at_joint(tr2, c) && std::abs(g) > 1e-9) vnear(r[k], deformed(tr2, d.dynamic_waypoints_, g, l, k), "reference_after_a_change", SC);
  b = snap(d);
  double v = s.plain("v", 0.1, 4);
  d.setSpeed(v);
  b.p.speed = b.np.speed = v;
  ensure(diff(b, snap(d)) == "" && d.getSpeed() == v, "speed");
}

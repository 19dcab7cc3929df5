#define DCV_MAIN
#include "dyn.hpp"
using namespace dcv;
void dcv_once() {}
static void constraint(const DynamicWaypoint& w, int k, const Eigen::Vector3d* want, const char* what) {
  Eigen::VectorXd v;
  bool has = w.vertex_.getConstraint(k, &v);
  ensure(has == (want != nullptr), what, "order " + std::to_string(k) + (has ? " constrained" : " missing"));
  if (has && want) { ensure(v.size() == 3, what); for (int i = 0; i < 3; ++i) near(v[i], (*want)[i], what, 1000, 1e-9); }
}
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 3, false);
  const Trajectory& tr = *d.traj_.trajectory_ptr_;
  DynamicWaypoint::Deque ws;
  rwps(s, "ws", &ws, 5);
  double start = d.parameters_.global_time_last_trajectory_generated, t0 = d.new_parameters_.last_local_time_evaluated + d.parameters_.t_offset;
  double step = 5 * (2 * d.time_constant_), t1 = t0 + step, end = t1 + step + start;
  if (ws.size() && s.flag("exact")) ws[0].t_assigned_ = end;
  Snap b = snap(d);
  DynamicWaypoint::Deque in = ws, r = d.stitchActualTrajectoryWithNewWaypoints(s.real("unused", 0, 9), ws);
  std::string x = diff(b, snap(d));
  ensure(x == "" && wps_equal(in, ws), "stitching_changes_nothing_else", x);
  ensure(all_free(d), "locks_released");
  DynamicWaypoint::Deque rest;
  for (auto& w : ws) {
    if (std::abs(w.t_assigned_ - end) < 1e-12 && w.t_assigned_ != end) return;
    if (!(w.t_assigned_ < end && w.t_assigned_ > 0)) rest.push_back(w);
  }
  ensure(r.size() == rest.size() + 2, "remaining_count", std::to_string(r.size()) + " " + std::to_string(rest.size()));
  double t[2] = {t0, t1};
  for (int q = 0; q < 2; ++q) {
    double c = std::min(std::max(t[q], 0.0), tr.getMaxTime()), g = t[q] + start;
    if (!at_joint(tr, c) && std::abs(g) > 1e-9)
      for (int k = 0; k < 5; ++k) {
        Eigen::Vector3d want;
        bool has = k == 0 || (q == 0 && k < 3);
        if (has) want = deformed(tr, d.dynamic_waypoints_, g, t[q], k);
        constraint(r[q], k, has ? &want : nullptr, q ? "second_waypoint" : "first_waypoint");
      }
    Eigen::VectorXd p;
    r[q].vertex_.getConstraint(0, &p);
    ensure(r[q].name_ == "stitching_point" && r[q].t_assigned_ == 0 && !r[q].hasModifiers() && r[q].current_position_ == p && r[q].original_position_ == p, "stitching_point");
  }
  r.pop_front(); r.pop_front();
  ensure(wps_equal(r, rest), "remaining_in_order");
  DynamicWaypoint::Deque f = in;
  d.appendDronePositionWaypoint(f);
  x = diff(b, snap(d));
  ensure(x == "", "start_changes_nothing_else", x);
  ensure(f.size() == in.size() + 1, "start_count");
  Eigen::Vector3d z = Eigen::Vector3d::Zero();
  for (int k = 0; k < 5; ++k) constraint(f[0], k, k == 0 ? &d.vehicle_position_ : k < 3 ? &z : nullptr, "start_at_rest");
  ensure(f[0].name_ == "" && f[0].t_assigned_ == 0 && !f[0].hasModifiers() && f[0].current_position_ == d.vehicle_position_ && f[0].original_position_ == d.vehicle_position_, "start_waypoint");
  f.pop_front();
  ensure(wps_equal(f, in), "planned_follow");
  ensure(all_free(d), "locks_released");
}

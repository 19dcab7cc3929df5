#define DCV_MAIN
#include "dyn.hpp"
#include "../src/dynamic_trajectory.cpp"
using namespace dcv;
using namespace dynamic_traj_generator;
void dcv_once() {}
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 5, false);
  // cumulative times
  Segment::Vector segs = d.traj_.trajectory_ptr_->segments_;
  int k = s.num("index", -2, (int)segs.size() + 2);
  bool refused = false;
  double got = 0, want = 0;
  try { got = getCummulativeTime(segs, k); } catch (const std::out_of_range&) { refused = true; }
  ensure(refused == (k < 0 || k > (int)segs.size()), "index_outside_the_segments");
  if (!refused) { for (int j = 0; j < k; ++j) want += segs[j].getTime(); near(got, want, "cumulative_time", 50, 1e-12); }
  // vertices
  DynamicWaypoint::Deque ws;
  rwps(s, "ws", &ws, 4);
  if (ws.size()) {
    DynamicWaypoint::Deque in = ws;
    Vertex::Vector v = extractVerticesFromWaypoints(ws);
    ensure(v.size() == ws.size() && wps_equal(in, ws), "one_vertex_per_waypoint");
    for (size_t j = 0; j + 1 < v.size(); ++j) ensure(v[j].isEqualTol(ws[j].vertex_, 0), "waypoint_vertex");
    Vertex last = ws.back().vertex_;
    last.addConstraint(1, Eigen::Vector3d(0, 0, 0));
    last.addConstraint(2, Eigen::Vector3d(0, 0, 0));
    ensure(v.back().isEqualTol(last, 0), "ends_at_rest");
  }
  // reports
  double last = d.parameters_.last_global_time_evaluated;
  if (d.dynamic_waypoints_.size() && s.flag("exact")) d.dynamic_waypoints_[0].t_assigned_ = last;
  Snap b = snap(d);
  DynamicWaypoint::Vector up = d.getNextTrajectoryWaypoints(), ref;
  for (auto& w : d.dynamic_waypoints_) if (w.t_assigned_ > last) ref.push_back(w);
  ensure(wps_equal(up, ref), "upcoming_waypoints");
  size_t lead = 0;
  while (lead < ref.size() && ref[lead].name_ == "stitching_point") ++lead;
  ensure(d.getRemainingWaypoints() == (int)(ref.size() - lead), "remaining_waypoints");
  std::string x = diff(b, snap(d));
  ensure(x == "" && all_free(d), "reports_change_nothing", x);
  // a whole plan, now and then
  if (i % 60 == 1) {
    d.next_trajectory_waypoint_.clear();
    int n = s.count("planned", 2, 4, 9, 24);
    for (int j = 0; j < n; ++j) {
      DynamicWaypoint w = rwp(s, "p" + std::to_string(j), 1);
      Eigen::Vector3d p(5 * j + s.real("px" + std::to_string(j), -1, 1), s.real("py" + std::to_string(j), -3, 3), s.real("pz" + std::to_string(j), 1, 3));
      if (s.flag("still" + std::to_string(j))) w.resetWaypoint(p); else w.setCurrentPosition(p);
      d.next_trajectory_waypoint_.push_back(w);
    }
    d.parameters_.speed = s.real("cruise", 0.5, 4);
    b = snap(d);
    ThreadSafeTrajectory t = d.computeTrajectory(d.next_trajectory_waypoint_, s.flag("linear"));
    Snap a = snap(d);
    const Trajectory& tr = *t.trajectory_ptr_;
    ensure(tr.K() == n - 1 && tr.D() == 3 && a.nw.size() == b.nw.size(), "one_segment_between_waypoints");
    double at = b.np.global_time_last_trajectory_generated;
    for (int j = 0; j < n; ++j) {
      ensure(a.nw[j].index_ == j, "index");
      near(a.nw[j].t_assigned_, at, "schedule", 50, 1e-12);
      DynamicWaypoint w = b.nw[j];
      w.setTime(a.nw[j].t_assigned_);
      w.setIndex(j);
      ensure(wp_equal(w, a.nw[j]), "rescheduled_only");
      Eigen::VectorXd c;
      b.nw[j].vertex_.getConstraint(0, &c);
      double l = std::min(std::max(at - b.np.global_time_last_trajectory_generated, 0.0), tr.getMaxTime());
      for (int q = 0; q < 3; ++q) near(tr.evaluate(l, 0)[q], c[q], "passes_through_the_waypoint", 20, 1e-6);
      if (j == n - 1) for (int o = 1; o < 3; ++o) for (int q = 0; q < 3; ++q) near(tr.evaluate(l, o)[q], 0, "ends_at_rest", 20, 1e-5);
      if (j + 1 < n) at += tr.segments_[j].getTime();
    }
    b.nw = a.nw;
    b.tc = a.tc;
    x = diff(b, a);
    ensure(x == "" && a.tc >= 0 && all_free(d), "planning_changes_the_schedule_only", x);
    d.next_trajectory_waypoint_.resize(1);
    bool no = false;
    try { d.computeTrajectory(d.next_trajectory_waypoint_); } catch (const std::runtime_error&) { no = true; }
    ensure(no && all_free(d), "a_single_waypoint_is_refused");
  }
}

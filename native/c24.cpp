#define DCV_MAIN
#include "dyn.hpp"
#include <thread>
#include <chrono>
using namespace dcv;
using namespace dynamic_traj_generator;
void dcv_once() {}
// lets the worker run until it has done its work (or for the given time)
template <class F> static bool worker(DynamicTrajectory& d, F done, int ms) {
  d.stop_process_ = false;
  std::thread t([&] { d.todoThreadLoop(); });
  bool ok = false;
  for (int i = 0; i < ms * 4 && !ok; ++i) {
    std::this_thread::sleep_for(std::chrono::microseconds(250));
    ok = done();
  }
  d.stop_process_ = true;
  t.join();
  return ok || done();
}
static bool zone(DynamicTrajectory& d) {
  double t = d.parameters_.last_global_time_evaluated;
  if (!d.traj_.trajectory_ptr_) return false;
  for (auto& w : d.dynamic_waypoints_)
    if (w.name_ != "" && w.t_assigned_ > t) return w.t_assigned_ - t <= 5 * (2 * d.time_constant_);
  return false;
}
static bool clear_cut(DynamicTrajectory& d) {
  double t = d.parameters_.last_global_time_evaluated;
  for (auto& w : d.dynamic_waypoints_) if (std::abs(w.t_assigned_ - t - 5 * (2 * d.time_constant_)) < 1e-9) return false;
  return true;
}
template <class L> static void reset(L& l, const std::string& n, const Eigen::Vector3d& p) {
  for (auto& w : l) if (n != "" && w.name_ == n) w.resetWaypoint(p);
}
template <class L> static void move(L& l, const std::string& n, const Eigen::Vector3d& p, double t) {
  for (auto& w : l) if (n != "" && w.name_ == n) w.setCurrentPosition(p, t);
}
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 4, true);
  if (s.flag("short")) d.time_constant_ *= 0.1;
  if (s.flag("no_plan_yet")) d.traj_.trajectory_ptr_ = nullptr;
  if (d.dynamic_waypoints_.size() && s.flag("now")) d.dynamic_waypoints_[0].t_assigned_ = d.parameters_.last_global_time_evaluated;
  d.computing_new_trajectory_ = s.flag("computing");
  Snap b = snap(d);
  bool sure = clear_cut(d), z = zone(d);
  if (sure) {
    ensure(d.checkInSecurityZone() == z, "security_zone");
    ensure(d.checkIfTrajectoryCanBeGenerated() == (!z && !b.comp), "outside_the_security_zone_one_plan_at_a_time");
  }
  if (b.traj) {
    double left = b.traj->getMaxTime() + b.p.global_time_last_trajectory_generated - b.p.last_global_time_evaluated;
    if (std::abs(left - 4 * b.tc) > 1e-9) ensure(d.checkStitchTrajectory() == (left >= 4 * b.tc), "enough_of_the_trajectory_remains");
  } else ensure(!d.checkStitchTrajectory(), "nothing_to_stitch");
  std::string x = diff(b, snap(d));
  ensure(x == "" && all_free(d), "checks_change_nothing", x);
  // one modification
  static const char* names[] = {"", "a", "b", "c"};
  std::string nm = names[s.num("name", 0, 3)];
  Eigen::Vector3d p = rvec(s, "p", 15);
  bool r = d.applyWaypointModification(nm, p), any = false;
  for (auto& w : b.dw) any |= nm != "" && w.name_ == nm;
  move(b.dw, nm, p, b.p.last_global_time_evaluated);
  b.regen |= any;
  ensure(r == any, "a_moved_waypoint_is_reported");
  x = diff(b, snap(d));
  ensure(x == "" && all_free(d), "waypoints_of_that_name_are_moved", x);
  // the worker
  if (i % 25 == 3) {
    d.generate_new_traj_ = false;
    b = snap(d);
    if (b.mod.size() && !b.comp) {
      for (auto& m : b.mod) {
        bool a = false;
        for (auto& w : b.dw) a |= m.first != "" && w.name_ == m.first;
        b.regen |= a;
        move(b.dw, m.first, m.second, b.p.last_global_time_evaluated);
        reset(b.set, m.first, m.second);
        reset(b.add, m.first, m.second);
      }
      b.mod.clear();
      ensure(worker(d, [&] { std::lock_guard<std::mutex> l(d.todo_mutex); return d.waypoints_to_be_modified_.empty(); }, 2000), "modifications_are_applied");
    } else worker(d, [] { return false; }, 3);
    x = diff(b, snap(d));
    ensure(x == "" && all_free(d), "pending_modifications_are_applied_everywhere", x);
  }
  if (i % 25 == 14 && sure) {
    // asked for, but not allowed: nothing happens
    d.generate_new_traj_ = true;
    d.waypoints_to_be_modified_.clear();
    if (!z) d.computing_new_trajectory_ = true;
    b = snap(d);
    worker(d, [] { return false; }, 3);
    x = diff(b, snap(d));
    ensure(x == "" && all_free(d), "no_plan_starts_when_not_allowed", x);
  }
  if (i % 100 == 50) {
    // asked for and allowed
    d.computing_new_trajectory_ = false;
    d.generate_new_traj_ = true;
    d.waypoints_to_be_modified_.clear();
    d.waypoints_to_be_added_.clear();
    d.dynamic_waypoints_.clear();
    d.time_constant_ = s.flag("slow") ? 1.0 : 0.001;
    d.parameters_.speed = s.real("cruise", 0.5, 4);
    d.parameters_.last_global_time_evaluated = d.parameters_.global_time_last_trajectory_generated + s.real("flown", 0, 2);
    d.waypoints_to_be_set_.clear();
    int n = s.count("planned", 1, 3, 8, 60);
    for (int j = 0; j < n; ++j) {
      DynamicWaypoint w = rwp(s, "n" + std::to_string(j), 0);
      w.setTime(0);
      w.resetWaypoint(Eigen::Vector3d(20 + 5 * j, s.real("ny" + std::to_string(j), -3, 3), 2));
      d.waypoints_to_be_set_.push_back(w);
    }
    bool stitch = d.checkStitchTrajectory();
    b = snap(d);
    std::future<ThreadSafeTrajectory>* fut = &d.future_traj_;
    bool started = worker(d, [&] { std::lock_guard<std::mutex> l(d.future_mutex_); return (bool)d.computing_new_trajectory_ && fut->valid(); }, 3000);
    ensure(started, "a_plan_is_started_when_asked_for_and_allowed");
    fut->wait();
    Snap a = snap(d);
    ensure(!a.gen && a.comp && a.scratch == !stitch, "stitched_when_enough_remains");
    b.p.algorithm_time_constant = a.p.algorithm_time_constant;
    DynamicTrajectory::NumericParameters q = a.np;
    ensure(q.global_time_last_trajectory_generated == b.p.last_global_time_evaluated, "the_plan_starts_at_the_last_evaluated_time");
    q.global_time_last_trajectory_generated = b.p.global_time_last_trajectory_generated;
    ensure(par_equal(q, b.p), "parameters_are_frozen");
    ensure((int)a.nw.size() == n + (stitch ? 3 : 1) || stitch, "planned_waypoints");
    for (int j = 0; j < n; ++j) {
      const DynamicWaypoint& w = a.nw[a.nw.size() - n + j];
      { std::ostringstream os; os << w.name_ << "/" << b.set[j].name_ << " " << w.original_position_.transpose() << " / " << b.set[j].original_position_.transpose() << " stitch " << stitch << " n " << n << " nw " << a.nw.size(); ensure(w.name_ == b.set[j].name_ && w.original_position_ == b.set[j].original_position_, "planned_waypoints_come_last", os.str()); }
    }
    if (!stitch) ensure(a.nw[0].current_position_ == b.veh, "starts_at_the_vehicle");
    ensure(a.set.empty() && a.add.empty(), "requests_are_taken_in");
    b.nw = a.nw; b.np = a.np; b.set = a.set; b.gen = a.gen; b.comp = a.comp; b.scratch = a.scratch; b.tc = a.tc;
    x = diff(b, a);
    ensure(x == "" && all_free(d), "nothing_else_changes", x);
    d.future_traj_ = std::future<ThreadSafeTrajectory>();
  }
}

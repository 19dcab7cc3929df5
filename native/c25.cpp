#define DCV_MAIN
#include "dyn.hpp"
#include <atomic>
#include <thread>
using namespace dcv;
using namespace dynamic_traj_generator;
static std::future<ThreadSafeTrajectory> finished(const std::shared_ptr<Trajectory>& t) {
  std::promise<ThreadSafeTrajectory> p;
  p.set_value(ThreadSafeTrajectory(std::shared_ptr<Trajectory>(t)));
  return p.get_future();
}
// two threads start together
template <class F, class G> static void both(F f, G g) {
  std::atomic<int> go{0};
  std::thread t([&] { ++go; while (go < 2) {} f(); });
  ++go;
  while (go < 2) {}
  g();
  t.join();
}
void dcv_once() {
  // two clients, one finished plan: one of them swaps it in
  Src s;
  DynamicTrajectory& d = rdyn(s, "o", 1, false);
  auto nw = std::make_shared<Trajectory>(*d.traj_.trajectory_ptr_);
  for (int i = 0; i < 4000; ++i) {
    d.from_scratch_ = true;
    d.time_constant_ = 0;
    d.future_traj_ = finished(nw);
    d.computing_new_trajectory_ = true;
    bool bad[2] = {false, false};
    auto look = [&](int k) { try { d.checkTrajectoryGenerated(); } catch (const std::future_error&) { bad[k] = true; } };
    both([&] { look(0); }, [&] { look(1); });
    ensure(!bad[0] && !bad[1], "two_clients_do_not_take_the_same_plan");
    ensure(!d.computing_new_trajectory_ && d.traj_.trajectory_ptr_ == nw && all_free(d), "the_finished_plan_is_swapped_in");
  }
  // a report made while another one is being read is not lost
  for (int i = 0; i < 4000; ++i) {
    d.trajectory_regenerated_ = false;
    std::atomic<bool> made{false};
    bool seen = false;
    both([&] { d.trajectory_regenerated_ = true; made = true; }, [&] { for (int k = 0; k < 200 && !seen; ++k) seen = d.getWasTrajectoryRegenerated(); });
    seen |= d.getWasTrajectoryRegenerated();
    ensure(seen, "a_report_is_not_lost");
  }
}
static double dist(DynamicTrajectory& d, const Trajectory& tr, double start, double t, const Eigen::Vector3d& p) { return (deformed(tr, d.dynamic_waypoints_, t + start, t, 0) - p).norm(); }
// the expected offset; unsure if samples tie
static double expected(DynamicTrajectory& d, const Trajectory& tr, const Eigen::Vector3d& p, bool& sure) {
  double start = d.new_parameters_.global_time_last_trajectory_generated, hi = 3 * d.time_constant_, step = 0.1f, best = 0;
  double m = dist(d, tr, start, 0, p), second = 1e300;
  for (double t = step; t < hi; t += step) {
    if (std::abs(hi - t) < 1e-6 || at_joint(tr, t)) sure = false;
    double x = dist(d, tr, start, t, p);
    if (x <= m) { second = m; m = x; best = t; } else second = std::min(second, x);
    if (t >= tr.getMaxTime() - 1e-6 && std::abs(t - tr.getMaxTime()) < 1e-6) sure = false;
  }
  if (second - m < 1e-6 * (1 + m) && second != m) sure = false;
  return best - (d.parameters_.last_global_time_evaluated - start) + step;
}
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 3, true);
  auto nw = rplan(s, "plan");
  d.from_scratch_ = s.flag("from_scratch");
  bool start0 = s.flag("just_started");
  if (start0) d.new_parameters_.global_time_last_trajectory_generated = d.parameters_.last_global_time_evaluated;
  // fit alone
  Eigen::Vector3d p = s.flag("on_plan") ? deformed(*nw, d.dynamic_waypoints_, d.new_parameters_.global_time_last_trajectory_generated + 0.3, 0.3, 0) : rvec(s, "p", 30);
  bool sure = true;
  double off = expected(d, *nw, p, sure);
  Snap b = snap(d);
  ThreadSafeTrajectory pl{std::shared_ptr<Trajectory>(nw)}, none;
  if (!s.flag("no_plan")) {
    d.timeFittingWithVehiclePosition(pl, p);
    if (sure) near(d.new_parameters_.t_offset, off, "closest_sample", 50, 1e-9);
    b.np.t_offset = d.new_parameters_.t_offset;
  } else d.timeFittingWithVehiclePosition(none, p);
  std::string x = diff(b, snap(d));
  ensure(x == "" && all_free(d), "only_the_offset_changes", x);
  // nothing to swap
  int kind = s.num("kind", 0, 4);
  std::promise<ThreadSafeTrajectory> later;
  d.future_traj_ = kind == 0 ? std::future<ThreadSafeTrajectory>() : kind == 1 ? later.get_future() : finished(nw);
  d.computing_new_trajectory_ = kind != 2;
  b = snap(d);
  if (kind < 3) {
    bool valid = d.future_traj_.valid();
    d.checkTrajectoryGenerated();
    x = diff(b, snap(d));
    ensure(x == "" && all_free(d) && d.future_traj_.valid() == valid, "without_a_finished_plan_nothing_is_swapped", x);
    return;
  }
  // a finished plan
  if (s.flag("first_plan")) { d.traj_.trajectory_ptr_ = nullptr; d.from_scratch_ = true; }
  b = snap(d);
  sure = true;
  Eigen::Vector3d ref = b.scratch ? b.veh : deformed(*b.traj, d.dynamic_waypoints_, b.p.last_global_time_evaluated + b.p.t_offset, b.p.last_local_time_evaluated + b.p.t_offset, 0);
  if (!b.scratch && at_joint(*b.traj, b.p.last_local_time_evaluated + b.p.t_offset)) sure = false;
  off = expected(d, *nw, ref, sure);
  d.checkTrajectoryGenerated();
  Snap a = snap(d);
  if (sure) near(a.p.t_offset, off, "fitted_to_the_vehicle_or_the_current_reference", 50, 1e-9);
  b.p = b.np;
  b.p.t_offset = b.np.t_offset = a.p.t_offset;
  b.traj = nw;
  b.dw = b.nw;
  b.regen = true;
  b.scratch = b.comp = false;
  a.np.t_offset = a.p.t_offset;
  x = diff(b, a);
  ensure(x == "" && all_free(d) && !d.future_traj_.valid(), "plan_waypoints_and_parameters_are_swapped_together", x);
  d.computing_new_trajectory_ = s.flag("next_plan");
  ensure(d.getWasTrajectoryRegenerated() && !d.getWasTrajectoryRegenerated(), "reported_once");
  // a speed set while a plan is being computed
  d.from_scratch_ = true;
  d.future_traj_ = finished(nw);
  d.computing_new_trajectory_ = true;
  double v = s.plain("speed", 0.1, 5);
  d.setSpeed(v);
  ensure(d.getSpeed() == v, "the_speed_is_set");
  d.checkTrajectoryGenerated();
  ensure(d.getSpeed() == v, "a_speed_set_while_a_plan_is_being_computed_stays_set");
}

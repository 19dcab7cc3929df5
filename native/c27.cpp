#define DCV_MAIN
#include "dyn.hpp"
#include <thread>
#include <set>
using namespace dcv;
static DynamicWaypoint wp(const std::string& n, double x) {
  DynamicWaypoint w;
  w.resetWaypoint(Eigen::Vector3d(x, 1, 2));
  w.setName(n);
  return w;
}
// clients append while the worker takes requests in: every appended waypoint is taken in or still pending, and then the flag says so
static void race(Src& s) {
  DynamicTrajectory& d = rdyn(s, "o", 0, true);
  d.waypoints_to_be_set_.clear(); d.waypoints_to_be_added_.clear(); d.waypoints_to_be_modified_.clear(); d.dynamic_waypoints_.clear();
  d.generate_new_traj_ = false;
  const int per = 120;
  std::atomic<int> left{3};
  std::vector<std::thread> ts;
  for (int c = 0; c < 2; ++c)
    ts.emplace_back([&d, &left, c] {
      for (int i = 0; i < per; ++i) { d.appendWaypoint(wp("c" + std::to_string(c) + "." + std::to_string(i), i)); if (i % 7 == 0) std::this_thread::yield(); }
      --left;
    });
  ts.emplace_back([&d, &left] {
    for (int i = 0; i < per; ++i) { d.modifyWaypoint("other", Eigen::Vector3d(i, 0, 0), false); if (i % 5 == 0) d.modifyWaypoints({{"other", Eigen::Vector3d(i, 1, 0)}}); }
    --left;
  });
  std::set<std::string> seen;
  auto take = [&] { for (auto& w : d.generateWaypointsForTheNextTrajectory()) seen.insert(w.getName()); };
  while (left > 0) {
    if (d.getGenerateNewTraj()) take();
    std::this_thread::yield();
  }
  for (auto& t : ts) t.join();
  if (d.getGenerateNewTraj()) take();
  ensure((int)seen.size() == 2 * per, "every_appended_waypoint_is_taken_in", std::to_string(seen.size()));
  ensure(d.waypoints_to_be_added_.empty() && d.waypoints_to_be_set_.empty(), "nothing_is_pending_without_the_flag");
}
void dcv_once() {}
void dcv_case(Src& s, long i) {
  if (i % 50 == 7) { race(s); return; }
  DynamicTrajectory& d = rdyn(s, "o", 3, true);
  d.traj_ = ThreadSafeTrajectory(rplan(s, "flown"));
  d.time_constant_ = s.plain("tc", 0, 0.5);
  bool asked = d.generate_new_traj_;
  int n = s.count("requests", 1, 8, 20, 150);
  for (int k = 0; k < n; ++k) {
    std::string q = "r" + std::to_string(k), w;
    int o = s.num(q, 0, 11);
    References refs;
    switch (o) {
      case 0: { DynamicWaypoint::Vector v; rwps(s, q + "w", &v, 3); d.setWaypoints(v); asked = true; w = "setWaypoints"; break; }
      case 1: d.appendWaypoint(rwp(s, q + "w")); asked = true; w = "appendWaypoint"; break;
      case 2: d.modifyWaypoint("a", rvec(s, q + "p", 9), true); asked = true; w = "modifyWaypoint"; break;
      case 3: d.modifyWaypoint("b", rvec(s, q + "p", 9), false); w = "modifyWaypoint_without_replanning"; break;
      case 4: if (s.flag(q + "one")) d.modifyWaypoints({{"a", rvec(s, q + "p", 9)}}); else d.modifyWaypoints({{"a", rvec(s, q + "p", 9)}, {"c", rvec(s, q + "r", 9)}}); asked = true; w = "modifyWaypoints"; break;
      case 5: d.generateWaypointsForTheNextTrajectory(); asked = false; w = "generateWaypoints"; break;
      case 6: d.evaluateTrajectory(s.real(q + "t", 0, 12), refs, false, s.flag(q + "plot")); w = "evaluateTrajectory"; break;
      case 7: {
        // a plan is finished: it is swapped in
        DynamicWaypoint::Deque dw; rwps(s, q + "n", &dw, 3);
        d.next_trajectory_waypoint_ = dw;
        d.from_scratch_ = s.flag(q + "scratch");
        std::promise<ThreadSafeTrajectory> p;
        p.set_value(ThreadSafeTrajectory(rplan(s, q + "plan")));
        d.future_traj_ = p.get_future();
        d.computing_new_trajectory_ = true;
        d.checkTrajectoryGenerated();
        d.computing_new_trajectory_ = false;
        w = "swap";
        break;
      }
      case 8: d.applyWaypointModification("a", rvec(s, q + "p", 9)); w = "applyWaypointModification"; break;
      case 9: d.getNextTrajectoryWaypoints(); d.getRemainingWaypoints(); d.getDynamicWaypoints(); d.getMaxTime(); d.getMinTime(); w = "queries"; break;
      case 10: d.setSpeed(s.plain(q + "v", 1, 3)); d.getSpeed(); d.getWasTrajectoryRegenerated(); d.getTimeCompensation(); d.updateVehiclePosition(rvec(s, q + "p", 3)); w = "parameters"; break;
      case 11: d.checkIfTrajectoryCanBeGenerated(); d.checkStitchTrajectory(); d.checkTrajectoryModifiers(); w = "checks"; break;
    }
    ensure(d.getGenerateNewTraj() == asked, ("a_plan_is_asked_for_after_" + w).c_str(), asked ? "forgotten" : "not asked");
  }
  d.waypoints_to_be_set_.clear(); d.waypoints_to_be_added_.clear(); d.waypoints_to_be_modified_.clear();
}

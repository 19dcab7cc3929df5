#define DCV_MAIN
#include "dyn.hpp"
using namespace dcv;
namespace dynamic_traj_generator { void resetWaypointThroughDeque(DynamicWaypoint::Deque&, const std::string&, const Eigen::Vector3d&); }
void dcv_once() {}
typedef std::pair<std::string, Eigen::Vector3d> Mod;
static void m_modify(std::vector<Mod>& v, const Mod& m) {
  for (auto& x : v) if (x.first == m.first) { x.second = m.second; return; }
  v.push_back(m);
}
static void m_reset(DynamicWaypoint::Deque& ws, const Mod& m) {
  if (m.first != "") for (auto& w : ws) if (w.name_ == m.first) w.resetWaypoint(m.second);
}
static DynamicWaypoint::Deque m_filter(const DynamicWaypoint::Deque& ws, double t) {
  DynamicWaypoint::Deque r;
  for (auto& w : ws) if (!(w.t_assigned_ < t)) r.push_back(w);
  return r;
}
static void check(const Snap& b, DynamicTrajectory& d, const char* w) {
  std::string x = diff(b, snap(d));
  ensure(x == "", w, x);
  ensure(all_free(d), "locks_released");
}
void dcv_case(Src& s, long i) {
  DynamicTrajectory& d = rdyn(s, "o", 4, true);
  static const char* names[] = {"", "a", "b", "c", "d"};
  // pending modifications have distinct names
  std::vector<Mod> ms;
  for (auto& m : d.waypoints_to_be_modified_) m_modify(ms, m);
  d.waypoints_to_be_modified_ = ms;
  int n = s.count("requests", 1, 7, 18, 150);
  for (int k = 0; k < n; ++k) {
    std::string q = "r" + std::to_string(k);
    Snap b = snap(d);
    int o = s.num(q, 0, 5);
    if (o == 0) {
      DynamicWaypoint::Vector v;
      rwps(s, q + "w", &v, 3);
      d.setWaypoints(v);
      b.set = v; b.add.clear(); b.mod.clear(); b.gen = true;
      check(b, d, "setWaypoints");
    } else if (o == 1) {
      DynamicWaypoint w = rwp(s, q + "w");
      d.appendWaypoint(w);
      b.add.push_back(w); b.gen = true;
      check(b, d, "appendWaypoint");
    } else if (o == 2 || o == 3) {
      Mod m(names[s.num(q + "name", 0, 4)], rvec(s, q + "pos", 15));
      bool g = s.flag(q + "gen");
      if (g && s.flag(q + "default")) d.modifyWaypoint(m.first, m.second, true); else d.modifyWaypoint(m.first, m.second, g);
      m_modify(b.mod, m);
      b.gen = b.gen || g;
      check(b, d, "modifyWaypoint");
    } else if (o == 4) {
      std::vector<Mod> v;
      int c = s.count(q + "mods", 0, 4, 9, 60);
      for (int x = 0; x < c; ++x) v.emplace_back(names[s.num(q + "n" + std::to_string(x), 0, 4)], rvec(s, q + "p" + std::to_string(x), 15));
      d.modifyWaypoints(v);
      for (auto& m : v) m_modify(b.mod, m);
      b.gen = true;
      check(b, d, "modifyWaypoints");
    } else {
      DynamicWaypoint::Deque ws;
      rwps(s, q + "w", &ws, 5);
      if (ws.size() && s.flag(q + "exact")) ws[0].t_assigned_ = d.parameters_.last_global_time_evaluated;
      DynamicWaypoint::Deque f = ws;
      d.filterPassedWaypoints(f);
      ensure(wps_equal(f, m_filter(ws, b.p.last_global_time_evaluated)), "filterPassedWaypoints");
      Mod m(names[s.num(q + "name", 0, 4)], rvec(s, q + "pos", 15));
      DynamicWaypoint::Deque g = ws;
      m_reset(g, m);
      dynamic_traj_generator::resetWaypointThroughDeque(ws, m.first, m.second);
      ensure(wps_equal(ws, g), "resetWaypointThroughDeque");
      check(b, d, "nothing_else_changes");
    }
  }
  if (d.dynamic_waypoints_.size() && s.flag("exact")) d.dynamic_waypoints_[0].t_assigned_ = d.parameters_.last_global_time_evaluated;
  Snap b = snap(d);
  DynamicWaypoint::Deque want;
  if (b.set.empty()) {
    want = m_filter(b.dw, b.p.last_global_time_evaluated);
    for (auto& w : want) w.resetWaypointWithCurrentPosition();
  } else for (auto& w : b.set) want.push_back(w);
  for (auto& w : b.add) want.push_back(w);
  for (auto& m : b.mod) m_reset(want, m);
  DynamicWaypoint::Deque got = d.generateWaypointsForTheNextTrajectory();
  ensure(wps_equal(got, want), "next_waypoints", std::to_string(got.size()) + " " + std::to_string(want.size()));
  b.set.clear(); b.add.clear(); b.mod.clear(); b.gen = false;
  check(b, d, "nothing_pending_afterwards");
}

// a DynamicTrajectory whose worker thread has been stopped, with random contents
#pragma once
#include "traj.hpp"
#define private public
#include "dynamic_trajectory.hpp"
#undef private
namespace dcv {
using dynamic_traj_generator::DynamicTrajectory;
using dynamic_traj_generator::DynamicWaypoint;
using dynamic_traj_generator::References;

inline DynamicTrajectory& dyn_object() {
  static DynamicTrajectory* d = nullptr;
  if (!d) {
    std::cout.rdbuf(nullptr);
    d = new DynamicTrajectory();  // never destroyed
    d->stop_process_ = true;
    d->waitForGeneratingNewTraj_thread_.join();
  }
  return *d;
}
inline Eigen::Vector3d rvec(Src& s, const std::string& n, double r) { return Eigen::Vector3d(s.real(n + "0", -r, r), s.real(n + "1", -r, r), s.real(n + "2", -r, r)); }
inline DynamicWaypoint rwp(Src& s, const std::string& n, int deforms = 2, double tmax = 12) {
  Vertex v(3);
  v.addConstraint(0, rvec(s, n + ".p", 15));
  if (s.flag(n + ".vel")) v.addConstraint(1, rvec(s, n + ".v", 3));
  static const char* names[] = {"", "a", "b", "c", "stitching_point"};
  DynamicWaypoint w(v, names[s.num(n + ".name", 0, 4)]);
  w.setTime(s.flag(n + ".untimed") ? 0 : s.real(n + ".time", 0, tmax));
  w.setIndex(s.num(n + ".index", -1, 6));
  int k = s.num(n + ".deformations", 0, deforms);
  for (int i = 0; i < k; ++i) w.setCurrentPosition(w.getCurrentPosition() + rvec(s, n + ".d" + std::to_string(i), 6));
  return w;
}
template <class L> void rwps(Src& s, const std::string& n, L* out, int hi, int deforms = 2) {
  out->clear();
  int k = s.count(n + ".count", 0, hi, hi, 60);
  for (int i = 0; i < k; ++i) out->push_back(rwp(s, n + std::to_string(i), deforms));
}
inline void rparams(Src& s, const std::string& n, DynamicTrajectory::NumericParameters& p) {
  p.algorithm_time_constant = s.plain(n + ".tc", 0, 2);
  p.last_local_time_evaluated = s.real(n + ".ll", -2, 10);
  p.t_offset = s.real(n + ".off", -3, 3);
  p.last_global_time_evaluated = s.real(n + ".lg", 0, 12);
  p.speed = s.plain(n + ".speed", 0.1, 5);
  p.global_time_last_trajectory_generated = s.real(n + ".start", 0, 6);
}
inline std::shared_ptr<Trajectory> rplan(Src& s, const std::string& n) { return std::make_shared<Trajectory>(rtraj(s, n, s.count(n + ".K", 1, 3, 8, 60), 10, 3)); }
inline bool wp_equal(const DynamicWaypoint& a, const DynamicWaypoint& b) {
  if (a.name_ != b.name_ || a.index_ != b.index_ || a.t_assigned_ != b.t_assigned_ || a.current_position_ != b.current_position_ || a.original_position_ != b.original_position_) return false;
  if (a.last_sigma_ != b.last_sigma_ || a.modifiers_.size() != b.modifiers_.size() || !a.vertex_.isEqualTol(b.vertex_, 0)) return false;
  for (size_t i = 0; i < a.modifiers_.size(); ++i)
    for (int d = 0; d < 3; ++d) {
      const GaussianModifier &x = a.modifiers_[i][d], &y = b.modifiers_[i][d];
      if (x.sigma_ != y.sigma_ || x.mu_ != y.mu_ || x.increment_ != y.increment_) return false;
    }
  return true;
}
template <class L, class M> bool wps_equal(const L& a, const M& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!wp_equal(a[i], b[i])) return false;
  return true;
}
inline bool par_equal(const DynamicTrajectory::NumericParameters& a, const DynamicTrajectory::NumericParameters& b) {
  return a.algorithm_time_constant == b.algorithm_time_constant && a.last_local_time_evaluated == b.last_local_time_evaluated && a.t_offset == b.t_offset &&
         a.last_global_time_evaluated == b.last_global_time_evaluated && a.speed == b.speed && a.global_time_last_trajectory_generated == b.global_time_last_trajectory_generated;
}
inline bool mods_equal(const std::vector<std::pair<std::string, Eigen::Vector3d>>& a, const std::vector<std::pair<std::string, Eigen::Vector3d>>& b) { return a == b; }
// everything but the locks, the future and the thread
struct Snap {
  DynamicTrajectory::NumericParameters p, np;
  std::shared_ptr<Trajectory> traj;
  Eigen::Vector3d veh;
  DynamicWaypoint::Deque dw, nw;
  DynamicWaypoint::Vector add, set;
  std::vector<std::pair<std::string, Eigen::Vector3d>> mod;
  bool scratch, gen, comp, regen;
  double tc;
};
inline Snap snap(DynamicTrajectory& d) {
  return Snap{d.parameters_, d.new_parameters_, d.traj_.trajectory_ptr_, d.vehicle_position_, d.dynamic_waypoints_, d.next_trajectory_waypoint_, d.waypoints_to_be_added_, d.waypoints_to_be_set_, d.waypoints_to_be_modified_,
              d.from_scratch_, d.generate_new_traj_, d.computing_new_trajectory_, d.trajectory_regenerated_, d.time_constant_};
}
// names of the parts that differ
inline std::string diff(const Snap& a, const Snap& b) {
  std::string r;
  if (!par_equal(a.p, b.p)) r += "parameters ";
  if (!par_equal(a.np, b.np)) r += "new_parameters ";
  if (a.traj != b.traj) r += "traj ";
  if (a.veh != b.veh) r += "vehicle ";
  if (!wps_equal(a.dw, b.dw)) r += "waypoints ";
  if (!wps_equal(a.nw, b.nw)) r += "next ";
  if (!wps_equal(a.add, b.add)) r += "add ";
  if (!wps_equal(a.set, b.set)) r += "set ";
  if (!mods_equal(a.mod, b.mod)) r += "mod ";
  if (a.scratch != b.scratch) r += "scratch ";
  if (a.gen != b.gen) r += "generate ";
  if (a.comp != b.comp) r += "computing ";
  if (a.regen != b.regen) r += "regenerated ";
  if (a.tc != b.tc) r += "time_constant ";
  return r;
}
inline DynamicTrajectory& rdyn(Src& s, const std::string& n = "o", int hi = 3, bool lists = true) {
  DynamicTrajectory& d = dyn_object();
  rparams(s, n + ".p", d.parameters_);
  rparams(s, n + ".np", d.new_parameters_);
  d.traj_.trajectory_ptr_ = rplan(s, n + ".traj");
  d.future_traj_ = std::future<ThreadSafeTrajectory>();
  d.vehicle_position_ = rvec(s, n + ".veh", 15);
  rwps(s, n + ".wp", &d.dynamic_waypoints_, hi);
  rwps(s, n + ".nwp", &d.next_trajectory_waypoint_, hi);
  d.waypoints_to_be_added_.clear();
  d.waypoints_to_be_set_.clear();
  d.waypoints_to_be_modified_.clear();
  if (lists) {
    rwps(s, n + ".add", &d.waypoints_to_be_added_, 2);
    rwps(s, n + ".set", &d.waypoints_to_be_set_, 2);
    int k = s.num(n + ".mods", 0, 2);
    static const char* names[] = {"", "a", "b", "c"};
    for (int i = 0; i < k; ++i) d.waypoints_to_be_modified_.emplace_back(names[s.num(n + ".modname" + std::to_string(i), 0, 3)], rvec(s, n + ".modpos" + std::to_string(i), 15));
  }
  d.from_scratch_ = s.flag(n + ".scratch");
  d.generate_new_traj_ = s.flag(n + ".gen");
  d.computing_new_trajectory_ = false;
  d.trajectory_regenerated_ = s.flag(n + ".regen");
  d.time_constant_ = s.flag(n + ".tc0") ? 0 : s.plain(n + ".timec", 0, 1.5);
  return d;
}
inline bool at_joint(const Trajectory& tr, double t) {
  double acc = 0;
  for (size_t i = 0; i + 1 < tr.segments_.size(); ++i) { acc += tr.segments_[i].getTime(); if (std::abs(acc - t) < 1e-6) return true; }
  return false;
}
inline ld trajval(const Trajectory& tr, int d, int k, double t) {
  double acc = 0;
  const Segment::Vector& g = tr.segments_;
  for (size_t i = 0; i < g.size(); ++i) {
    if (t < acc + g[i].getTime() || i + 1 == g.size()) return segval(g[i], d, k, t - acc);
    acc += g[i].getTime();
  }
  return 0;
}
// reference value of the deformed trajectory
inline Eigen::Vector3d deformed(const Trajectory& tr, DynamicWaypoint::Deque& ws, double gt, double lt, int k) {
  double c = std::min(std::max(lt, 0.0), tr.getMaxTime());
  Eigen::Vector3d r;
  for (int d = 0; d < 3; ++d) r[d] = (double)trajval(tr, d, k, c);
  if (gt > 0)
    for (auto& w : ws)
      if (w.getName() != "") r += w.trajectoryCompensation(gt, k);
  return r;
}
inline bool all_free(DynamicTrajectory& d) {
  std::mutex* ms[] = {&d.traj_mutex_, &d.future_mutex_, &d.dynamic_waypoints_mutex_, &d.parameters_mutex_, &d.todo_mutex, &d.vehicle_position_mutex_, &d.time_measure_mutex_, &d.traj_.evaluate_mutex_, &d.traj_.time_mutex_};
  bool ok = true;
  for (auto* m : ms) { if (m->try_lock()) m->unlock(); else ok = false; }
  return ok;
}
}  // namespace dcv

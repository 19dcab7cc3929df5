#define DCV_MAIN
#include "traj.hpp"
#define private public
#include "dynamic_waypoint.hpp"
#undef private
using namespace dcv;
using namespace dynamic_traj_generator;
typedef mav_trajectory_generation::Vertex Vtx;
void dcv_once() {}
static Eigen::Vector3d rv3(Src& s, const std::string& n, double r) { return Eigen::Vector3d(s.real(n + "0", -r, r), s.real(n + "1", -r, r), s.real(n + "2", -r, r)); }
static Eigen::Vector3d sum(DynamicWaypoint& w, double t, int k) {
  Eigen::Vector3d r = Eigen::Vector3d::Zero();
  for (auto& m : w.modifiers_) for (int i = 0; i < 3; ++i) r[i] += m[i](t, k);
  return r;
}
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same(DynamicWaypoint& a, DynamicWaypoint& b) {
  if (a.getName() != b.getName() || a.getIndex() != b.getIndex() || a.getTime() != b.getTime() || a.hasModifiers() != b.hasModifiers() || a.last_sigma_ != b.last_sigma_) return false;
  if (a.getCurrentPosition() != b.getCurrentPosition() || a.getOriginalPosition() != b.getOriginalPosition() || !a.getVertex().isEqualTol(b.getVertex(), 0)) return false;
  for (int k = 0; k < 3; ++k)
    for (double x : {-1.7, -0.3, 0.0, 0.4, 2.2})
      for (int i = 0; i < 3; ++i)
        if (!eq(a.trajectoryCompensation(a.getTime() + x, k)[i], b.trajectoryCompensation(b.getTime() + x, k)[i])) return false;
  return true;
}
static void op(Src& s, int o, DynamicWaypoint& w, const Eigen::Vector3d& p, double x, int ord) {
  if (o == 0) w.setCurrentPosition(p, x);
  else if (o == 1) w.setTime(std::abs(x) * 3);
  else if (o == 2) w.resetWaypoint(p);
  else if (o == 3) w.resetWaypointWithCurrentPosition();
  else if (o == 4) w.setConstraint(ord, p);
  else if (o == 5) w.setName(ord ? "b" : "");
  else if (o == 6) w.setIndex(ord);
  else w.setCurrentPosition(p);
}
void dcv_case(Src& s, long i) {
  Vtx v(3);
  Eigen::Vector3d p0 = rv3(s, "p0", 20);
  v.addConstraint(0, p0);
  bool vel = s.flag("vel");
  if (vel) v.addConstraint(1, rv3(s, "v0", 3));
  DynamicWaypoint w = s.flag("idx") ? DynamicWaypoint(v, s.num("index", -1, 9), "a") : DynamicWaypoint(v, "a");
  ensure(w.getCurrentPosition() == p0 && w.getOriginalPosition() == p0 && !w.hasModifiers() && w.getName() == "a" && w.getVertex().isEqualTol(v, 0), "construction");
  bool many = s.num("many moves", 0, 499) == 0;
  int n = many ? s.num("ops", 60, 150) : s.count("ops", 1, 7, 20, 150);
  for (int k = 0; k < n; ++k) {
    std::string q = "k" + std::to_string(k);
    int o = many ? 0 : s.num("op" + q, 0, 10);
    Eigen::Vector3d p = rv3(s, "p" + q, 20);
    if (s.flag("near" + q)) p = w.getCurrentPosition() + rv3(s, "d" + q, 0.03);
    double x = s.real("x" + q, -2, 12);
    int ord = s.num("ord" + q, 0, 3);
    if (o > 7) o = o == 8 ? 0 : 7;
    if (o == 1 && s.flag("zero" + q)) x = 0;
    DynamicWaypoint before(w), twin(w);
    ensure(same(before, w), "copy_is_equal");
    double T = w.getTime();
    auto mods = w.modifiers_;
    Eigen::Vector3d cur = w.getCurrentPosition(), old = w.trajectoryCompensation(T, 0);
    op(s, o, w, p, x, ord);
    op(s, o, twin, p, x, ord);
    ensure(same(w, twin), "copy_behaves_identically");
    if (k + 1 < n) { DynamicWaypoint c(w); DynamicWaypoint a; a = w; ensure(same(a, w) && same(c, w), "copy_is_equal"); c.setCurrentPosition(p + Eigen::Vector3d(1, 2, 3)); c.setTime(T + 1); ensure(same(w, twin), "copy_shares_no_state"); }
    bool move = o == 0 || o == 7;
    double now = o == 0 ? x : 0;
    if (move) {
      Eigen::VectorXd c0;
      Vtx wv = w.getVertex();
      ensure(w.getCurrentPosition() == p && wv.getConstraint(0, &c0) && c0 == Eigen::VectorXd(p), "moved_position");
      ensure(w.getOriginalPosition() == before.getOriginalPosition() && w.getTime() == T && w.getIndex() == before.getIndex(), "move_keeps_rest");
      ensure(wv.hasConstraint(1) == before.getVertex().hasConstraint(1), "move_keeps_rest");
      if (now <= 0 || now < T) {
        Eigen::Vector3d nw = w.trajectoryCompensation(T, 0);
        for (int d = 0; d < 3; ++d)
          if (std::abs(p[d] - cur[d]) >= 0.0201) near(nw[d] - old[d], p[d] - cur[d], "growth_at_own_time", 100);
      }
      ensure(w.modifiers_.size() == mods.size() + 1, "one_deformation_added");
    } else if (o == 1) {
      double t = std::abs(x) * 3;
      ensure(w.getTime() == t, "retimed");
      Eigen::Vector3d want = Eigen::Vector3d::Zero(), tot = w.trajectoryCompensation(t, 0);
      for (int q2 = 0; q2 < 3; ++q2) {
        double sx = s.plain("sx" + q, -3, 3);
        Eigen::Vector3d a = w.trajectoryCompensation(t + sx, q2), b = before.trajectoryCompensation(T + sx, q2);
        for (int d = 0; d < 3; ++d) near(a[d], b[d], "recentred", 1e3, 1e-6);
      }
    } else if (o == 2 || o == 3 || (o == 4 && ord == 0)) {
      Eigen::Vector3d e = o == 3 ? cur : p;
      Eigen::VectorXd c0;
      Vtx wv = w.getVertex();
      ensure(w.getCurrentPosition() == e && w.getOriginalPosition() == e && !w.hasModifiers() && wv.getConstraint(0, &c0) && c0 == Eigen::VectorXd(e), "reset");
      ensure(w.trajectoryCompensation(T, s.num("rk" + q, 0, 2)).norm() == 0, "reset_no_deformation");
      ensure(wv.hasConstraint(1) == before.getVertex().hasConstraint(1), "reset_keeps_rest");
    } else if (o == 4) {
      Eigen::VectorXd c0;
      Vtx wv = w.getVertex();
      ensure(wv.getConstraint(ord, &c0) && c0 == Eigen::VectorXd(p) && w.getCurrentPosition() == cur && w.modifiers_.size() == mods.size(), "constraint");
    }
    double tt = w.getTime() + s.plain("tt" + q, -3, 3);
    for (int q2 = 0; q2 < 3; ++q2) {
      Eigen::Vector3d a = w.trajectoryCompensation(tt, q2), b = sum(w, tt, q2);
      for (int d = 0; d < 3; ++d) ensure(eq(a[d], b[d]) || std::abs(a[d] - b[d]) <= 1e-9 * (1 + std::abs(b[d])), "sum");
    }
  }
}

#define DCV_MAIN
#include "dcv.hpp"
#define private public
#define protected public
#include <mav_trajectory_generation/vertex.h>
#undef private
#undef protected
using namespace dcv;
using namespace mav_trajectory_generation;
typedef std::map<int, std::vector<double>> Model;
static Model of(const Vertex& v) {
  Model m;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it) m[it->first] = std::vector<double>(it->second.data(), it->second.data() + it->second.size());
  return m;
}
static void same(const Vertex& v, const Model& m, int D, const char* w) {
  ensure(of(v) == m && v.D() == D && v.getNumberOfConstraints() == m.size(), w);
}
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int D = s.wide("v.D", 0, 4, 9), ops = s.wide("ops", 1, 8, 20);
  Vertex v(D);
  Model m;
  same(v, m, D, "empty_vertex");
  for (int o = 0; o < ops; ++o) {
    std::string n = std::to_string(o);
    int what = s.num("op" + n, 0, 5), k = s.num(o == 0 ? "order" : "order" + n, -1, 8);
    std::vector<double> x(D);
    for (auto& e : x) e = s.real("x" + n, -3, 3);
    Eigen::VectorXd xv = Eigen::Map<Eigen::VectorXd>(x.data(), D);
    if (what == 0) { v.addConstraint(k, xv); m[k] = x; same(v, m, D, "add"); }
    if (what == 1) { double c = s.real("c" + n, -3, 3); v.addConstraint(k, c); m[k] = std::vector<double>(D, c); same(v, m, D, "add_value"); }
    if (what == 2) { bool had = m.erase(k) > 0; ensure(v.removeConstraint(k) == had, "remove_tells"); same(v, m, D, "remove"); }
    if (what == 3 || what == 4) {
      int up = s.count("up" + n, -1, 7, 12, 60);
      if (what == 3) { v.makeStartOrEnd(xv, up); m[0] = x; }
      else { double c = s.real("c" + n, -3, 3); v.makeStartOrEnd(c, up); m[0] = std::vector<double>(D, c); }
      for (int q = 1; q <= up; ++q) m[q] = std::vector<double>(D, 0.0);
      same(v, m, D, "start_or_end");
    }
    for (int q = -1; q <= 14; ++q) {
      ensure(v.hasConstraint(q) == (m.count(q) > 0), "has");
      Eigen::VectorXd g = Eigen::VectorXd::Constant(2, 77.0);
      bool r = v.getConstraint(q, &g);
      ensure(r == (m.count(q) > 0), "get_tells");
      if (r) ensure(std::vector<double>(g.data(), g.data() + g.size()) == m[q], "get_value");
      else ensure(g.size() == 2 && g[0] == 77.0, "get_absent_writes_nothing");
    }
    same(v, m, D, "queries_change_nothing");
  }
  // comparison
  double tol = std::pow(10.0, -s.num("tole", 0, 8));
  Vertex w = v;
  ensure(v.isEqualTol(v, 0.0) && v.isEqualTol(w, tol) && w.isEqualTol(v, tol), "equal_copy");
  if (D > 0 && !m.empty()) {
    auto e = m.begin();
    std::advance(e, s.num("pick", 0, (int)m.size() - 1));
    Eigen::VectorXd g = Eigen::Map<const Eigen::VectorXd>(e->second.data(), D);
    int d = s.num("pickd", 0, D - 1);
    double sg = s.flag("neg") ? -1 : 1;
    Eigen::VectorXd a = g, b = g;
    a[d] += sg * 0.5 * tol; b[d] += sg * 2 * tol;
    w.addConstraint(e->first, a);
    ensure(v.isEqualTol(w, tol) && w.isEqualTol(v, tol), "equal_within_tolerance");
    w.addConstraint(e->first, b);
    ensure(!v.isEqualTol(w, tol) && !w.isEqualTol(v, tol), "unequal_beyond_tolerance");
    w.removeConstraint(e->first);
    ensure(!v.isEqualTol(w, tol) && !w.isEqualTol(v, tol), "unequal_missing_order");
    w.addConstraint(e->first + 20, g);
    ensure(!v.isEqualTol(w, tol) && !w.isEqualTol(v, tol), "unequal_other_order");
  }
  same(v, m, D, "comparison_changes_nothing");
  // subset
  int n = s.wide("n", 0, 4, 9), mx = s.wide("max", -1, 7, 12);
  std::vector<size_t> dims;
  bool ok = true;
  for (int k = 0; k < n; ++k) {
    dims.push_back(s.num("dim" + std::to_string(k), 0, std::max(0, s.num("over", 0, 9) == 0 ? D : D - 1)));
    ok = ok && (int)dims.back() < D;
  }
  Vertex sub(3);
  sub.addConstraint(9, 1.0);
  bool r = v.getSubdimension(dims, mx, &sub);
  ensure(r == ok, "subset_refused");
  if (ok && r) {
    Model want;
    for (auto& e : m) if (e.first <= mx) {
      std::vector<double> x;
      for (size_t d : dims) x.push_back(e.second[d]);
      want[e.first] = x;
    }
    same(sub, want, n, "subset");
  }
  same(v, m, D, "subset_changes_nothing");
}

// generated vertices of random boxes, seeds and squares
#define DCV_MAIN
#include "dcv.hpp"
#define private public
#define protected public
#include <mav_trajectory_generation/vertex.h>
#undef private
#undef protected
using namespace dcv;
using namespace mav_trajectory_generation;
typedef std::map<int, std::vector<double>> Model;
static Model of(const Vertex& v) {
  Model m;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it) m[it->first] = std::vector<double>(it->second.data(), it->second.data() + it->second.size());
  return m;
}
static void shape(const Vertex::Vector& vs, int D, int K, const std::vector<std::vector<double>>* want) {
  for (size_t j = 0; j < vs.size(); ++j) {
    Model m = of(vs[j]);
    ensure(vs[j].D() == D, "vertex_dimension");
    ensure(m.count(0) && (int)m[0].size() == D, "position_held");
    if (!m.count(0) || (int)m[0].size() != D) continue;
    if (want) for (int d = 0; d < D; ++d) near(m[0][d], (*want)[j][d], "corner", std::fabs((*want)[j][d]));
    Model w;
    w[0] = m[0];
    if (j == 0 || j + 1 == vs.size()) for (int q = 1; q <= K; ++q) w[q] = std::vector<double>(D, 0.0);
    ensure(m == w, j == 0 || j + 1 == vs.size() ? "at_rest_at_the_ends" : "position_only_inside", "vertex " + std::to_string(j));
  }
}
static bool same(const Vertex::Vector& a, const Vertex::Vector& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].D() != b[i].D() || of(a[i]) != of(b[i])) return false;
  return true;
}
static void random_checks(const Vertex::Vector& vs, int D, int n, int K, const Eigen::VectorXd& lo, const Eigen::VectorXd& hi) {
  ensure((int)vs.size() == n + 1, "one_more_than_segments");
  shape(vs, D, K, nullptr);
  Eigen::VectorXd last;
  for (size_t j = 0; j < vs.size(); ++j) {
    Eigen::VectorXd p;
    if (!vs[j].getConstraint(0, &p) || p.size() != D) continue;
    for (int d = 0; d < D; ++d) ensure(p[d] >= lo[d] && p[d] <= hi[d], "inside_the_box");
    if (j) ensure((p - last).norm() > 0.2, "far_apart", str((p - last).norm()));
    last = p;
  }
}
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int D = s.wide("D", 1, 5, 9), n = s.count("n_segments", 1, 8, 20, 150), K = s.wide("maximum_derivative", 1, 6, 9);
  size_t seed = s.num("seed", 0, 100000);
  Eigen::VectorXd lo(D), hi(D);
  for (int d = 0; d < D; ++d) {
    lo[d] = s.real("lo" + std::to_string(d), -3, 3);
    hi[d] = lo[d] + s.num("flat" + std::to_string(d), 0, 4) * 0.3;
  }
  int w = s.num("wide", 0, D - 1);
  hi[w] = lo[w] + s.plain("width", 0.45, 3);
  Vertex::Vector a = createRandomVertices(K, n, lo, hi, seed);
  random_checks(a, D, n, K, lo, hi);
  Vertex::Vector o = createRandomVertices(K, n, lo, hi, seed + 1 + s.num("other", 0, 50));
  (void)o;
  ensure(same(a, createRandomVertices(K, n, lo, hi, seed)), "function_of_the_seed");
  ensure(same(createRandomVertices1D(K, n, lo[w], hi[w], seed), createRandomVertices(K, n, lo.segment(w, 1), hi.segment(w, 1), seed)), "one_dimension");
  random_checks(createRandomVertices1D(K, n, lo[w], hi[w], seed), 1, n, K, lo.segment(w, 1), hi.segment(w, 1));
  // square
  Eigen::Vector3d c(s.real("centre0", -3, 3), s.real("centre1", -3, 3), s.real("centre2", -3, 3));
  double side = s.real("side", -5, 5);
  int R = s.count("rounds", 0, 4, 12, 200), Q = s.wide("order", 0, 5, 12);
  Vertex::Vector q = createSquareVertices(Q, c, side, R);
  ensure((int)q.size() == 4 * R + 1, "four_a_round_and_one");
  std::vector<std::vector<double>> want;
  static const int sx[] = {-1, -1, 1, 1}, sy[] = {-1, 1, 1, -1};
  for (size_t j = 0; j < q.size(); ++j) want.push_back({c[0] + sx[j % 4] * side / 2, c[1] + sy[j % 4] * side / 2, c[2]});
  shape(q, 3, Q, &want);
}

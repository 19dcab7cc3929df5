#define DCV_MAIN
#include "dcv.hpp"
#include <mav_trajectory_generation/vertex.h>
using namespace dcv;
using namespace mav_trajectory_generation;
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int n = s.count("n", 2, 6, 20, 300), D = s.wide("D", 1, 3, 7);
  double v = s.plain("v_max", 0.1, 8), a = s.plain("a_max", 0.1, 8), f = s.plain("time_factor", 1, 3);
  double range = std::pow(10.0, s.num("range", -2, 2));
  Vertex::Vector V;
  std::vector<Eigen::VectorXd> p;
  std::vector<bool> rest;
  for (int k = 0; k < n; ++k) {
    std::string nm = std::to_string(k);
    Eigen::VectorXd x(D), w(D);
    for (int d = 0; d < D; ++d) x[d] = s.real("p" + nm + "_" + std::to_string(d), -range, range);
    if (k > 0 && s.num("same" + nm, 0, 7) == 0) x = p.back();
    Vertex q(D);
    q.addConstraint(derivative_order::POSITION, x);
    int kind = s.num("kind" + nm, 0, 3);
    for (int d = 0; d < D; ++d) w[d] = kind == 1 ? 0 : kind == 2 ? s.plain("v" + nm + "_" + std::to_string(d), 0.1, 1) : (d == 0 ? s.plain("tiny", 1e-9, 9e-7) : 0);
    if (kind > 0) q.addConstraint(derivative_order::VELOCITY, w);
    if (s.flag("acc" + nm)) q.addConstraint(derivative_order::ACCELERATION, 0.0);
    V.push_back(q); p.push_back(x); rest.push_back(kind == 1 || kind == 3);
  }
  std::vector<double> e = estimateSegmentTimes(V, v, a), nf = estimateSegmentTimesNfabian(V, v, a), rp = estimateSegmentTimesVelocityRamp(V, v, a, f);
  ensure((int)e.size() == n - 1 && (int)nf.size() == n - 1 && (int)rp.size() == n - 1, "one_time_per_pair");
  for (int k = 0; k + 1 < n; ++k) {
    ld d = 0;
    for (int j = 0; j < D; ++j) d += ((ld)p[k + 1][j] - p[k][j]) * ((ld)p[k + 1][j] - p[k][j]);
    d = sqrtl(d);
    ld want = std::max((ld)0.1, d / v + ((rest[k] || rest[k + 1]) ? (ld)v / a : 0));
    near(e[k], want, "default_estimate", want);
    near(nf[k], want, "distance_and_ramp_estimate", want);
    ld acc = (ld)v / a, ad = v * acc, t = d < ad ? 2 * sqrtl(d / a) : 2 * acc + (d - ad) / v;
    near(rp[k], std::max((ld)0.1, f * t), "trapezoidal_estimate", t);
    near(computeTimeVelocityRamp(p[k], p[k + 1], v, a), t, "ramp_time", t);
    for (double x : {e[k], nf[k], rp[k]}) {
      ensure(x > 0 && std::isfinite(x), "positive");
      ensure(x * v >= (double)d * (1 - 1e-9), "time_for_the_distance");
    }
    // only from that pair
    Vertex::Vector two = {V[k], V[k + 1]};
    ensure(estimateSegmentTimes(two, v, a)[0] == e[k] && estimateSegmentTimesVelocityRamp(two, v, a, f)[0] == rp[k], "only_from_the_pair");
  }
}

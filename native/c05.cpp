#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
void dcv_case(Src& s, long i) {
  int K = s.count("K", 1, 4, 12, 150), N = s.wide("N", 1, 8, 13), D = s.wide("D", 1, 3, 7), k = s.wide("k", 0, 3, 7);
  Segment::Vector g;
  static const double nice[] = {1, 0.5, 2, 0.25, 3, 1.5, 0.75};
  bool dy = s.num("dyadic", 0, 2) > 0;  // exact arithmetic: every instant is representable
  for (int j = 0; j < K; ++j) g.push_back(rseg(s, "seg" + std::to_string(j), N, D, dy ? nice[s.num("T" + std::to_string(j), 0, 6)] : s.plain("t" + std::to_string(j), 0.1, 3)));
  Trajectory tr;
  tr.setSegments(g);
  std::vector<double> b(1, 0.0);
  for (auto& x : g) b.push_back(b.back() + x.getTime());
  double dur = b.back(), dt, t0, t1;
  if (dy) {
    static const double dts[] = {0.125, 0.25, 0.5, 1, 0.375, 2, 5};
    dt = dts[s.num("dt", 0, 6)];
    t0 = s.num("t0", 0, (int)(dur * 8)) / 8.0;
    t1 = s.num("t1", (int)(t0 * 8), (int)(dur * 8)) / 8.0;
  } else {
    bool fine = s.num("fine", 0, 15) == 0;
    dt = fine ? s.plain("dt", 0.0005, 0.03) : s.plain("dt", 0.03, 1.2);
    t0 = s.num("t0z", 0, 2) ? s.plain("t0", 0, 1) * dur : 0;
    t1 = t0 + s.plain("t1", 0, 1) * (fine ? std::min(dur - t0, 50 * dt) : dur - t0);
    int many = s.count("samples", 0, 0, 0, 6000);
    if (many > 0 && t1 > t0 + 1e-3) dt = (t1 - t0) / (many + 0.5);
  }
  std::vector<Eigen::VectorXd> r(2, Eigen::VectorXd::Constant(D, 77.0)), r2 = r;
  std::vector<double> m(3, -5.0);
  tr.evaluateRange(t0, t1, dt, k, &r, &m);
  tr.evaluateRange(t0, t1, dt, k, &r2, nullptr);
  ensure(r.size() == m.size(), "one_time_per_sample");
  ensure(r2.size() == r.size(), "samples_without_times");
  size_t want = 0;
  for (ld x = t0; x < (ld)t1 - (dy ? 0 : 1e-9L); x = (ld)t0 + (ld)(++want) * dt) {}
  if (dy) ensure(r.size() == want, "number_of_samples", str(r.size()) + " want " + str(want));
  else ensure(r.size() >= want && r.size() <= want + 1, "number_of_samples", str(r.size()) + " want " + str(want));
  for (size_t j = 0; j < std::min(r.size(), m.size()); ++j) {
    ld x = (ld)t0 + (ld)j * dt;
    near(m[j], x, "time_of_sample", dur, 1e-12L);
    ensure(r[j].size() == D, "sample_dimension");
    if (r[j].size() != D) continue;
    if (r2.size() == r.size()) ensure(r2[j] == r[j], "samples_without_times");
    bool ok = false;
    for (int q = 0; q < K && !ok; ++q) {
      if (x < b[q] - 1e-9 || x > b[q + 1] + 1e-9) continue;
      bool all = true;
      for (int d = 0; d < D; ++d)
        all = all && close(r[j][d], segval(g[q], d, k, x - b[q]), segscale(g[q], d, k, g[q].getTime()) + segscale(g[q], d, k + 1, g[q].getTime()), 1e-7L);
      ok = all;
    }
    ensure(ok, "value_of_sample");
  }
  std::vector<Eigen::VectorXd> q(1, Eigen::VectorXd::Zero(D));
  std::vector<double> qm(1, 1.0);
  double past = dur + s.plain("past", 1e-3, 2);
  tr.evaluateRange(past, past + 1, dt, k, &q, &qm);
  ensure(q.empty() && qm.empty(), "no_samples_beyond_end");
}

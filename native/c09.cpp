#define DCV_MAIN
#include "traj.hpp"
using namespace dcv;
void dcv_once() {}
static ld norm(const Segment& g, const std::vector<int>& dims, int k, ld t) {
  ld r = 0;
  for (int d : dims) { ld v = segval(g, d, k, t); r += v * v; }
  return std::sqrt(r);
}
static ld nscale(const Segment& g, const std::vector<int>& dims, int k, ld t) {
  ld r = 1e-3L;
  for (int d : dims) r += segscale(g, d, k, t);
  return r;
}
void dcv_case(Src& s, long i) {
  int N = s.wide("N", 1, 8, 12), D = s.wide("D", 1, 4, 8), K = s.count("K", 1, 4, 10, 60);
  const Trajectory t = rtraj(s, "t", K, N, D);
  int k = s.num("k", 0, std::max(0, std::min(3, N - 1)));
  std::vector<int> dims;
  int n = s.num("ndims", 1, D);
  for (int q = 0; q < n; ++q) dims.push_back((q + s.num("rot", 0, 3)) % D);
  const Segment& g = t.segments()[0];
  double T = g.getTime(), a = s.flag("part") ? 0.2 * T : 0, b = s.flag("part2") ? 0.7 * T : T;
  std::vector<double> ct = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14};
  std::vector<Extremum> cand(3);
  Extremum mn, mx;
  bool ok = g.computeMinMaxMagnitudeCandidateTimes(k, a, b, dims, &ct);
  ensure(ok, "candidate_times_reported");
  if (ok) {
    bool ha = false, hb = false;
    for (double x : ct) { ensure(x >= a && x <= b, "candidate_outside"); ha |= x == a; hb |= x == b; }
    ensure(ha && hb, "interval_ends_are_candidates");
    ensure(g.computeMinMaxMagnitudeCandidates(k, a, b, dims, &cand), "candidates_reported");
    ensure(cand.size() == ct.size(), "one_candidate_per_time");
    for (size_t q = 0; q < cand.size() && q < ct.size(); ++q) {
      ensure(cand[q].time == ct[q], "candidate_time");
      near(cand[q].value, norm(g, dims, k, ct[q]), "candidate_value", nscale(g, dims, k, ct[q]), 1e-9L);
    }
    ensure(g.selectMinMaxMagnitudeFromCandidates(k, a, b, dims, cand, &mn, &mx), "selected");
    for (auto& e : cand) ensure(mn.value <= e.value && mx.value >= e.value, "selected_is_extreme");
    for (int q = 0; q <= 60; ++q) {
      ld x = a + (b - a) * (ld)q / 60, v = norm(g, dims, k, x), e = 1e-5L * nscale(g, dims, k, x);
      ensure(mx.value >= v - e && mn.value <= v + e, "bounds_the_norm");
    }
    near(mn.value, norm(g, dims, k, mn.time), "attained", nscale(g, dims, k, mn.time), 1e-9L);
    near(mx.value, norm(g, dims, k, mx.time), "attained", nscale(g, dims, k, mx.time), 1e-9L);
    // candidates outside a narrower interval do not count
    double a2 = a + 0.1 * (b - a), b2 = b - 0.1 * (b - a);
    cand.push_back(Extremum(0.5 * (a2 + b2), 1.25, 3));
    ensure(g.selectMinMaxMagnitudeFromCandidates(k, a2, b2, dims, cand, &mn, &mx), "selected");
    double lo = 1e300, hi = -1;
    for (auto& e : cand) if (e.time >= a2 && e.time <= b2) lo = std::min(lo, e.value), hi = std::max(hi, e.value);
    ensure(mn.value == lo && mx.value == hi, "only_candidates_inside");
  }
  // refusals
  std::vector<int> none, bad = dims;
  bad[s.num("badat", 0, n - 1)] = s.flag("neg") ? -1 : D;
  ensure(!g.computeMinMaxMagnitudeCandidateTimes(k, a, b, none, &ct), "no_dimensions_refused");
  ensure(!g.computeMinMaxMagnitudeCandidateTimes(k, a, b, bad, &ct) && !g.computeMinMaxMagnitudeCandidates(k, a, b, bad, &cand), "bad_dimension_refused");
  ensure(!g.computeMinMaxMagnitudeCandidateTimes(k, b + 0.1, a, dims, &ct), "reversed_refused");
  ensure(!g.selectMinMaxMagnitudeFromCandidates(k, b + 0.1, a, dims, cand, &mn, &mx), "reversed_refused");
  ensure(!t.computeMinMaxMagnitude(k, none, &mn, &mx) && !t.computeMinMaxMagnitude(k, bad, &mn, &mx), "trajectory_refuses");
  // the whole trajectory
  ok = t.computeMinMaxMagnitude(k, dims, &mn, &mx);
  ensure(ok, "trajectory_extrema_reported");
  if (!ok) return;
  for (int w = 0; w < K; ++w)
    for (int q = 0; q <= 40; ++q) {
      const Segment& h = t.segments()[w];
      ld x = h.getTime() * (ld)q / 40, v = norm(h, dims, k, x), e = 1e-5L * nscale(h, dims, k, x);
      ensure(mx.value >= v - e && mn.value <= v + e, "trajectory_bounds_the_norm");
    }
  for (const Extremum* e : {&mn, &mx}) {
    bool in = e->segment_idx >= 0 && e->segment_idx < K;
    ensure(in, "trajectory_segment");
    if (!in) continue;
    const Segment& h = t.segments()[e->segment_idx];
    ensure(e->time >= 0 && e->time <= h.getTime(), "trajectory_time");
    near(e->value, norm(h, dims, k, e->time), "trajectory_attained", nscale(h, dims, k, e->time), 1e-9L);
  }
}

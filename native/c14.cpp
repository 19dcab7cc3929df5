#define DCV_MAIN
#include "opt.hpp"
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
using namespace dcv;
using namespace mav_trajectory_generation;
typedef PolynomialOptimizationNonLinear<10> Non;
typedef NonlinearOptimizationParameters Par;
static double sum(const std::vector<double>& v) { double t = 0; for (double x : v) t += x; return t; }
struct Limit { int derivative; double value; };
// largest norm of a derivative over the whole trajectory, by sampling: never above the true one
static double sampled(const Segment::Vector& g, int k, double* slack) {
  double m = 0;
  *slack = 0;
  for (auto& s : g) {
    int n = 200;
    double h = s.getTime() / n, bound = 0;
    for (int i = 0; i <= n; ++i) {
      double t = h * i;
      m = std::max(m, s.evaluate(t, k).norm());
      bound = std::max(bound, s.evaluate(t, k + 1).norm());
    }
    *slack = std::max(*slack, bound * h);
  }
  return m;
}
static double penalties(const Segment::Vector& g, const std::vector<Limit>& l, double w, double cap, double* lo, double* hi) {
  *lo = *hi = 0;
  for (auto& x : l) {
    double sl, m = sampled(g, x.derivative, &sl);
    *lo += std::min(cap, exp(w * (m * (1 - 1e-9) - 1e-9 - x.value) / x.value));
    *hi += std::min(cap, exp(w * (m + sl + 1e-9 - x.value) / x.value));
  }
  return *lo;
}
struct Case {
  Problem q;
  Par p;
  std::vector<Limit> lim;
  std::unique_ptr<Non> o;
};
static void make(Src& s, Case& c, int rare = 0) {
  c.q = problem(s, "p", s.wide("D", 1, 3, 6), 3, rare);
  c.q.r = s.num("r", 2, 4);
  for (double& t : c.q.T) t = std::max(0.4, t);
  c.p.f_rel = 0.05;
  c.p.time_penalty = s.plain("penalty", 0, 500);
  c.p.use_soft_constraints = s.flag("soft");
  c.p.soft_constraint_weight = s.plain("weight", 0.1, 20);
  c.p.max_iterations = s.num("iterations", 1, 40);
  c.p.initial_stepsize_rel = s.plain("step", 0.05, 0.5);
  static const Par::TimeAllocMethod m[] = {Par::kSquaredTime, Par::kRichterTime, Par::kSquaredTimeAndConstraints, Par::kRichterTimeAndConstraints};
  c.p.time_alloc_method = m[s.num("method", 0, 3)];
  c.p.algorithm = c.p.use_soft_constraints ? (s.flag("sbplx") ? nlopt::LN_SBPLX : nlopt::LN_BOBYQA) : nlopt::LN_COBYLA;
  c.o.reset(new Non(c.q.D, c.p));
  c.o->setupFromVertices(c.q.v, c.q.T, c.q.r);
  int n = s.wide("limits", 0, 2, 5);
  for (int i = 0; i < n; ++i) {
    Limit l{s.num("limit.derivative", 1, 3), s.plain("limit.value", 0.5, 20)};
    c.o->addMaximumMagnitudeConstraint(l.derivative, l.value);
    c.lim.push_back(l);
  }
}
static bool squared(const Case& c) { return c.p.time_alloc_method == Par::kSquaredTime || c.p.time_alloc_method == Par::kSquaredTimeAndConstraints; }
static bool timeonly(const Case& c) { return c.p.time_alloc_method == Par::kSquaredTime || c.p.time_alloc_method == Par::kRichterTime; }
// objective at an arbitrary candidate
static void objective(Src& s, Case& c) {
  int S = c.q.S, D = c.q.D;
  std::vector<double> T;
  for (int i = 0; i < S; ++i) T.push_back(otime(s, "T"));
  Opt ref(D);
  ref.setupFromVertices(c.q.v, T, c.q.r);
  std::vector<double> x = T, grad;
  double got;
  if (timeonly(c)) {
    ref.solveLinear();
    got = Non::objectiveFunctionTime(x, grad, c.o.get());
  } else {
    size_t f = freelist(c.q).size();
    std::vector<Eigen::VectorXd> v(D, Eigen::VectorXd::Zero(f));
    for (int d = 0; d < D; ++d)
      for (size_t i = 0; i < f; ++i) { v[d][i] = s.plain("free", -2, 2); x.push_back(v[d][i]); }
    ref.setFreeConstraints(v);
    got = Non::objectiveFunctionTimeAndConstraints(x, grad, c.o.get());
  }
  meets(c.o->getPolynomialOptimizationRef(), c.q, T);
  Segment::Vector g, h;
  ref.getSegments(&g);
  c.o->getPolynomialOptimizationRef().getSegments(&h);
  ensure(samesegs(g, h), "trajectory_of_the_candidate");
  double t = sum(T), base = ref.computeCost() + c.p.time_penalty * (squared(c) ? t * t : t), lo = 0, hi = 0;
  if (c.p.use_soft_constraints) penalties(g, c.lim, c.p.soft_constraint_weight, 1e12, &lo, &hi);
  ld rounding = 0;
  cost(ref, c.q, &rounding);
  double tol = 1e-9 * (1 + std::fabs(base) + lo) + 1e-13 * (double)rounding;
  ensure(got >= base + lo - tol && got <= base + hi + tol, "objective", str(got) + " expected " + str(base) + "+[" + str(lo) + "," + str(hi) + "]");
  ensure(close(c.o->getCost(), ref.computeCost(), rounding * 1e-4), "cost_of_the_trajectory");
  for (auto& k : c.o->inequality_constraints_) {
    double sl, m = sampled(g, k->derivative, &sl), r = Non::evaluateMaximumMagnitudeConstraint(x, grad, k.get());
    ensure(r >= m * (1 - 1e-9) - 1e-9 - k->value && r <= m + sl + 1e-9 - k->value, "limit_is_maximum_minus_limit", str(r) + " " + str(m - k->value));
  }
}
static void run(Src& s, Case& c) {
  int res = c.o->optimize();
  const Opt& o = c.o->getPolynomialOptimizationRef();
  std::vector<double> T;
  o.getSegmentTimes(&T);
  int S = c.q.S, D = c.q.D;
  ensure((int)T.size() == S, "number_of_segment_times");
  meets(o, c.q, T, 1e-8);
  auto lb = c.o->nlopt_->get_lower_bounds(), ub = c.o->nlopt_->get_upper_bounds();
  auto f = freelist(c.q);
  size_t want = timeonly(c) ? S : S + D * f.size();
  ensure(lb.size() == want && ub.size() == want, "number_of_variables");
  for (int i = 0; i < S; ++i) {
    ensure(lb[i] > 0 && lb[i] == std::min(0.1, c.q.T[i]) && ub[i] >= std::numeric_limits<double>::max(), "segment_times_bounded_from_zero", str(lb[i]));
    ensure(T[i] >= lb[i] * (1 - 1e-9), "segment_time_within_bounds", str(T[i]));
  }
  if (!timeonly(c)) {
    Opt ref(D);
    ref.setupFromVertices(c.q.v, c.q.T, c.q.r);
    ref.solveLinear();
    std::vector<Eigen::VectorXd> x;
    ref.getFreeConstraints(&x);
    for (int d = 0; d < D; ++d)
      for (size_t i = 0; i < f.size(); ++i) {
        double hi = std::numeric_limits<double>::infinity(), lo = -hi;
        for (auto& l : c.lim) if (l.derivative == f[i].second) { hi = l.value; lo = -l.value; }
        lo = std::min(lo, x[d][i]);
        hi = std::max(hi, x[d][i]);
        size_t n = S + d * f.size() + i;
        ensure(lb[n] == lo && ub[n] == hi, "bounds_of_the_limited_derivative_only", std::to_string(n) + ": " + str(lb[n]) + ".." + str(ub[n]) + " expected " + str(lo) + ".." + str(hi));
      }
  }
  if (res < 0) return;
  double t = sum(T), base = o.computeCost() + c.p.time_penalty * (squared(c) ? t * t : t), lo = 0, hi = 0;
  Segment::Vector g;
  o.getSegments(&g);
  if (c.p.use_soft_constraints) penalties(g, c.lim, c.p.soft_constraint_weight, 1e12, &lo, &hi);
  double got = c.o->nlopt_->last_optimum_value(), tol = 1e-5 * (1 + std::fabs(base) + lo);
  ld rounding = 0;
  cost(o, c.q, &rounding);
  tol += 1e-11 * (double)rounding;
  ensure(got >= base + lo - tol && got <= base + hi + tol, "stored_trajectory_is_the_accepted_one", str(got) + " stored " + str(base) + "+[" + str(lo) + "," + str(hi) + "] result " + std::to_string(res));
}
// outer loop: cost of the candidate, and its change per second when one segment gets longer at the expense of the others
static void slope(Src& s, Case& c) {
  int S = c.q.S;
  std::vector<double> T;
  for (int i = 0; i < S; ++i) T.push_back(otime(s, "slope.T"));
  auto best = [&](const std::vector<double>& t) {
    Opt ref(c.q.D);
    ref.setupFromVertices(c.q.v, t, c.q.r);
    ref.solveLinear();
    return ref.computeCost();
  };
  double J = best(T);
  std::vector<double> g(S, 77.0);
  double got = Non::objectiveFunctionTimeMellingerOuterLoop(T, g, c.o.get());
  double tol = 1e-7 * std::fabs(J) + 1e-9;
  ensure(std::fabs(got - J) <= tol, "outer_loop_cost", str(got) + " expected " + str(J));
  ensure((int)g.size() == S, "outer_loop_gradient_size");
  for (int n = 0; n < S && n < (int)g.size(); ++n) {
    if (S == 1) { ensure(g[n] == 0, "outer_loop_gradient"); continue; }
    std::vector<double> t = T;
    for (int i = 0; i < S; ++i) t[i] = std::max(0.1, i == n ? T[i] + 0.1 : T[i] - 0.1 / (S - 1.0));
    double K = best(t), want = (K - J) / 0.1;
    ensure(std::fabs(g[n] - want) <= 10 * (tol + 1e-7 * std::fabs(K)), "outer_loop_gradient", std::to_string(n) + ": " + str(g[n]) + " expected " + str(want));
  }
  std::vector<double> left;
  c.o->getPolynomialOptimizationRef().getSegmentTimes(&left);
  ensure(left == T, "outer_loop_leaves_the_candidate");
}
void dcv_once() {}
void dcv_case(Src& s, long) {
  Case c;
  make(s, c);
  if (s.num("slope", 0, 2) == 0) { Case d; make(s, d, 16); slope(s, d); }
  int n = s.num("candidates", 1, 2);
  for (int i = 0; i < n; ++i) objective(s, c);
  if (s.flag("optimise")) { Case e; make(s, e); run(s, e); }
}

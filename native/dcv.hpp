// Contract evaluation on the compiled code: input source, oracle helpers, reporting.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/Sparse>
#include <Eigen/StdVector>
#include <glog/logging.h>

namespace dcv {
typedef long double ld;

struct Src {
  std::mt19937_64 g;
  std::map<std::string, double> rep;
  std::string trace;
  bool have(const std::string& n) const { return rep.count(n) > 0; }
  uint64_t bits() { return g(); }
  void note(const std::string& n, double v) {
    if (trace.size() > 4000) return;
    char b[96];
    snprintf(b, sizeof b, " %s=%.17g", n.c_str(), v);
    trace += b;
  }
  // numbers written in the sources under test: sizes to try, and values no reviewed version of the sources holds
  std::vector<int> sizes, fresh;
  std::vector<double> values;
  Src() {
    auto get = [](const char* n, auto* out) {
      std::istringstream in(getenv(n) ? getenv(n) : "");
      double v;
      while (in >> v) out->push_back(v);
    };
    get("DCV_SIZES", &sizes);
    get("DCV_NEW_SIZES", &fresh);
    get("DCV_VALUES", &values);
  }
  bool literal(double lo, double hi, double* v) {
    if (values.empty() || g() % 12) return false;
    double l = values[g() % values.size()];
    if (l < lo || l > hi) return false;
    switch (g() % 5) {
      case 0: *v = l; break;
      case 1: *v = l * (1 + 1e-3); break;
      case 2: *v = l * (1 - 1e-3); break;
      case 3: *v = l * uni(); break;
      default: *v = l + (hi - l) * uni() * uni(); break;
    }
    *v = std::min(hi, std::max(lo, *v));
    return true;
  }
  double uni() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
  double real(const std::string& n, double lo, double hi) {
    double v;
    if (have(n)) v = std::min(hi, std::max(lo, rep[n]));
    else if (literal(lo, hi, &v)) {
    } else {
      uint64_t k = g() % 16;
      if (k == 0) v = lo;
      else if (k == 1) v = hi;
      else if (k == 2 && lo <= 0 && hi >= 0) v = 0;
      else if (k == 3 && lo <= 1 && hi >= 1) v = 1;
      else if (k == 4 && lo <= -1 && hi >= -1) v = -1;
      else if (k == 5) v = std::min(hi, std::max(lo, std::round(lo + (hi - lo) * uni())));
      else if (k == 6) v = std::min(hi, std::max(lo, 1e-9 * (uni() - 0.5)));
      else v = lo + (hi - lo) * uni();
    }
    note(n, v);
    return v;
  }
  double plain(const std::string& n, double lo, double hi) {
    double v;
    if (have(n)) v = std::min(hi, std::max(lo, rep[n]));
    else if (!literal(lo, hi, &v)) v = lo + (hi - lo) * uni();
    note(n, v);
    return v;
  }
  int num(const std::string& n, int lo, int hi) {
    int v = have(n) ? (int)std::min((double)hi, std::max((double)lo, rep[n])) : lo + (int)(g() % (uint64_t)(hi - lo + 1));
    note(n, v);
    return v;
  }
  // usually at most `usual`, now and then up to `rare`
  int wide(const std::string& n, int lo, int usual, int rare) {
    bool big = g() % 8 == 0;
    return num(n, lo, big || have(n) ? rare : usual);
  }
  // the same, and now and then a size about one written in the sources
  int count(const std::string& n, int lo, int usual, int rare, int cap) {
    if (have(n)) return num(n, lo, cap);
    if (!fresh.empty() && g() % 24 == 0) {
      int v = fresh[g() % fresh.size()] + (int)(g() % 4) - 1;
      if (v > usual && v <= cap) { note(n, v); return v; }
    }
    if (!sizes.empty() && g() % 40 == 0) {
      int v = sizes[g() % sizes.size()] + (int)(g() % 4) - 1;
      if (v > usual && v <= cap) { note(n, v); return v; }
    }
    return wide(n, lo, usual, rare);
  }
  bool flag(const std::string& n) { return num(n, 0, 1) == 1; }
};

extern Src* S;
extern long evals, distinct, fails;
extern std::string ctx;

inline void fail(const std::string& obl, const std::string& what) {
  ++fails;
  if (fails < 20) {
    std::string s = obl + " " + what + " | input:" + (S ? S->trace : "");
    for (char& c : s) if (c == '\n') c = ' ';
    printf("FAIL %s\n", s.c_str());
    fflush(stdout);
  }
}
inline void ensure(bool ok, const char* obl, const std::string& what = "") {
  ++evals;
  if (!ok) fail(obl, what);
}
inline std::string str(double a) { char b[64]; snprintf(b, sizeof b, "%.17g", a); return b; }
// |got-want| within tol*(1+scale)
inline bool close(ld a, ld b, ld scale = 0, ld tol = 1e-9L) {
  if (std::isnan((double)a) || std::isnan((double)b)) return false;
  return std::fabs((double)(a - b)) <= (double)(tol * (1 + std::fabs((double)b) + scale));
}
inline void near(ld got, ld want, const char* obl, ld scale = 0, ld tol = 1e-9L, const std::string& w = "") {
  ++evals;
  if (!close(got, want, scale, tol)) fail(obl, w + " got " + str(got) + " want " + str(want));
}

// run f in a child process; true when it returned normally (not aborted by CHECK / signal)
inline bool survives(const std::function<void()>& f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2); dup2(dn, 1);
    alarm(20);
    try { f(); } catch (...) { _exit(3); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// exact-ish oracle: k-th derivative of sum c_i t^i in long double
inline ld polyval(const Eigen::VectorXd& c, int k, ld t) {
  ld r = 0, p = 1;
  for (int i = k; i < c.size(); ++i) {
    ld f = 1;
    for (int j = 0; j < k; ++j) f *= (i - j);
    r += f * (ld)c[i] * p;
    p *= t;
  }
  return r;
}
inline ld polyscale(const Eigen::VectorXd& c, int k, ld t) {
  ld r = 0, p = 1;
  for (int i = k; i < c.size(); ++i) {
    ld f = 1;
    for (int j = 0; j < k; ++j) f *= (i - j);
    r += f * std::fabs(c[i]) * std::fabs((double)p);
    p *= t;
  }
  return r;
}
}  // namespace dcv

// every harness defines this: one case from the source
void dcv_case(dcv::Src& s, long i);
void dcv_once();

#ifdef DCV_MAIN
namespace dcv { Src* S = nullptr; long evals = 0, distinct = 0, fails = 0; std::string ctx; }
static void dcv_sig(int sig) {
  char b[128];
  int k = snprintf(b, sizeof b, "FAIL crash signal %d (abort, failed CHECK or invalid access) | input:", sig);
  (void)!write(1, b, k);
  if (dcv::S) (void)!write(1, dcv::S->trace.data(), dcv::S->trace.size());
  (void)!write(1, "\n", 1);
  _exit(9);
}
int main(int argc, char** argv) {
  for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(sg, dcv_sig);
  unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
  long n = argc > 2 ? atol(argv[2]) : 1000;
  FLAGS_minloglevel = 3;
  std::map<std::string, double> rep;
  if (argc > 3) {
    std::ifstream f(argv[3]);
    std::string k; std::string v;
    while (f >> k >> v) rep[k] = atof(v.c_str());
  }
  {
    dcv::Src s; s.g.seed(seed); dcv::S = &s;
    dcv_once();
  }
  std::set<uint64_t> seen;
  long cases = 0;
  for (long i = 0; i < n && dcv::fails < 20; ++i) {
    dcv::Src s;
    s.g.seed(seed * 1000003UL + i);
    s.rep = rep;
    dcv::S = &s;
    dcv_case(s, i);
    ++cases;
    seen.insert(std::hash<std::string>()(s.trace));
    if (i < 2) printf("SAMPLE case %ld:%s\n", i, s.trace.substr(0, 300).c_str());
  }
  printf("EVALS %ld %zu %ld\n", dcv::evals, seen.size(), cases);
  fflush(stdout);
  _exit(0);
}
#endif

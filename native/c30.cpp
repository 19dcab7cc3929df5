// accumulators against the statistics of the recorded sequence; histories of timers and tags against a model
#define DCV_MAIN
#include "dcv.hpp"
#include <memory>
#include <thread>
#define private public
#define protected public
#include <mav_trajectory_generation/timing.h>
#undef private
#undef protected
using namespace dcv;
using namespace mav_trajectory_generation::timing;
typedef decltype(TimerMapValue::acc_) Acc;
static size_t window() { Acc a; return sizeof(a.samples_) / sizeof(a.samples_[0]); }
static void check(const Acc& a, const std::vector<double>& h) {
  size_t n = h.size(), w = std::min(n, window());
  ensure(a.TotalSamples() == (int)n, "count");
  ld S = 0, A = 0, W = 0, lo = 0, hi = 0, V = 0;
  for (size_t i = 0; i < n; ++i) {
    S += h[i]; A += std::fabs(h[i]);
    if (i + w >= n) W += h[i];
    if (!i || h[i] < lo) lo = h[i];
    if (!i || h[i] > hi) hi = h[i];
  }
  near(a.Sum(), S, "total", A);
  if (!n) { ensure(a.LazyVariance() == 0, "no_variance"); return; }
  near(a.Mean(), S / n, "mean", A);
  near(a.RollingMean(), W / w, "rolling_mean", A);
  ensure(a.Min() == (double)lo, "minimum", str(a.Min()));
  ensure(a.Max() == (double)hi, "maximum", str(a.Max()));
  for (size_t i = n - w; i < n; ++i) V += (h[i] - W / w) * (h[i] - W / w);
  near(a.LazyVariance(), V / w, "rolling_variance", A * A);
}
void dcv_once() {
  ensure(Timing::GetTag(12345).empty(), "unknown_handle");
  { Timer t("dcv slow"); std::this_thread::sleep_for(std::chrono::milliseconds(20)); t.Stop(); }
  double s = Timing::GetTotalSeconds("dcv slow");
  ensure(s >= 0.015 && s < 15, "measures_seconds", str(s));
}
void dcv_case(Src& s, long i) {
  int n = s.num("n", 0, 3) == 0 ? s.num("n_large", 90, 210) : s.num("n_small", 0, 60), sign = s.num("sign", 0, 2);
  Acc a;
  std::vector<double> h;
  check(a, h);
  for (int k = 0; k < n; ++k) {
    double x = s.real("x" + std::to_string(k), -4, 4);
    if (sign) x = (sign == 1 ? 1 : -1) * std::fabs(x);
    a.Add(x);
    h.push_back(x);
    if (n < 12 || k + 3 > n || (k > 45 && k < 55) || k % 17 == 0) check(a, h);
  }
  check(a, h);
  // tags and timers
  Timing::Reset();
  std::vector<std::string> tags = {"", "a", "b", "ab", "a b"};
  std::map<std::string, size_t> handle, count;
  std::map<std::string, std::vector<double>> hist;
  std::vector<std::unique_ptr<Timer>> live;
  std::vector<std::string> of;
  std::vector<bool> runs;
  int ops = s.num("ops", 1, 25);
  for (int o = 0; o < ops; ++o) {
    std::string p = std::to_string(o), tag = tags[s.num("tag" + p, 0, (int)tags.size() - 1)];
    int what = s.num("op" + p, 0, 6);
    size_t j = live.empty() ? 0 : s.num("timer" + p, 0, (int)live.size() - 1);
    if (what == 0) {
      size_t H = Timing::GetHandle(tag);
      if (handle.count(tag)) ensure(handle[tag] == H, "tag_keeps_its_handle");
      else { for (auto& e : handle) ensure(e.second != H, "tags_do_not_share"); handle[tag] = H; ensure(Timing::GetNumSamples(H) == 0, "new_record_is_empty"); }
      ensure(Timing::GetTag(H) == tag, "tag_of_handle");
    } else if (what == 1) {
      bool stopped = s.num("stopped" + p, 0, 1);
      bool byh = handle.count(tag) && s.num("byhandle" + p, 0, 1);
      live.emplace_back(byh ? new Timer(handle[tag], stopped) : new Timer(tag, stopped));
      if (!handle.count(tag)) { handle[tag] = Timing::GetHandle(tag); count[tag] = 0; }
      of.push_back(tag);
      runs.push_back(!stopped);
    } else if (what == 2 && !live.empty()) { live[j]->Start(); runs[j] = true; }
    else if ((what == 3 || what == 4) && !live.empty()) { live[j]->Stop(); if (runs[j]) ++count[of[j]]; runs[j] = false; }
    else if (what == 5 && !live.empty()) {
      if (runs[j]) ++count[of[j]];
      live.erase(live.begin() + j); of.erase(of.begin() + j); runs.erase(runs.begin() + j);
    } else if (what == 6 && handle.count(tag)) { Timing::Instance().AddTime(handle[tag], 1e-3); ++count[tag]; }
    for (size_t k = 0; k < live.size(); ++k) ensure(live[k]->IsTiming() == runs[k], "tells_whether_it_runs");
    for (auto& e : handle) {
      Acc& r = Timing::Instance().timers_[e.second].acc_;
      ensure(Timing::GetNumSamples(e.first) == count[e.first], "one_sample_per_measurement", e.first);
      ensure(Timing::GetNumSamples(e.second) == count[e.first], "samples_of_the_handle");
      ensure(Timing::GetHandle(e.first) == e.second, "handle_is_stable");
      if (!count[e.first]) continue;
      ensure(r.Min() >= 0 && r.Max() < 60, "samples_are_durations");
      ensure(Timing::GetTotalSeconds(e.first) == r.Sum() && Timing::GetMeanSeconds(e.first) == r.Mean() && Timing::GetMinSeconds(e.first) == r.Min() && Timing::GetMaxSeconds(e.first) == r.Max() && Timing::GetVarianceSeconds(e.first) == r.LazyVariance(), "statistics_of_the_tag");
      ensure(Timing::GetTotalSeconds(e.second) == r.Sum() && Timing::GetMeanSeconds(e.second) == r.Mean() && Timing::GetMinSeconds(e.second) == r.Min() && Timing::GetMaxSeconds(e.second) == r.Max() && Timing::GetVarianceSeconds(e.second) == r.LazyVariance(), "statistics_of_the_handle");
    }
  }
}

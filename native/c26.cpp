#define DCV_MAIN
#include "dyn.hpp"
#include <thread>
#include <chrono>
using namespace dcv;
using namespace dynamic_traj_generator;
static DynamicWaypoint named(int k, double x) {
  DynamicWaypoint w;
  w.resetWaypoint(Eigen::Vector3d(x, k % 3, 2));
  w.setName("w" + std::to_string(k));
  return w;
}
void dcv_once() {}
// clients call everything at once while the worker plans; every call returns
void dcv_case(Src& s, long) {
  std::cout.rdbuf(nullptr);
  DynamicTrajectory* d = new DynamicTrajectory();
  d->setSpeed(s.plain("speed", 1, 4));
  d->updateVehiclePosition(Eigen::Vector3d(0, 0, 1));
  DynamicWaypoint::Vector v;
  int n = s.count("n", 2, 5, 12, 60);
  for (int i = 0; i < n; ++i) v.push_back(named(i, 4 * (i + 1)));
  d->setWaypoints(v);
  std::atomic<bool> stop{false};
  std::atomic<float> now{0};
  std::atomic<long> calls{0};
  std::vector<std::thread> ts;
  uint64_t seed = s.bits();
  // one client flies; a request is not served by a data race of the flown plan: only lock waits are of interest here
  ts.emplace_back([&] { std::mt19937_64 g(seed); References r; while (!stop) { now = now + 0.01f; d->evaluateTrajectory(now, r, g() % 2, g() % 3 == 0); ++calls; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } });
  ts.emplace_back([&] {
    std::mt19937_64 g(seed + 1);
    int next = 100;
    while (!stop) {
      switch (g() % 6) {
        case 0: if (g() % 8 == 0) d->setWaypoints(v); break;
        case 1: if (g() % 8 == 0) d->appendWaypoint(named(next++, 4 * (n + 1) + g() % 5)); break;
        case 2: d->modifyWaypoint("w" + std::to_string(g() % n), Eigen::Vector3d(g() % 20, g() % 3, 2), g() % 2); break;
        case 3: d->setSpeed(1 + g() % 4); d->getSpeed(); d->getTimeCompensation(); break;
        case 4: d->getWasTrajectoryRegenerated(); d->getGenerateNewTraj(); d->getComputingNewTrajectoryStatus(); break;
        case 5: d->updateVehiclePosition(Eigen::Vector3d(g() % 20, 0, 1)); break;
      }
      ++calls;
      std::this_thread::sleep_for(std::chrono::microseconds(500));
    }
  });
  long seen = 0;
  for (int k = 0; k < 8; ++k) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    if (k == 7) { long c = calls; ensure(c > seen, "calls_keep_returning"); }
    if (k == 3) seen = calls;
  }
  stop = true;
  for (auto& t : ts) t.join();
  delete d;  // possibly while a plan is being computed
  ensure(true, "every_call_and_the_destructor_return");
}

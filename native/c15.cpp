#define DCV_MAIN
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <yaml-cpp/yaml.h>
#include "traj.hpp"
#include "mav_trajectory_generation/io.h"
using namespace dcv;
using namespace mav_trajectory_generation;
static std::string dir;
static struct Cleaner { ~Cleaner() { if (dir.size()) { ::unlink((dir + "/t.yaml").c_str()); ::rmdir(dir.c_str()); } } } cleaner;
void dcv_once() {}
static void same(const Segment::Vector& a, const Segment::Vector& b, const char* w) {
  ensure(a.size() == b.size(), w);
  if (a.size() != b.size()) return;
  for (size_t i = 0; i < a.size(); ++i) {
    ensure(a[i].N() == b[i].N() && a[i].D() == b[i].D(), w);
    near(a[i].getTime(), b[i].getTime(), w, 0, 1.001e-9L);
    ensure(std::abs(a[i].getTime() - b[i].getTime()) <= 1.001e-9, w);
    for (int d = 0; d < a[i].D() && d < b[i].D(); ++d)
      ensure(a[i][d].N() == b[i][d].N() && a[i][d].getCoefficients() == b[i][d].getCoefficients(), w);
  }
}
static void put(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
void dcv_case(Src& s, long i) {
  if (dir.empty()) {
    char b[] = "/tmp/dcv_c15_XXXXXX";
    if (!mkdtemp(b)) return;
    dir = b;
  }
  bool big = s.num("big", 0, 9) == 0;
  int N = s.num("N", 1, big ? 16 : 8), D = s.num("D", 1, big ? 7 : 5), K = s.count("K", 1, big ? 9 : 4, big ? 9 : 4, 160);
  if (K > 60) N = std::min(N, 3), D = std::min(D, 2);
  Trajectory t = rtraj(s, "t", K, N, D);
  if (s.num("magnitude", 0, 3) == 0) {  // coefficients and times of any size
    Segment::Vector m = t.segments();
    for (auto& g : m) {
      for (int d = 0; d < D; ++d) g[d] = Polynomial(Eigen::VectorXd(g[d].getCoefficients() * std::pow(10.0, s.num("decade", -12, 12))));
      g.setTime(g.getTime() * std::pow(10.0, s.num("slow", -3, 4)));
    }
    t.setSegments(m);
  }
  Trajectory o = rtraj(s, "o", 2, 3, 2);
  const Trajectory t0 = t, o0 = o;
  Segment::Vector segs;
  t.getSegments(&segs);
  std::string f = dir + "/t.yaml";
  // values
  Eigen::VectorXd v(s.num("nv", 0, 6)), w(2);
  for (int k = 0; k < v.size(); ++k) v(k) = s.real("v" + std::to_string(k), -5, 5);
  ensure(coefficientsFromYaml(coefficientsToYaml(v), &w) && w.size() == v.size() && w == v, "coefficients_round_trip");
  // segments and trajectories through a node
  Segment one = rseg(s, "old", 2, 2, 1);
  ensure(segmentFromYaml(segmentToYaml(segs[0]), &one), "segment_round_trip");
  same({one}, {segs[0]}, "segment_round_trip");
  Segment::Vector got = rsegs(s, "old", 3, 2, 2);
  ensure(segmentsFromYaml(segmentsToYaml(segs)["segments"], &got), "segments_round_trip");
  same(got, segs, "segments_round_trip");
  Trajectory u = o;
  ensure(trajectoryFromYaml(trajectoryToYaml(t), &u), "trajectory_round_trip");
  same(u.segments(), segs, "trajectory_round_trip");
  ensure(u.D() == D && u.N() == N && std::abs(u.getMaxTime() - t.getMaxTime()) < 1e-6 * (1 + 1e-9 * t.getMaxTime()), "trajectory_round_trip");
  // through text
  { std::stringstream ss; ss << trajectoryToYaml(t); u = o; ensure(trajectoryFromYaml(YAML::Load(ss.str()), &u), "text_round_trip"); same(u.segments(), segs, "text_round_trip"); }
  // through a file
  ::unlink(f.c_str());
  u = o;
  ensure(!trajectoryFromFile(f, &u) && sametraj(u, o0), "missing_file_refused");
  got = rsegs(s, "old", 3, 2, 2);
  ensure(!segmentsFromFile(f, &got), "missing_file_refused");
  ensure(segmentsToFile(f, segs), "file_round_trip");
  got = rsegs(s, "old", 3, 2, 2);
  ensure(segmentsFromFile(f, &got), "file_round_trip");
  same(got, segs, "file_round_trip");
  ensure(trajectoryToFile(f, t), "file_round_trip");
  u = o;
  ensure(trajectoryFromFile(f, &u), "file_round_trip");
  same(u.segments(), segs, "file_round_trip");
  ensure(sametraj(t, t0), "saving_changes_nothing");
  ensure(!segmentsToFile(dir + "/no/such/dir/t.yaml", segs), "unwritable_file_refused");
  if (K > 60) return;
  // a field is missing, in the first or the last segment
  const char* keys[] = {"N", "D", "time", "coefficients"};
  for (int k = 0; k < 4; ++k)
    for (int e = 0; e < 2; ++e) {
      YAML::Node n = trajectoryToYaml(t);
      n["segments"][e ? K - 1 : 0].remove(keys[k]);
      Trajectory u = o;
      ensure(!trajectoryFromYaml(n, &u) && sametraj(u, o0), "missing_field_refused");
      Segment g = one;
      ensure(!segmentFromYaml(n["segments"][e ? K - 1 : 0], &g), "missing_field_refused");
      std::stringstream ss;
      ss << n;
      put(f, ss.str());
      Segment::Vector z;
      ensure(!segmentsFromFile(f, &z), "missing_field_refused_from_file");
      ensure(!trajectoryFromFile(f, &u) && sametraj(u, o0), "missing_field_refused_from_file");
    }
  // sizes that disagree with the header
  for (int k = 0; k < 4; ++k) {
    YAML::Node n = trajectoryToYaml(t);
    YAML::Node g = n["segments"][s.num("bad", 0, K - 1)];
    if (k == 0) g["N"] = N + 1;
    if (k == 1) g["D"] = D + 1;
    if (k == 2) g["coefficients"].push_back(coefficientsToYaml(v));
    if (k == 3) g["coefficients"][s.num("dd", 0, D - 1)].push_back(1.0);
    std::stringstream ss;
    ss << n;
    put(f, ss.str());
    Segment::Vector z;
    ensure(!segmentsFromFile(f, &z), "size_mismatch_refused");
  }
  YAML::Node other;
  other["x"] = 1;
  u = o;
  ensure(!trajectoryFromYaml(other, &u) && sametraj(u, o0), "no_segments_refused");
  put(f, "x: 1\n");
  ensure(!trajectoryFromFile(f, &u) && sametraj(u, o0), "no_segments_refused");
  put(f, "segments: []\n");
  ensure(!trajectoryFromFile(f, &u) && sametraj(u, o0), "no_segments_refused");
}

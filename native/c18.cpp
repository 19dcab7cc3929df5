#define DCV_MAIN
#include "dcv.hpp"
#include "utils/traj_modifiers.hpp"
using namespace dcv;
void dcv_once() {}
void dcv_case(Src& s, long i) {
  double sg = s.real("sigma", 0, 4), mu = s.real("mu", -20, 20), inc = s.real("increment", -30, 30);
  if (s.flag("tiny")) inc = s.plain("small", -0.03, 0.03);
  if (s.flag("tinyw")) sg = s.plain("smallw", 0, 1e-3);
  double t = s.flag("far") ? s.real("t", -60, 60) : mu + s.plain("x", -4.2, 4.2) * sg;
  if (s.flag("at")) t = mu;
  GaussianModifier m;
  if (s.flag("twice")) { m.setSigma(s.plain("old_sigma", 0, 5)); m.setModifierTime(s.plain("old_mu", -5, 5)); m.setDifference(s.plain("old_increment", -5, 5)); }
  if (s.flag("default")) { if (s.flag("twice2")) m.setSigma(1.5); m = GaussianModifier(); sg = m.getSigma(); ensure(sg > 0, "default_width"); }
  else m.setSigma(sg);
  m.setModifierTime(mu); m.setDifference(inc);
  ensure(m.getSigma() == sg, "width");
  double d = t - mu;
  bool margin = std::abs(std::abs(d) - 3.5 * sg) > 1e-9 * (1 + std::abs(t)) && std::abs(std::abs(inc) - 0.02) > 1e-12;
  bool zero = sg == 0 || std::abs(d) > 3.5 * sg || std::abs(inc) < 0.02;
  for (int k = 0; k < 3; ++k) {
    double v = m(t, k);
    ensure(std::isfinite(v) || sg < 1e-100, "finite");
    if (!margin && sg != 0) continue;
    if (zero) { ensure(v == 0, "exactly_zero"); continue; }
    if (sg < 1e-6) continue;
    ld s2 = (ld)sg * sg, g = inc * expl(-(ld)d * d / (2 * s2));
    ld w = k == 0 ? g : k == 1 ? -d / s2 * g : ((ld)d * d / s2 / s2 - 1 / s2) * g;
    near(v, w, k == 0 ? "bump" : k == 1 ? "first_derivative" : "second_derivative", std::abs(inc) * (k == 0 ? 1 : k == 1 ? 1 / sg : 1 / sg / sg), 1e-9);
  }
  if (!zero || (sg > 0 && std::abs(inc) >= 0.02)) near(m(mu, 0), inc, "peak");
  ensure(GaussianModifier()(t, s.num("k", 0, 2)) == 0, "fresh");
}

#include <cmath>
#include <limits>
#include "steering_functions/steering_functions.hpp"
namespace shim {
using steer::State; using steer::Control;
static double m2pi(double a) {a = std::fmod(a, 2 * M_PI); return a < 0 ? a + 2 * M_PI : a;}
// Shortest of the six Dubins words (standard formulas)
std::vector<Control> dubins(const State& s0, const State& s1, double kappa, bool fwd) {
  State a = s0, b = s1;
  if (!fwd) {a.theta += M_PI; b.theta += M_PI;}
  double dx = b.x - a.x, dy = b.y - a.y, D = std::hypot(dx, dy) * kappa, th = std::atan2(dy, dx);
  double al = m2pi(a.theta - th), be = m2pi(b.theta - th);
  double sa = std::sin(al), sb = std::sin(be), ca = std::cos(al), cb = std::cos(be), cab = std::cos(al - be);
  double best = std::numeric_limits<double>::max();
  double seg[3] = {0, 0, 0}; int word[3] = {1, 0, -1};
  auto take = [&] (double t, double p, double q, int w0, int w1, int w2) {
    auto clean = [] (double v) {return (2 * M_PI - v < 1e-9) ? 0.0 : v;};
    t = clean(t); q = clean(q); if (w1 != 0) {p = clean(p);}
    if (t + p + q < best - 1e-12) {best = t + p + q; seg[0] = t; seg[1] = p; seg[2] = q; word[0] = w0; word[1] = w1; word[2] = w2;}
  };
  double p2 = 2 + D * D - 2 * cab + 2 * D * (sa - sb);
  if (p2 > -1e-12) {double t = std::atan2(cb - ca, D + sa - sb); take(m2pi(-al + t), std::sqrt(std::fmax(0, p2)), m2pi(be - t), 1, 0, 1);}
  p2 = 2 + D * D - 2 * cab + 2 * D * (sb - sa);
  if (p2 > -1e-12) {double t = std::atan2(ca - cb, D - sa + sb); take(m2pi(al - t), std::sqrt(std::fmax(0, p2)), m2pi(-be + t), -1, 0, -1);}
  p2 = -2 + D * D + 2 * cab + 2 * D * (sa + sb);
  if (p2 > -1e-12) {double p = std::sqrt(std::fmax(0, p2)), t = std::atan2(-ca - cb, D + sa + sb) - std::atan2(-2.0, p); take(m2pi(-al + t), p, m2pi(-be + t), 1, 0, -1);}
  p2 = -2 + D * D + 2 * cab - 2 * D * (sa + sb);
  if (p2 > -1e-12) {double p = std::sqrt(std::fmax(0, p2)), t = std::atan2(ca + cb, D - sa - sb) - std::atan2(2.0, p); take(m2pi(al - t), p, m2pi(be - t), -1, 0, 1);}
  double u = (6 - D * D + 2 * cab + 2 * D * (sa - sb)) / 8;
  if (std::fabs(u) <= 1) {double p = 2 * M_PI - std::acos(u), t = m2pi(al - std::atan2(ca - cb, D - sa + sb) + p / 2); take(t, p, m2pi(al - be - t + p), -1, 1, -1);}
  u = (6 - D * D + 2 * cab + 2 * D * (sb - sa)) / 8;
  if (std::fabs(u) <= 1) {double p = 2 * M_PI - std::acos(u), t = m2pi(-al + std::atan2(-ca + cb, D + sa - sb) + p / 2); take(t, p, m2pi(be - al - t + p), 1, -1, 1);}
  std::vector<Control> c;
  for (int i = 0; i < 3; ++i) {
    Control k; k.delta_s = (fwd ? 1 : -1) * seg[i] / kappa; k.kappa = (fwd ? 1 : -1) * word[i] * kappa; k.sigma = 0;
    if (seg[i] > 1e-10) {c.push_back(k);}
  }
  return c;
}
static double len(const std::vector<Control>& c) {double s = 0; for (auto& k : c) {s += std::fabs(k.delta_s);} return s;}
static State move(State s, const Control& c, double ds) {
  if (std::fabs(c.kappa) < 1e-12) {s.x += ds * std::cos(s.theta); s.y += ds * std::sin(s.theta);}
  else {
    double k = c.kappa;   // heading turns by k*ds
    s.x += (std::sin(s.theta + k * ds) - std::sin(s.theta)) / k;
    s.y += (std::cos(s.theta) - std::cos(s.theta + k * ds)) / k;
    s.theta += k * ds;
  }
  s.kappa = c.kappa; s.d = c.delta_s < 0 ? -1 : 1;
  return s;
}
// forwards, backwards, or one arc or line of one kind followed by the other
std::vector<Control> reedsShepp(const State& a, const State& b, double kappa) {
  auto best = dubins(a, b, kappa, true);
  auto bw = dubins(a, b, kappa, false);
  if (len(bw) < len(best) - 1e-9) {best = bw;}
  for (int f = 0; f < 2; ++f) {
    for (double k : {0.0, kappa, -kappa}) {
      for (int j = 1; j <= 12; ++j) {
        Control c; c.delta_s = (f ? -1 : 1) * 0.13 * j / kappa; c.kappa = k;
        auto rest = dubins(move(a, c, c.delta_s), b, kappa, f == 1);
        if (len(rest) + std::fabs(c.delta_s) < len(best) - 1e-9) {best = rest; best.insert(best.begin(), c);}
      }
    }
  }
  return best;
}
std::vector<State> integrate(const State& a, const std::vector<Control>& cs, double step) {
  std::vector<State> r;
  State s = a;
  if (cs.empty()) {s.d = 1; r.push_back(s); return r;}
  for (size_t i = 0; i < cs.size(); ++i) {
    double L = std::fabs(cs[i].delta_s), sg = cs[i].delta_s < 0 ? -1 : 1;
    int n = std::max(1, int(std::ceil(L / step - 1e-9)));
    if (i == 0) {State f = move(s, cs[i], 0); r.push_back(f);} 
    else {r.back().d = sg; r.back().kappa = cs[i].kappa;}
    for (int j = 1; j <= n; ++j) {r.push_back(move(s, cs[i], sg * L * j / n));}
    s = r.back();
  }
  return r;
}
}  // namespace shim

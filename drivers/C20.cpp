// NOTE: elementary trigonometry in long double, sweeps across the critical angles
// QUICK: 4
#include "swl.hpp"
using g::P;
namespace {
typedef long double LD;
const LD TPI = 6.283185307179586476925286766559005768L, HPI = TPI / 2;
// angle as a point of the circle: distance of two angles along it
LD circ(LD a, LD b) {LD d = std::fabs(std::fmod(a - b, TPI)); return std::min(d, TPI - d);}
double rangle(vf::Rng& r) {
  switch (r.i(0, 8)) {
    case 0: return r.u(-20, 20);
    case 1: return r.u(-1e6, 1e6);
    case 2: return r.i(-40, 40) * M_PI / 4;
    case 3: return r.i(-40, 40) * M_PI / 2 + r.pick({0.0, 1e-15, -1e-15, 1e-9, -1e-9, 1e-4, -1e-4});
    case 4: return r.pick({0.0, -0.0, 1e-300, -1e-300, 1e-17, -1e-17, -1e-16, 2 * M_PI, -2 * M_PI, M_PI, -M_PI, std::nextafter(2 * M_PI, 0), std::nextafter(2 * M_PI, 9), std::nextafter(M_PI, 0), std::nextafter(M_PI, 4)});
    case 5: {double k = r.i(-1000, 1000) * 2 * M_PI; for (int i = r.i(0, 3); i > 0; --i) {k = std::nextafter(k, r.p(0.5) ? 1e9 : -1e9);} return k;}
    case 6: return r.u(0, 2 * M_PI);
    case 7: return r.logu(1e-12, 1e8) * (r.p(0.5) ? 1 : -1);
    default: return r.i(-720, 720) * M_PI / 180;
  }
}
// rounding of the values themselves and of the number used as 2*pi
LD tol(LD a) {return 1e-14L + 4e-16L * std::fabs(a);}
}  // namespace
SCENARIO(reduction, 200000, 20000000) {
  double a = rangle(c.rng);
  double m = F2CPoint::mod_2pi(a);
  c.check(m >= 0 && m < 2 * M_PI, "range", "mod_2pi(", a, ") = ", m);
  c.check(circ(m, a) <= tol(a), "whole_turns", "mod_2pi(", a, ") = ", m);
  double m2 = F2CCells::mod_2pi(a), m3 = F2CLineString::mod_2pi(a);
  c.check(m2 == m && m3 == m, "same_all_types", "mod_2pi(", a, ") differs between types");
  double b = c.rng.pick({1.0, 2.0, 0.5, 360.0, M_PI, 24.0}), x = c.rng.p(0.5) ? c.rng.i(-2000, 2000) / 8.0 : c.rng.u(-1e4, 1e4);
  double q = F2CPoint::mod(x, b);
  LD want = x - b * std::floor(LD(x) / b);
  LD d = std::fabs(q - want);
  c.check(q >= 0 && q < b && std::min(d, LD(b) - d) <= 1e-11L, "mod", "mod(", x, ", ", b, ") = ", q, " expected ", double(want));
  c.count("reductions"); c.sig(a);
}
SCENARIO(difference, 200000, 20000000) {
  double a = rangle(c.rng), b = c.rng.p(0.3) ? a + c.rng.pick({0.0, M_PI, -M_PI, 2 * M_PI, M_PI + 1e-9, M_PI - 1e-9, 1e-9, -1e-9, M_PI / 2}) : rangle(c.rng);
  double d = F2CPoint::getAngleDiffAbs(a, b), e = F2CPoint::getAngleDiffAbs(b, a);
  LD t = tol(a) + tol(b);
  LD want = circ(a, b);
  c.check(d >= -1e-14 && d <= M_PI + 1e-14, "range", "difference of ", a, " and ", b, " is ", d);
  c.check(std::fabs(d - want) <= t, "shortest", "difference of ", a, " and ", b, " is ", d, " expected ", double(want));
  c.check(std::fabs(d - e) <= t, "symmetric", "difference of ", a, " and ", b, " is ", d, " and back ", e);
  double h = F2CPoint::getAngleAvg(a, b), k = F2CPoint::getAngleAvg(b, a);
  c.check(std::fabs(circ(h, a) - want / 2) <= t && std::fabs(circ(h, b) - want / 2) <= t, "halfway", "average of ", a, " and ", b, " is ", h, ", ", double(circ(h, a)), " and ", double(circ(h, b)), " away, half the way is ", double(want / 2));
  if (want < HPI - 1e-7L) {c.check(circ(h, k) <= t, "average_symmetric", "average of ", a, " and ", b, " is ", h, " and ", k);}
  c.count("pairs"); c.sig(a); c.sig(b);
}
SCENARIO(continuity, 20000, 1000000) {
  int n = c.rng.p(0.02) ? 0 : c.rng.i(1, 40);
  std::vector<double> v;
  int how = c.rng.i(0, 3);
  double a = rangle(c.rng);
  for (int i = 0; i < n; ++i) {
    if (how == 0) {v.push_back(rangle(c.rng));}
    else if (how == 1) {a += c.rng.u(-3, 3); v.push_back(F2CPoint::mod_2pi(a));}
    else if (how == 2) {a += c.rng.u(-3, 3); v.push_back(std::atan2(std::sin(a), std::cos(a)));}
    else {a += c.rng.i(-8, 8) * M_PI / 4; v.push_back(a);}
  }
  auto w = F2CPoint::getAngContinuity(v);
  c.require(w.size() == v.size(), "size", w.size(), " angles of ", v.size());
  if (n) {c.check(w[0] == v[0], "first", "first angle ", v[0], " became ", w[0]);}
  for (int i = 0; i < n; ++i) {
    LD t = tol(v[i]) + tol(w[i]);
    c.check(circ(w[i], v[i]) <= t, "whole_turns", "angle ", i, ": ", v[i], " became ", w[i]);
    if (i) {
      c.check(std::fabs(LD(w[i]) - w[i - 1]) <= HPI + t + tol(w[i - 1]), "step", "angles ", w[i - 1], " and ", w[i], " follow each other (from ", v[i], ")");
      double one = F2CPoint::getAngContinuity(w[i - 1], v[i]);
      c.check(std::fabs(one - w[i]) <= t, "one", "continuing ", w[i - 1], " with ", v[i], " gives ", one, " alone and ", w[i], " in a list");
    }
  }
  c.count("lists"); c.count("angles", n); for (double x : v) {c.sig(x);}
}
SCENARIO(directions, 100000, 5000000) {
  auto& r = c.rng;
  double s = r.pick({1.0, 100.0, 1e6, 1e-3});
  auto vec = [&] {
    switch (r.i(0, 3)) {
      case 0: return P {r.u(-s, s), r.u(-s, s)};
      case 1: return P {s * r.i(-3, 3), s * r.i(-3, 3)};
      case 2: {double a = rangle(r); double l = r.logu(1e-3, 1e3) * s; return P {l * std::cos(a), l * std::sin(a)};}
      default: return P {s * r.i(-1, 1), s * r.pick({0.0, -0.0, 1e-12, -1e-12, 1e-3, 1.0, -1.0})};
    }
  };
  auto at = [] (LD x, LD y) {return std::atan2(y, x);};
  P u = vec(), v = vec();
  auto good = [&] (double got, LD want, LD t, const char* key) {
    c.check(got >= 0 && got < 2 * M_PI, key, "angle ", got, " out of range for ", g::str({u, v}));
    c.check(circ(got, want) <= t, key, "angle ", got, " expected ", double(want), " for ", g::str({u, v}));
  };
  if (u.x != 0 || u.y != 0) {good(cv::pt(u).getAngleFromPoint(), at(u.x, u.y), 1e-14L, "direction");}
  if ((u.x != 0 || u.y != 0) && (v.x != 0 || v.y != 0)) {
    LD nu = std::hypot(u.x, u.y), nv = std::hypot(v.x, v.y);
    LD x = LD(u.x) * v.x + LD(u.y) * v.y, y = LD(u.x) * v.y - LD(u.y) * v.x;
    (void)nu; (void)nv;
    good(cv::pt(u).getAngleFromPoints(cv::pt(v)), at(x, y), 1e-13L, "turn");
  }
  // three points, and points of lists
  int n = r.i(2, 7);
  std::vector<P> p {vec()};
  while (int(p.size()) < n) {P d = vec(); if (std::hypot(d.x, d.y) > 1e-3 * s) {p.push_back(p.back() + d);}}
  double big = 0;
  for (auto q : p) {big = std::max({big, std::fabs(q.x), std::fabs(q.y)});}
  F2CMultiPoint mp; F2CLineString ls;
  for (auto q : p) {mp.addPoint(q.x, q.y); ls.addPoint(q.x, q.y);}
  auto dir = [&] (int i) {return at(LD(p[i + 1].x) - p[i].x, LD(p[i + 1].y) - p[i].y);};
  auto lt = [&] (int i) {return 1e-14L + 4e-16L * big / g::dist(p[i], p[i + 1]);};
  for (int i = 0; i < n; ++i) {
    if (i + 1 < n) {good(mp.getOutAngle(i), dir(i), lt(i), "out_angle");} else {c.throws([&] {mp.getOutAngle(i);}, "out_last", "direction out of the last point");}
    if (i > 0) {good(mp.getInAngle(i), dir(i - 1), lt(i - 1), "in_angle");} else {c.throws([&] {mp.getInAngle(i);}, "in_first", "direction into the first point");}
    if (i > 0 && i + 1 < n) {
      LD t = lt(i) + lt(i - 1), half = circ(dir(i), dir(i - 1)) / 2;
      double pa = mp.getPointAngle(i);
      c.check(std::fabs(circ(pa, dir(i)) - half) <= t && std::fabs(circ(pa, dir(i - 1)) - half) <= t, "point_angle", "angle at point ", i, " is ", pa, " between ", double(dir(i - 1)), " and ", double(dir(i)));
      good(F2CPoint::getAngleFromPoints(cv::pt(p[i - 1]), cv::pt(p[i]), cv::pt(p[i + 1])), dir(i) - dir(i - 1), t, "turn3");
    }
  }
  good(mp.getPointAngle(0), dir(0), lt(0), "point_angle_first");
  good(mp.getPointAngle(n - 1), dir(n - 2), lt(n - 2), "point_angle_last");
  good(ls.startAngle(), dir(0), lt(0), "start_angle");
  good(ls.endAngle(), dir(n - 2), lt(n - 2), "end_angle");
  F2CMultiPoint none, single(std::vector<F2CPoint> {cv::pt(p[0])});
  c.throws([&] {single.getPointAngle(0);}, "single", "angle of a single point");
  c.throws([&] {none.getPointAngle(0);}, "none", "angle of no points");
  c.throws([&] {none.getOutAngle(0);}, "none", "angle out of no points");
  c.throws([&] {none.getInAngle(1);}, "none", "angle into no points");
  c.count("polylines"); c.sig(u.x); c.sig(u.y); c.sig(v.x); c.sig(p.back().x);
}
VF_MAIN

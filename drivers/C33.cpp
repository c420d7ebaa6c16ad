// NOTE: each piece is rebuilt as a cubic from four of its values; values, slopes and curvatures of neighbouring pieces are compared at every inner point
// QUICK: 16
#include "vfall.hpp"
#include "fields2cover/utils/spline.h"
using V = std::vector<double>;
namespace {
struct Cubic {double y, b, c, d;};   // around the left end, abscissa scaled to the piece
// cubic through values at t = 0, 1/3, 2/3, 1 (t = 0 is taken just right of the point)
Cubic piece(double f0, double f1, double f2, double f3) {
  return {f0, (-11 * f0 + 18 * f1 - 9 * f2 + 2 * f3) / 2, (18 * f0 - 45 * f1 + 36 * f2 - 9 * f3) / 2, (-9 * f0 + 27 * f1 - 27 * f2 + 9 * f3) / 2};
}
V xs(vf::Rng& r, int n, double& hmin, double& hmax) {
  V x {r.p(0.3) ? 0 : r.u(-1e3, 1e3)};
  hmin = 1e300; hmax = 0;
  int k = r.i(0, 3);
  double base = std::pow(10, r.u(-2, 2));
  for (int i = 1; i < n; ++i) {
    double h = k == 0 ? base : k == 1 ? base * r.u(0.5, 2) : k == 2 ? base * std::pow(10, r.u(-1.5, 1.5)) : r.p(0.5) ? base : base * 0.05;
    x.push_back(x.back() + h);
    h = x[i] - x[i - 1]; hmin = std::min(hmin, h); hmax = std::max(hmax, h);
  }
  return x;
}
std::string show(const V& x, const V& y) {std::string s; for (size_t i = 0; i < x.size() && i < 30; ++i) {s += vf::cat("(", x[i], ",", y[i], ")");} return s;}
}  // namespace
SCENARIO(smooth, 12000, 600000) {
  auto& r = c.rng;
  int n = r.p(0.2) ? 2 : r.p(0.2) ? 3 : r.p(0.1) ? r.i(30, 300) : r.i(4, 15);
  double hmin, hmax, ymax = 0;
  V x = xs(r, n, hmin, hmax), y;
  double amp = std::pow(10, r.u(-2, 4)); int k = r.i(0, 4);
  for (int i = 0; i < n; ++i) {
    y.push_back(k == 0 ? amp * r.u(-1, 1) : k == 1 ? amp * std::sin(x[i] / hmax) : k == 2 ? amp * (i % 2) : k == 3 ? amp * i * i : r.p(0.3) ? amp : 0);
    ymax = std::max(ymax, std::fabs(y.back()));
  }
  c.desc = show(x, y);
  f2c::CubicSpline s;
  if (r.p(0.3)) {   // used for other points before
    double a, b; V x2 = xs(r, r.i(2, 40), a, b), y2; for (size_t i = 0; i < x2.size(); ++i) {y2.push_back(r.u(-5, 5));}
    s.SetPoints(x2, y2, r.p(0.5));
    s.SetPoints(x, y);
  } else if (r.p(0.5)) {s = f2c::CubicSpline(x, y);} else {s.SetPoints(x, y, false);}
  f2c::CubicSpline t(x, y);
  double scale = ymax + 1e-300;
  std::vector<Cubic> p;
  double big = scale;
  for (int i = 0; i + 1 < n; ++i) {
    double h = x[i + 1] - x[i];
    double f1 = s(x[i] + h / 3), f2 = s(x[i] + 2 * h / 3);
    p.push_back(piece(y[i], f1, f2, y[i + 1]));
    big = std::max({big, std::fabs(f1), std::fabs(f2)});
    // the value just right of a point and in the middle is the one of the same cubic
    double m = (x[i] + h / 2), tm = (m - x[i]) / h, e = x[i] + h * 1e-4, te = (e - x[i]) / h;
    auto val = [&] (double u) {return p[i].y + u * (p[i].b + u * (p[i].c + u * p[i].d));};
    double tl = 1e-10 * std::max({scale, std::fabs(f1), std::fabs(f2)}) + 40 * 1e-16 * std::fabs(x[i]) / h * big;
    c.near(s(m), val(tm), tl, "middle", vf::cat("middle of piece ", i));
    c.near(s(e), val(te), tl, "right_of", vf::cat("right of point ", i));
    for (double u : {0.1, 0.5, 0.77}) {c.check(s(x[i] + u * h) == t(x[i] + u * h), "reset_differs", "a spline set again differs from a new one");}
    c.count("pieces");
  }
  for (int i = 0; i < n; ++i) {
    c.near(s(x[i]), y[i], 1e-10 * scale + 1e-13 * big, "through", vf::cat("point ", i));
    if (i == 0 || i + 1 == n) {continue;}
    double hl = x[i] - x[i - 1], hr = x[i + 1] - x[i], h = std::min(hl, hr);
    auto& a = p[i - 1]; auto& b = p[i];
    double sl = (a.b + 2 * a.c + 3 * a.d) / hl, sr = b.b / hr, cl = (2 * a.c + 6 * a.d) / hl / hl, cr = 2 * b.c / hr / hr;
    double mag = std::max({std::fabs(a.b), std::fabs(a.c), std::fabs(a.d), std::fabs(b.b), std::fabs(b.c), std::fabs(b.d), scale});
    double noise = 1e-10 * mag + 4e-15 * std::fabs(x[i]) / h * mag;
    c.near(sl, sr, noise / h, "slope", vf::cat("slope at point ", i));
    c.near(cl, cr, noise / h / h * 10, "curvature", vf::cat("curvature at point ", i));
    c.count("joints");
  }
  c.sig(n); c.sig(y[0]); c.sig(x[0]);
}
SCENARIO(lines, 6000, 200000) {
  auto& r = c.rng;
  int n = r.i(2, 30); double hmin, hmax;
  V x = xs(r, n, hmin, hmax), y;
  double a = r.p(0.2) ? 0 : r.u(-100, 100), b = r.u(-1e3, 1e3), mx = 1;
  for (double v : x) {y.push_back(a * v + b); mx = std::max(mx, std::fabs(y.back()));}
  bool mono = r.p(0.5);
  c.desc = vf::cat("mono ", mono, " ", show(x, y));
  f2c::CubicSpline s(x, y, mono);
  for (int i = 0; i < 40; ++i) {
    double v = r.u(x[0], x.back());
    c.near(s(v), a * v + b, 1e-11 * mx + 1e-12 * std::fabs(a) * hmax + 1e-13 * std::fabs(x.back() - x[0]) / hmin * mx, "line", "point of a straight line");
    c.count("samples");
  }
  for (int i = 0; i < n; ++i) {c.near(s(x[i]), y[i], 1e-11 * mx, "through", "point of a straight line");}
  c.sig(a); c.sig(n);
}
// points that only rise or only fall
SCENARIO(monotone, 9000, 400000) {
  auto& r = c.rng;
  int n = r.p(0.2) ? r.i(2, 3) : r.p(0.1) ? r.i(30, 200) : r.i(4, 15); double hmin, hmax;
  V x = xs(r, n, hmin, hmax), y {r.u(-10, 10)};
  bool down = r.p(0.5); int k = r.i(0, 3);
  double amp = std::pow(10, r.u(-2, 3));
  for (int i = 1; i < n; ++i) {
    double d = k == 0 ? r.u(0, 1) : k == 1 ? (r.p(0.4) ? 0 : r.u(0, 1)) : k == 2 ? std::pow(10, r.u(-4, 2)) : i == n / 2 ? 1 : r.p(0.3) ? 1e-3 : 0;
    y.push_back(y.back() + (down ? -1 : 1) * amp * d);
  }
  c.desc = vf::cat("down ", down, " ", show(x, y));
  f2c::CubicSpline s(x, y, true);
  double scale = std::max(std::fabs(y[0]), std::fabs(y.back())) + 1e-9, tol = 1e-9 * scale;
  for (int i = 0; i < n; ++i) {c.near(s(x[i]), y[i], tol, "through", vf::cat("point ", i));}
  for (int i = 0; i + 1 < n; ++i) {
    double last = y[i], h = x[i + 1] - x[i];
    for (int j = 1; j <= 16; ++j) {
      double v = s(x[i] + h * j / 16.0);
      c.check(down ? v <= last + tol : v >= last - tol, "turns", "goes the other way in piece ", i, ": ", v, " after ", last);
      c.check(v >= std::min(y[i], y[i + 1]) - tol && v <= std::max(y[i], y[i + 1]) + tol, "overshoots", "value ", v, " outside ", y[i], " .. ", y[i + 1]);
      last = v; c.count("samples");
    }
    // slopes of the neighbouring pieces agree
    if (i > 0) {
      double hl = x[i] - x[i - 1];
      auto a = piece(y[i - 1], s(x[i - 1] + hl / 3), s(x[i - 1] + 2 * hl / 3), y[i]), b = piece(y[i], s(x[i] + h / 3), s(x[i] + 2 * h / 3), y[i + 1]);
      double mag = scale + std::max({std::fabs(a.b), std::fabs(a.c), std::fabs(a.d), std::fabs(b.b), std::fabs(b.c), std::fabs(b.d)}), m = std::min(h, hl);
      c.near((a.b + 2 * a.c + 3 * a.d) / hl, b.b / h, (1e-10 * mag + 4e-15 * std::fabs(x[i]) / m * mag) / m, "slope", vf::cat("slope at point ", i));
    }
  }
  c.sig(n); c.sig(y.back()); c.sig(x[0]);
}
SCENARIO(refused, 1500, 30000) {
  auto& r = c.rng;
  int n = r.i(3, 12); double a, b;
  V x = xs(r, n, a, b), y(n, 1.0);
  auto no = [&] (const V& xx, const V& yy, const char* what) {
    bool mono = r.p(0.5);
    c.throws([&] {f2c::CubicSpline s(xx, yy, mono);}, "accepted", what, " given at creation ", show(xx, xx));
    c.throws([&] {f2c::CubicSpline s(x, y); s.SetPoints(xx, yy, mono);}, "accepted_set", what, " given later ", show(xx, xx));
    c.count("refusals");
  };
  size_t k = r.next() % (n - 1);
  V u = x; std::swap(u[k], u[k + 1]); no(u, y, "unsorted");
  u = x; u[k + 1] = u[k]; no(u, y, "repeated");
  u = x; std::reverse(u.begin(), u.end()); no(u, y, "decreasing");
  u = x; u.pop_back(); no(u, y, "short x"); no(x, V(n + 1, 0.0), "long y"); no(x, {}, "no y");
  no({1}, {1}, "one point"); no({}, {}, "no point");
  no({2, 1}, {0, 1}, "two falling points"); no({1, 1}, {0, 1}, "two equal points");
  try {f2c::CubicSpline s; s(r.u(-1, 1));} catch (const std::exception&) {}
  c.sig(n); c.sig(x[0]);
}
VF_MAIN

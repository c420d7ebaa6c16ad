// Workload generators for fields.
#pragma once
#include "vf.hpp"
#include "geom.hpp"

namespace gen {
using vf::Rng;
using g::P; using g::Ring; using g::Poly; using g::MPoly;

// unit-size shapes around the origin, CCW, open
inline Ring convex(Rng& r, int n) {
  for (;;) {
    std::vector<P> p;
    double ea = r.u(0.4, 1), eb = r.u(0.4, 1), th = r.u(0, 2 * g::PI);
    for (int i = 0; i < n; ++i) {
      double a = (i + r.u(0.1, 0.9)) * 2 * g::PI / n;
      p.push_back(g::rot({ea * std::cos(a), eb * std::sin(a)}, th));
    }
    Ring h = g::hull(p);
    if (h.size() >= 3 && g::area(h) > 0.15) {return h;}
  }
}
inline Ring star(Rng& r, int n, double lo = 0.35) {
  Ring p;
  for (int i = 0; i < n; ++i) {
    double a = (i + r.u(0.15, 0.85)) * 2 * g::PI / n, q = r.u(lo, 1);
    p.push_back({q * std::cos(a), q * std::sin(a)});
  }
  return p;
}
inline Ring rect(Rng& r) {double w = r.u(0.3, 1), h = r.u(0.3, 1); return {{-w, -h}, {w, -h}, {w, h}, {-w, h}};}
// skyline: monotone in x
inline Ring skyline(Rng& r, int n) {
  Ring p {{-1, -1}, {1, -1}};
  double x = 1, prev = -9;
  for (int i = 0; i < n; ++i) {
    double x2 = 1 - 2.0 * (i + 1) / n, h;
    do {h = -1 + 2.0 * r.i(1, 8) / 8.0;} while (h == prev);
    prev = h;
    p.push_back({x, h}); p.push_back({x2, h});
    x = x2;
  }
  return p;
}
inline Ring comb(Rng& r, int n) {   // teeth upwards
  Ring p {{-1, -1}, {1, -1}};
  double base = r.u(-0.8, -0.4);
  double w = 2.0 / (2 * n - 1);
  for (int i = 0; i < n; ++i) {
    double x1 = 1 - 2 * i * w, x0 = x1 - w, h = r.u(0.2, 1);
    p.push_back({x1, h}); p.push_back({x0, h});
    if (i + 1 < n) {p.push_back({x0, base}); p.push_back({x0 - w, base});}
  }
  return p;
}
inline Ring cshape(Rng& r) {
  double t = r.u(0.3, 0.6), gp = r.u(0.2, 0.5);
  return {{-1, -1}, {1, -1}, {1, -gp}, {-1 + t, -gp}, {-1 + t, gp}, {1, gp}, {1, 1}, {-1, 1}};
}
inline Ring lshape(Rng& r) {
  double a = r.u(-0.5, 0.5), b = r.u(-0.5, 0.5);
  return {{-1, -1}, {1, -1}, {1, b}, {a, b}, {a, 1}, {-1, 1}};
}
inline Ring spiralRect(Rng& r) {
  double t = 0.3;
  Ring p {{-1, -1}, {1, -1}, {1, 1}, {-0.7, 1}, {-0.7, -0.4}, {0.4, -0.4}, {0.4, 0.4}, {0.1, 0.4}, {0.1, -0.1}, {-0.4, -0.1},
    {-0.4, 0.7}, {0.7, 0.7}, {0.7, -0.7}, {-1, -0.7}};
  (void)t; (void)r;
  return p;
}
inline Ring hourglass(Rng& r) {
  double k = r.u(0.1, 0.4);
  return {{-1, -1}, {1, -1}, {k, 0}, {1, 1}, {-1, 1}, {-k, 0}};
}

struct Opt {
  bool holes {true}, multi {true}, convexOnly {false}, offsets {true}, decorate {true}, adjacent {false};
  double minSize {20}, maxSize {600};   // radius range
  int maxN {12};
  bool rotate {true};
};

struct Gen {MPoly m; std::string kind; double size; bool isConvex; P off; bool hasHoles; double maxAbs;};

inline Ring unitShape(Rng& r, const Opt& o, std::string& kind, bool& cvx) {
  cvx = false;
  int k = o.convexOnly ? r.i(0, 1) : r.i(0, 10);
  switch (k) {
    case 0: kind = "convex"; cvx = true; return convex(r, r.i(3, o.maxN));
    case 1: kind = "rect"; cvx = true; return rect(r);
    case 2: kind = "comb"; return comb(r, r.i(2, 5));
    case 3: kind = "cshape"; return cshape(r);
    case 4: kind = "lshape"; return lshape(r);
    case 5: kind = "spiral"; return spiralRect(r);
    case 6: kind = "hourglass"; return hourglass(r);
    case 7: kind = "skyline"; return skyline(r, r.i(2, 7));
    default: {
      Ring s;
      do {s = star(r, r.i(4, o.maxN), k == 8 ? 0.2 : 0.5);} while (!g::ringSimple(s) || g::area(s) < 0.2);
      kind = "star"; cvx = g::convex(s); return s;
    }
  }
}
inline void decorate(Rng& r, Ring& p) {
  if (r.p(0.3)) {   // collinear vertices (exactly halfway in binary)
    size_t i = r.next() % p.size();
    P a = p[i], b = p[(i + 1) % p.size()];
    p.insert(p.begin() + i + 1, {(a.x + b.x) / 2, (a.y + b.y) / 2});
  }
  if (r.p(0.5)) {std::rotate(p.begin(), p.begin() + r.next() % p.size(), p.end());}
  if (r.p(0.4)) {std::reverse(p.begin(), p.end());}
}
inline Poly addHoles(Rng& r, Poly p, int n, double size) {
  g::Box b = g::box(MPoly {p});
  for (int t = 0, done = 0; t < 60 && done < n; ++t) {
    P c {r.u(b.x0, b.x1), r.u(b.y0, b.y1)};
    if (!g::inside(c, p)) {continue;}
    double d = g::distBorder(c, p);
    if (d < 0.04 * size) {continue;}
    double R = d * r.u(0.25, 0.75);
    Ring h;
    int k = r.i(0, 2);
    if (k == 0) {h = star(r, r.i(3, 8), 0.5);}
    else if (k == 1) {h = {{-0.7, -0.7}, {0.7, -0.7}, {0.7, 0.7}, {-0.7, 0.7}};}
    else {h = convex(r, r.i(3, 7));}
    if (!g::ringSimple(h) || g::area(h) < 0.1) {continue;}
    for (auto& q : h) {q = c + q * R;}
    std::reverse(h.begin(), h.end());
    decorate(r, h);
    p.rings.push_back(h);
    ++done;
  }
  return p;
}
inline Gen field(Rng& r, const Opt& o = Opt()) {
  Gen f;
  f.size = r.logu(o.minSize, o.maxSize);
  int nc = (o.multi && r.p(0.3)) ? r.i(2, 4) : 1;
  f.isConvex = false; f.hasHoles = false;
  double rotA = 0;
  if (o.rotate) {int k = r.i(0, 3); rotA = k == 0 ? 0 : k == 1 ? g::PI / 2 * r.i(0, 3) : r.u(0, 2 * g::PI);}
  for (int i = 0; i < nc; ++i) {
    std::string k; bool cv;
    Poly p;
    Ring u = unitShape(r, o, k, cv);
    for (auto& q : u) {q = q * f.size;}
    if (rotA != 0) {for (auto& q : u) {q = g::rot(q, rotA);}}
    if (o.decorate) {decorate(r, u);}
    p.rings.push_back(u);
    if (o.holes && r.p(0.35)) {p = addHoles(r, p, r.i(1, 3), f.size); k += "+holes" + std::to_string(p.rings.size() - 1);}
    if (p.rings.size() > 1) {f.hasHoles = true; cv = false;}
    P sh {(i % 2) * 3.1 * f.size, (i / 2) * 3.1 * f.size};
    for (auto& rr : p.rings) {for (auto& q : rr) {q = q + sh;}}
    f.m.push_back(p);
    f.kind += (i ? "|" : "") + k;
    f.isConvex = nc == 1 && cv;
  }
  if (o.offsets) {
    switch (r.i(0, 5)) {
      case 0: f.off = {r.u(-2, 2) * f.size, r.u(-2, 2) * f.size}; break;
      case 1: f.off = {500000 + r.u(-3e5, 3e5), r.u(1e6, 9e6)}; break;
      case 2: f.off = {-r.u(1, 5) * f.size, -r.u(1, 5) * f.size}; break;
      default: f.off = {0, 0};
    }
  }
  for (auto& p : f.m) {for (auto& rr : p.rings) {for (auto& q : rr) {q = q + f.off;}}}
  g::Box b = g::box(f.m);
  f.maxAbs = std::max({std::fabs(b.x0), std::fabs(b.x1), std::fabs(b.y0), std::fabs(b.y1)});
  return f;
}
// a point strictly inside with some clearance, or false
inline bool interiorPoint(Rng& r, const MPoly& m, P& out, double clear = 0) {
  g::Box b = g::box(m);
  for (int t = 0; t < 200; ++t) {
    P c {r.u(b.x0, b.x1), r.u(b.y0, b.y1)};
    if (g::inside(c, m) && g::distBorder(c, m) > clear) {out = c; return true;}
  }
  return false;
}
inline double angle(Rng& r) {   // generic or special
  switch (r.i(0, 5)) {
    case 0: return g::PI / 2 * r.i(-4, 8);
    case 1: return g::PI / 180 * r.i(-360, 720);
    case 2: return r.u(-20, 20);
    default: return r.u(0, 2 * g::PI);
  }
}
}  // namespace gen

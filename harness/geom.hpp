// Planar geometry written from scratch: the oracle side. No GEOS, no OGR.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <string>
#include <sstream>
#include <iomanip>
#include <vector>

namespace g {
typedef long double ld;
const double PI = 3.14159265358979323846;

struct P {double x {0}, y {0};};
inline P operator+(P a, P b) {return {a.x + b.x, a.y + b.y};}
inline P operator-(P a, P b) {return {a.x - b.x, a.y - b.y};}
inline P operator*(P a, double k) {return {a.x * k, a.y * k};}
inline double dot(P a, P b) {return a.x * b.x + a.y * b.y;}
inline double crs(P a, P b) {return a.x * b.y - a.y * b.x;}
inline double norm(P a) {return std::hypot(a.x, a.y);}
inline double dist(P a, P b) {return norm(a - b);}
inline bool eq(P a, P b) {return a.x == b.x && a.y == b.y;}
inline P rot(P p, double ang, P c = {0, 0}) {
  ld s = sinl(ang), k = cosl(ang), dx = ld(p.x) - c.x, dy = ld(p.y) - c.y;
  return {double(c.x + dx * k - dy * s), double(c.y + dx * s + dy * k)};
}
inline P dirOf(double ang) {return {std::cos(ang), std::sin(ang)};}

typedef std::vector<P> Ring;            // stored open or closed; treated as closed
struct Poly {std::vector<Ring> rings;};  // [0] outer, rest holes
typedef std::vector<Poly> MPoly;

inline Ring open(Ring r) {
  while (r.size() > 1 && eq(r.front(), r.back())) {r.pop_back();}
  return r;
}
inline ld sarea(const Ring& r0) {       // signed, CCW positive
  Ring r = open(r0);
  ld a = 0;
  if (r.size() < 3) {return 0;}
  P o = r[0];
  for (size_t i = 0; i < r.size(); ++i) {
    P p = r[i] - o, q = r[(i + 1) % r.size()] - o;
    a += ld(p.x) * q.y - ld(p.y) * q.x;
  }
  return a / 2;
}
inline double area(const Ring& r) {return double(fabsl(sarea(r)));}
inline double area(const Poly& p) {
  double a = 0;
  for (size_t i = 0; i < p.rings.size(); ++i) {a += (i ? -1 : 1) * area(p.rings[i]);}
  return a;
}
inline double area(const MPoly& m) {double a = 0; for (auto& p : m) {a += area(p);} return a;}
inline double length(const std::vector<P>& l) {
  ld s = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {s += dist(l[i], l[i + 1]);}
  return double(s);
}
inline double perimeter(const Ring& r0) {Ring r = open(r0); if (r.size() < 2) {return 0;} r.push_back(r[0]); return length(r);}
inline double perimeter(const MPoly& m) {
  double s = 0;
  for (auto& p : m) {for (auto& r : p.rings) {s += perimeter(r);}}
  return s;
}
template <class F> void edges(const Ring& r0, F f) {
  Ring r = open(r0);
  for (size_t i = 0; i < r.size(); ++i) {f(r[i], r[(i + 1) % r.size()]);}
}
template <class F> void edges(const Poly& p, F f) {for (auto& r : p.rings) {edges(r, f);}}
template <class F> void edges(const MPoly& m, F f) {for (auto& p : m) {edges(p, f);}}
inline size_t nEdges(const MPoly& m) {size_t n = 0; edges(m, [&](P, P) {++n;}); return n;}

struct Box {double x0 {INFINITY}, y0 {INFINITY}, x1 {-INFINITY}, y1 {-INFINITY};
  void add(P p) {x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y);}
  double diag() const {return x1 < x0 ? 0 : std::hypot(x1 - x0, y1 - y0);}
};
inline Box box(const MPoly& m) {Box b; edges(m, [&](P p, P) {b.add(p);}); return b;}
inline Box box(const std::vector<P>& l) {Box b; for (auto p : l) {b.add(p);} return b;}

inline P closestOnSeg(P p, P a, P b) {
  P v = b - a;
  double L = dot(v, v);
  if (L == 0) {return a;}
  double t = std::max(0.0, std::min(1.0, dot(p - a, v) / L));
  return a + v * t;
}
inline double distSeg(P p, P a, P b) {return dist(p, closestOnSeg(p, a, b));}
inline double distLine(P p, const std::vector<P>& l) {
  double d = INFINITY;
  if (l.size() == 1) {return dist(p, l[0]);}
  for (size_t i = 0; i + 1 < l.size(); ++i) {d = std::min(d, distSeg(p, l[i], l[i + 1]));}
  return d;
}
template <class S> double distBorder(P p, const S& s) {
  double d = INFINITY;
  edges(s, [&](P a, P b) {d = std::min(d, distSeg(p, a, b));});
  return d;
}
// even-odd; arbitrary on the border
inline bool inside(P p, const Ring& r) {
  bool in = false;
  edges(r, [&](P a, P b) {
    if ((a.y > p.y) != (b.y > p.y)) {
      double x = a.x + (b.x - a.x) * ((p.y - a.y) / (b.y - a.y));
      if (p.x < x) {in = !in;}
    }
  });
  return in;
}
inline bool inside(P p, const Poly& q) {
  bool in = false;
  for (auto& r : q.rings) {if (inside(p, r)) {in = !in;}}
  return in;
}
inline bool inside(P p, const MPoly& m) {for (auto& q : m) {if (inside(p, q)) {return true;}} return false;}

// proper or touching crossing of two segments; parameters on both
inline bool segX(P a, P b, P c, P d, double& t, double& u) {
  P r = b - a, s = d - c;
  double den = crs(r, s);
  if (den == 0) {return false;}
  t = crs(c - a, s) / den;
  u = crs(c - a, r) / den;
  return t >= 0 && t <= 1 && u >= 0 && u <= 1;
}
inline bool ringSimple(const Ring& r0) {
  Ring r = open(r0);
  size_t n = r.size();
  if (n < 3) {return false;}
  for (size_t i = 0; i < n; ++i) {
    P a = r[i], b = r[(i + 1) % n];
    for (size_t j = i + 1; j < n; ++j) {
      P c = r[j], d = r[(j + 1) % n];
      bool adj = (j == i + 1) || (i == 0 && j == n - 1);
      double t, u;
      if (adj) {
        // neighbouring edges may only share the common vertex
        P common = (j == i + 1) ? b : a;
        P e1 = (j == i + 1) ? a : b, e2 = (j == i + 1) ? d : c;
        P v = e1 - common, w = e2 - common;
        if (std::fabs(crs(v, w)) <= 1e-15 * norm(v) * norm(w) && dot(v, w) > 0) {return false;}
      } else if (segX(a, b, c, d, t, u)) {
        return false;
      }
    }
  }
  return true;
}
// all turns of one sign (collinear vertices allowed); assumes a simple ring
inline bool convex(const Ring& r0, double tol = 1e-9) {
  Ring r = open(r0);
  int s = 0;
  size_t n = r.size();
  if (n < 3) {return false;}
  for (size_t i = 0; i < n; ++i) {
    P a = r[i], b = r[(i + 1) % n], c = r[(i + 2) % n];
    double z = crs(b - a, c - b), m = norm(b - a) * norm(c - b);
    if (std::fabs(z) <= tol * m) {continue;}
    int k = z > 0 ? 1 : -1;
    if (s && k != s) {return false;}
    s = k;
  }
  return s != 0;
}
inline Ring hull(std::vector<P> p) {
  std::sort(p.begin(), p.end(), [](P a, P b) {return a.x < b.x || (a.x == b.x && a.y < b.y);});
  Ring h;
  for (int pass = 0; pass < 2; ++pass) {
    size_t base = h.size();
    for (auto q : p) {
      while (h.size() >= base + 2 && crs(h[h.size() - 1] - h[h.size() - 2], q - h.back()) <= 0) {h.pop_back();}
      h.push_back(q);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h;
}

// Area of {point : f(membership bits)}; region i is the union of its polygons
// (each polygon even-odd). Exact up to rounding: between two consecutive event
// ordinates no edges cross, so each strip is a list of trapezoids.
template <class F> double boolArea(const std::vector<const MPoly*>& regs, F f) {
  struct E {double x0, y0, x1, y1; int poly;};
  std::vector<E> es;
  std::vector<int> polyReg;
  Box b;
  for (auto* m : regs) {edges(*m, [&](P p, P) {b.add(p);});}
  if (!(b.x1 >= b.x0)) {return 0;}
  P o {(b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2};
  std::vector<double> ys;
  for (size_t r = 0; r < regs.size(); ++r) {
    for (auto& p : *regs[r]) {
      int id = int(polyReg.size());
      polyReg.push_back(int(r));
      edges(p, [&](P a, P c) {
        a = a - o; c = c - o;
        ys.push_back(a.y); ys.push_back(c.y);
        if (a.y == c.y) {return;}
        if (a.y > c.y) {std::swap(a, c);}
        es.push_back({a.x, a.y, c.x, c.y, id});
      });
    }
  }
  std::sort(es.begin(), es.end(), [](const E& a, const E& c) {return a.y0 < c.y0;});
  for (size_t i = 0; i < es.size(); ++i) {
    for (size_t j = i + 1; j < es.size() && es[j].y0 < es[i].y1; ++j) {
      if (std::max(es[i].x0, es[i].x1) < std::min(es[j].x0, es[j].x1)) {continue;}
      if (std::min(es[i].x0, es[i].x1) > std::max(es[j].x0, es[j].x1)) {continue;}
      P a {es[i].x0, es[i].y0}, r {es[i].x1 - a.x, es[i].y1 - a.y};
      P c {es[j].x0, es[j].y0}, s {es[j].x1 - c.x, es[j].y1 - c.y};
      double den = crs(r, s);
      if (den == 0) {continue;}
      double t = crs(c - a, s) / den, u = crs(c - a, r) / den;
      if (t > -1e-9 && t < 1 + 1e-9 && u > -1e-9 && u < 1 + 1e-9) {ys.push_back(a.y + t * r.y);}
    }
  }
  std::sort(ys.begin(), ys.end());
  ys.erase(std::unique(ys.begin(), ys.end()), ys.end());
  ld total = 0;
  std::vector<std::pair<double, int>> xs;
  std::vector<char> par(polyReg.size());
  std::vector<int> cnt(regs.size());
  for (size_t k = 0; k + 1 < ys.size(); ++k) {
    double ya = ys[k], yb = ys[k + 1], ym = ya + (yb - ya) / 2;
    if (!(yb - ya > 0)) {continue;}
    xs.clear();
    for (auto& e : es) {
      if (e.y0 > ym) {break;}
      if (e.y1 > ym) {xs.push_back({e.x0 + (e.x1 - e.x0) * ((ym - e.y0) / (e.y1 - e.y0)), e.poly});}
    }
    std::sort(xs.begin(), xs.end());
    std::fill(par.begin(), par.end(), 0);
    std::fill(cnt.begin(), cnt.end(), 0);
    for (size_t i = 0; i + 1 < xs.size(); ++i) {
      int p = xs[i].second;
      par[p] ^= 1;
      cnt[polyReg[p]] += par[p] ? 1 : -1;
      uint32_t bits = 0;
      for (size_t r = 0; r < cnt.size(); ++r) {if (cnt[r] > 0) {bits |= 1u << r;}}
      if (f(bits)) {total += ld(xs[i + 1].first - xs[i].first) * (yb - ya);}
    }
  }
  return double(total);
}
inline double areaSymDiff(const MPoly& a, const MPoly& b) {
  return boolArea({&a, &b}, [](uint32_t m) {return m == 1 || m == 2;});
}
inline double areaDiff(const MPoly& a, const MPoly& b) {
  return boolArea({&a, &b}, [](uint32_t m) {return m == 1;});
}
inline double areaInter(const MPoly& a, const MPoly& b) {
  return boolArea({&a, &b}, [](uint32_t m) {return m == 3;});
}
inline double areaUnion(const MPoly& a, const MPoly& b) {
  return boolArea({&a, &b}, [](uint32_t m) {return m != 0;});
}
inline double areaUnion(const MPoly& a) {
  return boolArea({&a}, [](uint32_t m) {return m != 0;});
}

// Stretches (parameters on a->b, line of infinite length if inf) inside a region
inline std::vector<std::pair<double, double>> clip(P a, P b, const MPoly& m, bool inf = false, double minlen = 0) {
  P d = b - a;
  double L = norm(d);
  std::vector<double> ts;
  edges(m, [&](P p, P q) {
    double sp = crs(d, p - a), sq = crs(d, q - a);
    if ((sp > 0) != (sq > 0) || sp == 0 || sq == 0) {
      if (sp == sq) {ts.push_back(dot(p - a, d) / (L * L)); ts.push_back(dot(q - a, d) / (L * L)); return;}
      double k = sp / (sp - sq);
      if (k < 0 || k > 1) {return;}
      P x = p + (q - p) * k;
      ts.push_back(dot(x - a, d) / (L * L));
    }
  });
  if (!inf) {
    ts.push_back(0); ts.push_back(1);
  }
  std::sort(ts.begin(), ts.end());
  std::vector<std::pair<double, double>> out;
  for (size_t i = 0; i + 1 < ts.size(); ++i) {
    double t0 = ts[i], t1 = ts[i + 1];
    if (!inf) {t0 = std::max(t0, 0.0); t1 = std::min(t1, 1.0);}
    if (!((t1 - t0) * L > minlen) || t1 <= t0) {continue;}
    if (inside(a + d * ((t0 + t1) / 2), m)) {
      if (!out.empty() && std::fabs(out.back().second - t0) * L <= 1e-9 * (1 + L)) {out.back().second = t1;}
      else {out.push_back({t0, t1});}
    }
  }
  return out;
}
inline double clipLen(P a, P b, const MPoly& m) {
  double s = 0;
  for (auto& i : clip(a, b, m)) {s += (i.second - i.first) * dist(a, b);}
  return s;
}

// Half-plane clipping: keep the left side of a->b moved inwards by d
inline Ring cutHalf(const Ring& r0, P a, P b, double d) {
  Ring r = open(r0), out;
  P n {-(b.y - a.y), b.x - a.x};
  double L = norm(n);
  if (L == 0) {return r;}
  n = n * (1 / L);
  auto side = [&](P p) {return dot(p - a, n) - d;};
  for (size_t i = 0; i < r.size(); ++i) {
    P p = r[i], q = r[(i + 1) % r.size()];
    double sp = side(p), sq = side(q);
    if (sp >= 0) {out.push_back(p);}
    if ((sp >= 0) != (sq >= 0)) {out.push_back(p + (q - p) * (sp / (sp - sq)));}
  }
  return out;
}
// erosion (d > 0) of a convex ring: exact mitred offset
inline Ring erodeConvex(Ring r, double d) {
  r = open(r);
  if (sarea(r) < 0) {std::reverse(r.begin(), r.end());}
  Ring out = r;
  for (size_t i = 0; i < r.size(); ++i) {
    out = cutHalf(out, r[i], r[(i + 1) % r.size()], d);
    if (out.size() < 3) {return {};}
  }
  return out;
}

template <class S> S mapP(S s, const std::function<P(P)>& f);
inline Ring mapR(Ring r, const std::function<P(P)>& f) {for (auto& p : r) {p = f(p);} return r;}
inline MPoly mapM(MPoly m, const std::function<P(P)>& f) {
  for (auto& p : m) {for (auto& r : p.rings) {r = mapR(r, f);}}
  return m;
}
inline std::string str(const std::vector<P>& r) {
  std::ostringstream o; o << std::setprecision(17) << "(";
  for (size_t i = 0; i < r.size(); ++i) {o << (i ? "," : "") << r[i].x << " " << r[i].y;}
  o << ")"; return o.str();
}
inline std::string str(const MPoly& m) {
  std::ostringstream o; o << "[";
  for (auto& p : m) {o << "("; for (auto& r : p.rings) {o << str(r);} o << ")";}
  o << "]"; return o.str();
}
// angle helpers
inline double mod2pi(double a) {
  ld t = 2 * acosl(-1.0L);
  ld r = fmodl(ld(a), t);
  if (r < 0) {r += t;}
  return double(r);
}
inline double angDist(double a, double b) {   // distance on the circle
  ld t = 2 * acosl(-1.0L);
  ld r = fmodl(ld(a) - ld(b), t);
  if (r < 0) {r += t;}
  return double(std::min(r, t - r));
}
}  // namespace g

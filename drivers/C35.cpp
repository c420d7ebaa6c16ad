// BUILD: shim
// QUICK: 1.5
// NOTE: paths are rebuilt as lists of sections in an independent model; positions along the path are read from the model
#include "vfall.hpp"
#include "swl.hpp"
#include "files.hpp"
using namespace g;
namespace t = f2c::types;
using Dir = t::PathDirection; using Type = t::PathSectionType;
namespace {
struct S {double x, y, z, ang, len, vel; int dir, type;};
using M = std::vector<S>;
const double kPi2 = 2 * g::PI;
double m2(double a) {a = std::fmod(a, kPi2); return a < 0 ? a + kPi2 : a;}
P endOf(const S& s) {return P {s.x, s.y} + g::dirOf(s.ang) * (s.len * s.dir);}
F2CPath make(vf::Rng& r, const M& m) {
  F2CPath p;
  int how = r.i(0, 3);
  std::vector<t::PathState> v;
  for (auto& s : m) {
    t::PathState q; q.point = F2CPoint(s.x, s.y, s.z); q.angle = s.ang; q.len = s.len; q.dir = Dir(s.dir); q.type = Type(s.type); q.velocity = s.vel;
    if (how == 0) {p.addState(q);}
    else if (how == 1) {p.addState(F2CPoint(s.x, s.y, s.z), s.ang, s.len, Dir(s.dir), Type(s.type), s.vel);}
    v.push_back(q);
  }
  if (how == 2) {p.setStates(v);}
  if (how == 3) {p.getStates().resize(v.size()); for (size_t i = 0; i < v.size(); ++i) {r.p(0.5) ? p.setState(i, v[i]) : (void)(p[i] = v[i]);}}
  return p;
}
M of(const F2CPath& p) {
  M m;
  F2CPath& w = const_cast<F2CPath&>(p);
  size_t k = 0;
  if (p.getStates().size() != p.size()) {throw std::logic_error("getStates and size differ");}
  for (auto& s : p) {
    if (&p.getState(k) != &s || &w.getState(k) != &s || &p.getStates()[k] != &s || &p[k] != &s) {throw std::logic_error("state " + std::to_string(k) + " is another one by its number");}
    ++k;
    m.push_back({s.point.getX(), s.point.getY(), s.point.getZ(), s.angle, s.len, s.velocity, int(s.dir), int(s.type)});}
  return m;
}
std::string show(const M& m) {std::string o; for (size_t i = 0; i < m.size() && i < 12; ++i) {auto& s = m[i]; o += vf::cat("[", s.x, ",", s.y, ",", s.z, " a", s.ang, " l", s.len, " v", s.vel, " d", s.dir, " t", s.type, "]");} return o;}
bool same(const M& a, const M& b, double pt, double at, double lt) {
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {
    double da = std::fabs(m2(a[i].ang) - m2(b[i].ang)); da = std::min(da, kPi2 - da);
    if (!(std::fabs(a[i].x - b[i].x) <= pt && std::fabs(a[i].y - b[i].y) <= pt && std::fabs(a[i].z - b[i].z) <= pt && da <= at && std::fabs(a[i].len - b[i].len) <= lt
        && a[i].vel == b[i].vel && a[i].dir == b[i].dir && a[i].type == b[i].type)) {return false;}
  }
  return true;
}
double total(const M& m) {double l = 0; for (auto& s : m) {l += s.len;} return l;}
double span(const M& m) {double v = 1; for (auto& s : m) {v = std::max({v, std::fabs(s.x), std::fabs(s.y), std::fabs(s.z), s.len});} return v;}
// sections that follow each other without gaps
M someSections(vf::Rng& r, int n, bool heights) {
  M m;
  double sc = std::pow(10, r.u(-1, 3));
  P p = r.p(0.2) ? P {r.u(1e5, 8e5), r.u(1e6, 6e6)} : P {r.u(-100, 100), r.u(-100, 100)};
  double z = heights && r.p(0.5) ? r.u(-50, 500) : 0;
  double ang = r.p(0.3) ? g::PI / 2 * r.i(0, 3) : r.u(0, kPi2);
  bool tenths = r.p(0.2);
  while (int(m.size()) < n) {
    int k = r.i(0, 4), cnt = k == 0 ? r.i(1, 20) : 1, type = r.i(1, 3), dir = r.p(0.25) ? -1 : 1;
    double vel = r.logu(0.2, 5), turn = k == 0 ? r.u(-0.4, 0.4) : 0;
    if (k == 1) {ang = m2(ang + r.u(-3.1, 3.1));}
    if (k == 4 && r.p(0.3)) {ang += r.p(0.5) ? kPi2 : -kPi2;}
    for (int i = 0; i < cnt && int(m.size()) < n; ++i) {
      double len = r.p(0.06) ? 0 : r.p(0.04) ? 1e-16 : tenths ? 0.1 * r.i(1, 9) : k == 0 ? sc * r.u(0.01, 0.1) : sc * r.u(0.1, 2);
      S s {p.x, p.y, z, ang, len, vel, dir, type};
      m.push_back(s); p = endOf(s);
      ang += turn;
      if (!r.p(0.1)) {ang = m2(ang);}
    }
  }
  return m;
}
// the state after a distance: section and offset; near a joint either side is fine
P modelAt(const M& m, double d, std::set<size_t>* secs, double tol) {
  double u = 0; P res {m[0].x, m[0].y}; bool done = false;
  for (size_t i = 0; i < m.size(); ++i) {
    double e = u + m[i].len;
    if (secs && d >= u - tol && d <= e + tol) {secs->insert(i);}
    if (!done && (d <= e || i + 1 == m.size())) {
      res = P {m[i].x, m[i].y} + g::dirOf(m[i].ang) * (std::min(d - u, m[i].len) * m[i].dir); done = true;
    }
    u = e;
  }
  return res;
}
int nSec(vf::Rng& r) {return r.p(0.1) ? 1 : r.p(0.1) ? r.i(40, 150) : r.i(2, 15);}
void checkAlong(vf::Case& c, const F2CPath& p, const M& m, const char* what) {
  auto& r = c.rng;
  double L = total(m), sp = span(m), tol = 1e-12 * (sp + L) * (m.size() + 4);
  c.near(p.length(), L, tol, "length", what);
  double tt = 0; for (auto& s : m) {tt += s.len / s.vel;}
  c.near(p.getTaskTime(), tt, 1e-12 * (1 + tt) * m.size(), "task_time", what);
  P st {m[0].x, m[0].y}, en = endOf(m.back());
  c.near(dist(cv::of(p.atStart()), st), 0, tol, "start", what);
  c.near(dist(cv::of(p.atEnd()), en), 0, tol, "end", what);
  c.near(p.atEnd().getZ(), m.back().z, 0, "end_height", what);
  std::vector<double> ds {0, L, L * 0.5, -1, L + 1, L * (1 - 1e-15), L * (1 + 1e-15)};
  double u = 0; for (auto& s : m) {u += s.len; if (r.p(0.5)) {ds.push_back(u); ds.push_back(u - s.len * r.u(0, 1));}}
  double pd = 0; F2CPoint pp = p.atStart(); bool first = true;
  std::sort(ds.begin(), ds.end());
  for (double d : ds) {
    auto s = p.at(d);
    double k = std::min(std::max(d, 0.0), L);
    std::set<size_t> secs; P w = modelAt(m, k, &secs, tol);
    if (!c.near(dist(cv::of(s.point), w), 0, 2 * tol, "at_position", what, " after ", d, " of ", L)) {return;}
    bool ok = false; for (size_t i : secs) {ok |= s.angle == m[i].ang && s.velocity == m[i].vel && int(s.dir) == m[i].dir && int(s.type) == m[i].type && s.point.getZ() == m[i].z;}
    c.check(ok, "at_state", what, " after ", d, " of ", L, ": not a state of the section there");
    if (!first) {c.check(dist(cv::of(pp), cv::of(s.point)) <= k - pd + 4 * tol, "at_jump", what, ": moves more than ", k - pd, " between ", pd, " and ", k);}
    pp = s.point; pd = k; first = false;
    c.count("positions");
  }
  // as a line
  auto ln = cv::of(p.toLineString());
  if (c.check(ln.size() == m.size() + 1, "line_size", what)) {
    bool ok = true; for (size_t i = 0; i < m.size(); ++i) {ok &= ln[i].x == m[i].x && ln[i].y == m[i].y;}
    c.check(ok && dist(ln.back(), en) <= tol, "line_points", what);
  }
  double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY;
  for (auto& s : m) {x0 = std::min(x0, s.x); x1 = std::max(x1, s.x); y0 = std::min(y0, s.y); y1 = std::max(y1, s.y);}
  c.check(p.getDimMinX() == x0 && p.getDimMaxX() == x1 && p.getDimMinY() == y0 && p.getDimMaxY() == y1, "extent", what);
}
}  // namespace
// built in every way, joined, changed section by section
SCENARIO(along, 12000, 200000) {
  auto& r = c.rng;
  M m = someSections(r, nSec(r), true);
  c.sig(m[0].x); c.sig(total(m)); c.sig(m.size()); c.desc = show(m);
  F2CPath p = make(r, m);
  c.check(same(of(p), m, 0, 0, 0), "built", "not the given states");
  checkAlong(c, p, m, "built path");
  int n = r.i(0, 6);
  for (int k = 0; k < n; ++k) {
    size_t i = r.next() % m.size();
    switch (r.i(0, 7)) {
      case 0: p.setBackwardDir(int(i)); m[i].dir = -1; break;
      case 1: p.setForwardDir(int(i)); m[i].dir = 1; break;
      case 2: p.setSwathType(int(i)); m[i].type = 1; break;
      case 3: p.setTurnType(int(i)); m[i].type = 2; break;
      case 4: {bool b = r.p(0.5); b ? p.setBackwardDir() : p.setForwardDir(); for (auto& s : m) {s.dir = b ? -1 : 1;} break;}
      case 5: {bool b = r.p(0.5); b ? p.setSwathType() : p.setTurnType(); for (auto& s : m) {s.type = b ? 1 : 2;} break;}
      case 6: {F2CPath q = p; q.moveTo(F2CPoint(1, 2)); q.setTurnType(); q[0].velocity = 77; break;}   // a copy is another path
      default: {
        M e = someSections(r, r.i(1, 5), true); F2CPath q = make(r, e);
        p += q; m.insert(m.end(), e.begin(), e.end());
        c.check(same(of(q), e, 0, 0, 0), "joined_changed", "the path joined changed");
      }
    }
    c.check(same(of(p), m, 0, 0, 0), "edited", "states differ after a change");
    c.count("edits");
  }
  c.near(p.length(), total(m), 1e-12 * (1 + total(m)) * m.size(), "length", "after changes");
  c.check(p.size() == m.size(), "size", "");
}
SCENARIO(discretized, 9000, 150000) {
  auto& r = c.rng;
  M m = someSections(r, nSec(r), true);
  double step = r.logu(0.003, 3) * total(m) / m.size() + 1e-3;
  if (r.p(0.2)) {step = total(m) * 10 + 1;}
  c.sig(m[0].x); c.sig(total(m)); c.sig(step); c.desc = vf::cat("step ", step, " ", show(m));
  const F2CPath p = make(r, m);
  F2CPath d = p.discretizeSwath(step);
  c.check(same(of(p), m, 0, 0, 0), "changed", "the path itself changed");
  M q = of(d); size_t k = 0;
  double tol = 1e-12 * (span(m) + total(m)) * (m.size() + 4);
  for (size_t i = 0; i < m.size(); ++i) {
    if (m[i].type != 1) {
      if (!c.check(k < q.size() && same(M {q[k]}, M {m[i]}, 0, 0, 0), "not_swath", "section ", i, " is not kept")) {return;}
      ++k; continue;
    }
    size_t k0 = k; double left = m[i].len, u = 0;
    while (k < q.size() && (k == k0 || left > m[i].len * 1e-9)) {
      P want = P {m[i].x, m[i].y} + g::dirOf(m[i].ang) * (u * m[i].dir);
      if (!c.check(q[k].type == 1 && q[k].ang == m[i].ang && q[k].vel == m[i].vel && q[k].dir == m[i].dir, "kind", "piece ", k, " of section ", i)) {return;}
      if (!c.near(dist(P {q[k].x, q[k].y}, want), 0, tol, "piece", "piece ", k - k0, " of section ", i)) {return;}
      c.near(q[k].z, m[i].z, tol, "piece_height", "piece ", k - k0, " of section ", i);
      u += q[k].len; left -= q[k].len; ++k;
      c.count("pieces");
    }
    size_t n = k - k0;
    if (!c.near(u, m[i].len, tol, "section_length", "section ", i)) {return;}
    bool even = true; for (size_t j = k0; j < k; ++j) {even &= std::fabs(q[j].len - m[i].len / n) <= tol;}
    c.check(even, "even", "section ", i, " is cut into unequal pieces");
    // nearest whole number of steps, at least one
    c.check(n == 1 || (m[i].len / n <= step * 2 + tol), "pieces_long", "section ", i, ": ", n, " pieces of ", m[i].len / n, " with step ", step);
    c.check(n == 1 || std::fabs(double(n) - m[i].len / step) <= 0.5 + 1e-6, "pieces_number", "section ", i, ": ", n, " pieces for ", m[i].len / step, " steps");
    c.check(n > 1 || m[i].len / step <= 1.5 + 1e-6, "not_cut", "section ", i, " of ", m[i].len, " with step ", step);
  }
  c.check(k == q.size(), "extra", q.size() - k, " states too many");
  if (!q.empty()) {c.near(dist(cv::of(d.atEnd()), cv::of(p.atEnd())), 0, tol, "end", ""); c.near(d.length(), p.length(), tol, "length", ""); c.near(d.getTaskTime(), p.getTaskTime(), 1e-11 * (1 + p.getTaskTime()) * (1 + q.size()), "task_time", "");}
}
SCENARIO(moved, 9000, 150000) {
  auto& r = c.rng;
  M m = someSections(r, nSec(r), false);
  c.sig(m[0].x); c.sig(total(m)); c.desc = show(m);
  F2CPath p = make(r, m);
  double big = span(m) + total(m), tol = 1e-12 * big;
  int n = r.i(1, 8);
  for (int k = 0; k < n; ++k) {
    switch (r.i(0, 3)) {
      case 0: {
        double x = r.u(-1, 1) * std::pow(10, r.u(0, 5)), y = r.u(-1e3, 1e3);
        p.moveTo(F2CPoint(x, y)); for (auto& s : m) {s.x += x; s.y += y;} big += std::fabs(x) + std::fabs(y); break;
      }
      case 1: {
        P o = r.p(0.5) ? P {m[0].x, m[0].y} : P {r.u(-1e3, 1e3), r.u(-1e3, 1e3)}; double a = r.p(0.3) ? g::PI / 2 * r.i(-4, 4) : r.u(-10, 10);
        p.rotateFromPoint(cv::pt(o), a);
        for (auto& s : m) {P q = o + g::rot(P {s.x, s.y} - o, a); s.x = q.x; s.y = q.y; s.ang = m2(s.ang + a);}
        big += 3 * std::hypot(o.x, o.y);
        break;
      }
      case 2: p.mirrorX(); for (auto& s : m) {s.x = -s.x; s.ang = m2(g::PI - s.ang);} break;
      default: p.mirrorY(); for (auto& s : m) {s.y = -s.y; s.ang = m2(-s.ang);} break;
    }
    tol = 1e-12 * big * (k + 3);
    if (!c.check(same(of(p), m, tol, 1e-12 * (k + 3), 0), "moved", "step ", k, ": states are not the moved ones: ", show(of(p)), " / ", show(m))) {return;}
    c.count("motions");
  }
  double L = total(m);
  c.near(p.length(), L, 1e-12 * (1 + L) * m.size(), "length", "");
  for (int k = 0; k < 6; ++k) {
    double d = r.u(0, 1) * L;
    c.near(dist(cv::of(p.at(d).point), modelAt(m, d, nullptr, 0)), 0, tol * 4 + 1e-12 * L * m.size(), "at", "after ", d);
  }
  c.near(dist(cv::of(p.atEnd()), endOf(m.back())), 0, tol * 4 + 1e-11 * L, "end", "");
}
SCENARIO(swaths, 8000, 120000) {
  auto& r = c.rng;
  F2CPath p; M m; double sp = 1;
  int n = r.i(1, 6);
  auto v = r.p(0.5) ? swl::parallel(r, n) : swl::any(r, n);
  c.desc = vf::cat(n, " swaths");
  for (auto& s : v) {
    double vel = r.logu(0.1, 10);
    F2CSwath sw = swl::make(s);
    p.appendSwath(sw, vel);
    for (size_t i = 0; i + 1 < s.pts.size(); ++i) {
      P d = s.pts[i + 1] - s.pts[i];
      m.push_back({s.pts[i].x, s.pts[i].y, 0, dist(s.pts[i], s.pts[i + 1]) > 0 ? m2(std::atan2(d.y, d.x)) : 0, dist(s.pts[i], s.pts[i + 1]), vel, 1, 1});
      sp = std::max({sp, std::fabs(s.pts[i].x), std::fabs(s.pts[i].y)});
      c.sig(s.pts[i].x);
    }
    M q = of(p);
    for (size_t i = 0; i < q.size() && i < m.size(); ++i) {if (m[i].len < 1e-9 * sp) {m[i].ang = q[i].ang;}}
    if (!c.check(same(q, m, 0, 1e-9, 1e-12 * sp), "appended", "legs are not those of the swath: ", show(q), " / ", show(m))) {return;}
    if (!m.empty()) {
      c.near(dist(cv::of(p.atEnd()), s.pts.back()), 0, 1e-9 * sp, "swath_end", "path does not end where the swath ends");
      c.near(p.length(), total(m), 1e-12 * (1 + total(m)) * m.size(), "length", "");
    }
    c.count("legs", s.pts.size() - 1);
  }
}
SCENARIO(resampled, 8000, 120000) {
  auto& r = c.rng;
  M m = someSections(r, r.p(0.1) ? r.i(1, 2) : r.i(3, 30), false);
  bool straight = r.p(0.3), equal = r.p(0.4);
  if (straight || equal) {
    double len = r.u(0.5, 20); P p {m[0].x, m[0].y};
    for (auto& s : m) {if (straight) {s.ang = m[0].ang; s.dir = 1;} if (equal) {s.len = len;} s.x = p.x; s.y = p.y; p = endOf(s);}
  }
  double L = total(m), sp = span(m), tol = 1e-9 * (sp + L);
  int per = r.i(1, 7), n = equal ? per * int(m.size()) : r.i(1, 400);
  c.sig(m[0].x); c.sig(L); c.sig(n); c.desc = vf::cat(n, " points ", show(m));
  F2CPath p = make(r, m);
  if (r.p(0.1)) {n = -r.i(0, 2); p.populate(n); c.check(same(of(p), m, 0, 0, 0), "populate_nothing", "changed for ", n, " points"); return;}
  p.populate(n);
  M q = of(p);
  size_t real = 0; for (auto& s : m) {real += s.len > 1e-12;}
  if (m.size() < 3 || real == 0) {c.check(same(q, m, 0, 0, 0) || m.size() >= 3, "populate_short", "a path of ", m.size(), " sections changed"); return;}
  if (!c.check(int(q.size()) == n, "populate_size", q.size(), " states instead of ", n)) {return;}
  c.near(p.length(), L, tol, "populate_length", "");
  c.near(dist(P {q[0].x, q[0].y}, P {m[0].x, m[0].y}), 0, tol, "populate_start", "");
  for (int i = 0; i < n; ++i) {
    double d = L * i / n; std::set<size_t> secs; modelAt(m, d, &secs, 1e-9 * (1 + L));
    bool ok = false; for (size_t k : secs) {ok |= q[i].type == m[k].type && q[i].dir == m[k].dir && q[i].vel == m[k].vel;}
    if (!c.check(ok, "populate_kind", "state ", i, " at ", d, " has kind ", q[i].type, " dir ", q[i].dir, " velocity ", q[i].vel)) {return;}
    c.check(std::fabs(q[i].len - L / n) <= tol, "populate_even", "state ", i);
    c.check(q[i].ang >= 0 && q[i].ang < kPi2 + 1e-9, "populate_angle", q[i].ang);
    if (straight) {
      c.near(dist(P {q[i].x, q[i].y}, modelAt(m, d, nullptr, 0)), 0, tol * 10, "populate_straight", "state ", i, " at ", d);
      double da = std::fabs(q[i].ang - m2(m[0].ang)); c.near(std::min(da, std::fabs(kPi2 - da)), 0, 1e-9, "populate_heading", "state ", i);
    }
    if (equal && i % per == 0) {
      c.near(dist(P {q[i].x, q[i].y}, P {m[i / per].x, m[i / per].y}), 0, tol * 10, "populate_knot", "state ", i, " is not at section ", i / per);
      double da = std::fabs(q[i].ang - m2(m[i / per].ang)); c.near(std::min(da, std::fabs(kPi2 - da)), 0, 1e-7, "populate_heading", "state ", i);
    }
    c.count("resampled");
  }
  // fewer states again
  double dm = r.u(0.1, 3) * L / n;
  double T = p.getTaskTime(), vmin = INFINITY, vmax = 0; for (auto& s : q) {vmin = std::min(vmin, s.vel); vmax = std::max(vmax, s.vel);}
  p.reduce(dm);
  M e = of(p);
  c.near(p.length(), L, tol, "reduce_length", "");
  c.check(vmin != vmax || std::fabs(p.getTaskTime() - T) <= 1e-9 * (1 + T), "reduce_time", p.getTaskTime(), " instead of ", T);
  size_t k = 0;
  for (size_t i = 0; i < e.size(); ++i) {
    if (!c.check(k < q.size() && same(M {{e[i].x, e[i].y, e[i].z, e[i].ang, 0, e[i].vel, e[i].dir, e[i].type}}, M {{q[k].x, q[k].y, q[k].z, q[k].ang, 0, q[k].vel, q[k].dir, q[k].type}}, 0, 0, 0), "reduce_state", "state ", i, " is not the next kept one")) {return;}
    size_t k0 = k; double l = q[k++].len;
    while (k < q.size() && l + q[k].len <= e[i].len + 1e-9 * L / n) {
      c.check(q[k].type == q[k0].type && q[k].dir == q[k0].dir, "reduce_mixed", "a ", q[k].type, " is lost in a ", q[k0].type);
      c.check(std::hypot(q[k].x - q[k0].x, q[k].y - q[k0].y) < dm + tol, "reduce_far", "state ", k, " is lost though far from the one kept");
      l += q[k++].len;
    }
    c.near(e[i].len, l, tol, "reduce_section", "state ", i);
  }
  c.check(k == q.size(), "reduce_lost", q.size() - k, " states lost");
}
SCENARIO(discretize, 1500, 25000) {
  auto& r = c.rng;
  M m = someSections(r, r.i(3, 12), false);
  double L = total(m), step = L * r.u(0.01, 0.3);
  c.sig(m[0].x); c.sig(L); c.sig(step); c.desc = vf::cat("step ", step, " ", show(m));
  if (!(L > 1e-9)) {return;}
  F2CPath p = make(r, m);
  p.discretize(step);
  double tol = 1e-9 * (span(m) + L);
  c.near(p.length(), L, tol, "length", "");
  c.near(dist(cv::of(p.atStart()), P {m[0].x, m[0].y}), 0, tol, "start", "");
  std::set<int> ta, tb; for (auto& s : m) {if (s.len > 1e-6 * L) {ta.insert(s.type);}} for (auto& s : of(p)) {tb.insert(s.type);}
  c.check(std::includes(ta.begin(), ta.end(), tb.begin(), tb.end()) || ta.size() < 3, "kinds", "");
}
SCENARIO(files, 4000, 60000) {
  auto& r = c.rng;
  M m = someSections(r, r.p(0.1) ? 0 : nSec(r), true);
  bool comma = r.p(0.5);
  int prec = r.i(1, 18);
  for (auto& s : m) {if (r.p(0.1)) {s.x *= std::pow(10, r.u(-12, 8));} if (r.p(0.05)) {s.y = r.p(0.5) ? 0 : -0.0;}}
  c.sig(m.empty() ? 0 : m[0].x); c.sig(prec); c.sig(comma); c.desc = vf::cat("precision ", prec, comma ? " decimal comma " : " ", show(m));
  const F2CPath p = make(r, m);
  fl::Scratch f(".path");
  std::string ref = p.serializePath(prec);
  {
    fl::CommaLocale loc(comma);
    p.saveToFile(f.path, prec);
    c.check(p.serializePath(prec) == ref, "text_locale", "text differs under the locale");
    std::ostringstream o; o << 1.5;
    c.check(o.str() == (comma ? "1,5" : "1.5"), "locale_changed", "saving changed the locale of the program: ", o.str());
    std::locale old2 = std::locale();
    F2CPath q; q.loadFile(f.path);
    M e = of(q);
    if (!c.check(e.size() == m.size(), "loaded_size", e.size(), " states instead of ", m.size())) {return;}
    auto near = [&] (double a, double b) {return std::fabs(a - b) <= std::fabs(b) * 0.5001 * std::pow(10, 1 - prec) + 4e-16 * std::fabs(b);};
    for (size_t i = 0; i < m.size(); ++i) {
      if (!c.check(near(e[i].x, m[i].x) && near(e[i].y, m[i].y) && near(e[i].z, m[i].z) && near(e[i].ang, m[i].ang) && near(e[i].vel, m[i].vel) && near(e[i].len, m[i].len) && e[i].dir == m[i].dir && e[i].type == m[i].type,
          "loaded", "state ", i, ": ", show(M {e[i]}), " / ", show(M {m[i]}))) {return;}
      c.count("loaded");
    }
    if (prec >= 17) {c.check(same(e, m, 0, 0, 0), "loaded_exact", "");}
    c.check(q.serializePath(prec) == ref, "again", "text of the loaded path differs");
    // added to what is there
    q.loadFile(f.path);
    c.check(q.size() == 2 * m.size(), "loaded_twice", q.size());
  }
  {std::ifstream in(f.path); std::stringstream ss; ss << in.rdbuf(); c.check(ss.str() == ref, "file_text", "");}
}
VF_MAIN

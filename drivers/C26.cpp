// NOTE: random edit histories mirrored by a plain model; every getter recomputed after each edit
// QUICK: 2.5
#include "swl.hpp"
using namespace g;
using swl::M;
namespace {
double ang(P a, P b) {return mod2pi(std::atan2(b.y - a.y, b.x - a.x));}
double maxAbs(const M& m) {double a = 1; for (auto p : m.pts) {a = std::max({a, std::fabs(p.x), std::fabs(p.y)});} return a;}
void agrees(vf::Case& c, const F2CSwath& s, const M& m, double tol, const std::string& k) {
  M x = swl::of(s);
  c.check(x.id == m.id && x.w == m.w && x.dir == m.dir && x.type == m.type, k + "meta", "swath is ", swl::str(x), " want ", swl::str(m));
  c.require(swl::samePts(x.pts, m.pts, tol), k + "points", "points ", g::str(x.pts), " want ", g::str(m.pts));
  auto& p = x.pts;
  c.check(s.numPoints() == p.size(), k + "num_points", s.numPoints());
  for (size_t i = 0; i < p.size(); ++i) {c.check(eq(cv::of(s.getPoint(int(i))), p[i]), k + "get_point", "point ", i);}
  if (p.size() < 2) {
    c.check(s.length() == 0 && s.getInAngle() == -1 && s.getOutAngle() == -1 && s.area() == 0 && s.areaCovered().isEmpty(), k + "empty", "values of an empty swath");
    return;
  }
  c.near(s.length(), length(p), 1e-12 * (length(p) + maxAbs(m) * 1e-3), k + "length", "length");
  c.check(eq(cv::of(s.startPoint()), p[0]) && eq(cv::of(s.endPoint()), p.back()), k + "ends", "ends of ", g::str(p));
  if (!eq(p[0], p[1])) {c.check(angDist(s.getInAngle(), ang(p[0], p[1])) < 1e-9, k + "in_angle", s.getInAngle(), " want ", ang(p[0], p[1]));}
  size_t n = p.size();
  if (!eq(p[n - 1], p[n - 2])) {c.check(angDist(s.getOutAngle(), ang(p[n - 2], p[n - 1])) < 1e-9, k + "out_angle", s.getOutAngle(), " want ", ang(p[n - 2], p[n - 1]));}
  c.check(s.getInAngle() >= 0 && s.getInAngle() < 2 * PI + 1e-9, k + "angle_range", s.getInAngle());
  c.count("agree");
}
void covers(vf::Case& c, const F2CSwath& s, const M& m) {
  if (m.pts.size() < 2) {return;}
  MPoly a = cv::of(s.areaCovered());
  double L = length(m.pts), tol = 1e-9 * L * m.w + 1e-7 * L + 1e-9 * maxAbs(m) * (L + m.w);
  if (m.pts.size() == 2) {
    P u = (m.pts[1] - m.pts[0]) * (1 / L), v = P {-u.y, u.x} * (m.w / 2);
    MPoly want {Poly {{Ring {m.pts[0] - v, m.pts[1] - v, m.pts[1] + v, m.pts[0] + v}}}};
    c.near(areaSymDiff(a, want), 0, tol, "area_covered", "area covered by ", swl::str(m));
    c.near(s.area(), L * m.w, tol, "area", "area of ", swl::str(m));
    P mid = m.pts[0] + (m.pts[1] - m.pts[0]) * c.rng.u(0, 1);
    double z = L * c.rng.u(0.1, 0.8);
    MPoly poly {Poly {{Ring {mid + P {-z, -z}, mid + P {z, -z * 0.7}, mid + P {z, z}, mid + P {-z * 0.5, z}}}}};
    if (c.rng.p(0.4)) {poly[0].rings.push_back({mid + P {-z / 4, -z / 4}, mid + P {-z / 4, z / 5}, mid + P {z / 5, 0}});}
    F2CCells fp = cv::cells(poly);
    double ai = areaInter(want, poly);
    c.near(s.area(fp), ai, tol + 1e-9 * z * z, "area_inside", "area within ", g::str(poly));
    c.near(areaSymDiff(cv::of(s.areaCovered(fp)), cv::of(s.areaCovered())) , areaDiff(want, poly), 2 * tol + 1e-9 * z * z, "covered_inside", "area covered within ", g::str(poly));
    c.count("areas");
  } else {
    MPoly want = refs::buffer(refs::seq(m.pts, 1), m.w / 2);
    c.near(areaSymDiff(a, want), 0, tol, "area_bent", "area covered by ", swl::str(m));
    c.near(s.area(), area(want), tol, "area_bent", "area of ", swl::str(m));
  }
}
std::vector<P> line(vf::Rng& r, P off) {
  int n = r.p(0.5) ? 2 : r.i(3, 6);
  double s = r.logu(1, 1000);
  std::vector<P> l;
  for (int i = 0; i < n; ++i) {l.push_back(off + P {r.u(-s, s), r.u(-s, s)});}
  if (n > 2 && r.p(0.15)) {l[n - 1] = l[0];}   // closed
  return l;
}
}  // namespace
SCENARIO(history, 30000, 300000) {
  auto& r = c.rng;
  P off = r.p(0.3) ? P {r.u(1e5, 8e5), r.u(1e6, 9e6)} : P {0, 0};
  M m {0, 1, true, 0, {}};
  F2CSwath s;
  double tol = 0;
  int mk = r.i(0, 4);
  if (mk == 0) {m.w = s.getWidth(); agrees(c, s, m, 0, "default_");}
  if (mk == 1) {m.w = r.u(0.1, 9); s = F2CSwath(m.w); agrees(c, s, m, 0, "width_");}
  if (mk == 2) {m.pts = line(r, off); s = F2CSwath(cv::line(m.pts)); m.w = s.getWidth(); agrees(c, s, m, 0, "path_");}
  if (mk >= 3) {
    m = {r.i(-9, 99), r.u(0.1, 9), true, r.i(0, 1), line(r, off)};
    s = F2CSwath(cv::line(m.pts), m.w, m.id, m.type ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
    agrees(c, s, m, 0, "made_");
  }
  c.desc = swl::str(m);
  int n = r.i(1, 25);
  for (int i = 0; i < n; ++i) {
    int op = r.i(0, 12);
    switch (op) {
      case 0: case 1: {
        double in = s.getInAngle(), out = s.getOutAngle();
        s.reverse(); m = swl::rev(m);
        if (m.pts.size() > 1 && !eq(m.pts[0], m.pts[1]) && !eq(m.pts.back(), m.pts[m.pts.size() - 2])) {
          c.check(angDist(s.getInAngle(), out + PI) < 1e-9 && angDist(s.getOutAngle(), in + PI) < 1e-9, "half_turn", "angles ", in, " ", out, " became ", s.getInAngle(), " ", s.getOutAngle());
        }
        break;
      }
      case 2: s.reverse(); s.reverse(); break;
      case 3: {
        P d {r.u(-50, 50), r.u(-50, 50)};
        if (r.p(0.1)) {d = {r.u(-1, 1) * 1e6, 0};}
        s.moveTo(cv::pt(d));
        for (auto& p : m.pts) {p = p + d;}
        tol += 1e-15 * maxAbs(m);
        break;
      }
      case 4: {double w = r.logu(0.01, 50); s.setWidth(w); m.w = w; break;}
      case 5: {
        double w = r.pick({0.0, -0.0, -1.0, -1e-12, -1e300});
        c.throws([&] {s.setWidth(w);}, "bad_width", vf::cat("width ", w));
        c.throws([&] {F2CSwath x(cv::line({{0, 0}, {1, 0}}), w, 3);}, "bad_width_made", vf::cat("swath of width ", w));
        c.throws([&] {F2CSwath x(w);}, "bad_width_made", vf::cat("swath of width ", w));
        break;
      }
      case 6: m.id = r.i(-100, 1000); s.setId(m.id); break;
      case 7: m.type = r.i(0, 1); s.setType(m.type ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND); break;
      case 8: m.dir = r.p(0.5); s.setCreationDir(m.dir); break;
      case 9: case 10: {
        F2CSwath o(cv::line(line(r, off)), 2, 7);
        o.setCreationDir(r.p(0.5));
        M om = swl::of(o);
        bool opp = op == 10;
        M before = swl::of(s);
        c.check(s.hasSameDir(o) == (m.dir == om.dir), "has_same_dir", "marks ", m.dir, " ", om.dir);
        if (opp) {s.targetOppositeDirAs(o);} else {s.targetSameDirAs(o);}
        if ((m.dir == om.dir) == opp) {m = swl::rev(m);}
        c.check((s.getCreationDir() == om.dir) != opp, "target", "mark ", s.getCreationDir(), " towards ", om.dir, " opposite ", opp);
        c.check(swl::sameUndirected(swl::of(s), before), "target_changed", "more than the direction changed");
        c.check(swl::same(swl::of(o), om), "target_other", "the other swath changed");
        break;
      }
      case 11: if (r.p(0.5)) {m.pts = line(r, off); s.setPath(cv::line(m.pts)); tol = 0;} break;
      default: {
        F2CSwath k = s.clone();
        agrees(c, k, m, tol + swl::cloneTol({m}), "clone_");
        s.reverse(); s.reverse();
        F2CSwath other = k;
        k = s;
        c.check(swl::same(swl::of(k), swl::of(s)), "assign", "assigned swath differs");
        break;
      }
    }
    agrees(c, s, m, tol + (tol > 0 ? 0 : 0), "after_");
    c.count("edits");
  }
  covers(c, s, m);
  c.sig(m.w); c.sig(double(m.id)); if (!m.pts.empty()) {c.sig(m.pts[0].x);}
}
SCENARIO(comparing, 30000, 300000) {
  auto& r = c.rng;
  auto v = swl::any(r, r.i(2, 6), false);
  if (r.p(0.7)) {for (auto& m : v) {m.pts.resize(2);}}
  if (r.p(0.6)) {v.push_back(v[0]); v.back().id = r.i(0, 3); if (r.p(0.5) && v[0].pts.size() == 2) {v.back() = swl::rev(v.back());} if (r.p(0.3)) {v.back().w += 0.5;}}
  if (r.p(0.3)) {v.push_back(v[0]); v.back().pts[0].x += 1;}
  if (r.p(0.3)) {v.push_back(v[0]); v.back().pts.back().x += 1;}
  if (r.p(0.3)) {v.push_back(v[0]); v.back().dir = !v.back().dir;}
  c.desc = swl::ids(v);
  for (auto& a : v) {
    for (auto& b : v) {
      F2CSwath x = swl::make(a), y = swl::make(b);
      bool flip = a.dir != b.dir;
      P sb = flip ? b.pts.back() : b.pts[0];
      bool eqv = a.w == b.w && eq(a.pts[0], sb) && x.length() == y.length();
      std::string w = swl::str(a) + " " + swl::str(b);
      c.check((x == y) == eqv, "equal", "== ", x == y, " want ", eqv, " ", w);
      c.check((x != y) == !eqv, "not_equal", w);
      c.check((x < y) == (a.id < b.id), "less", w);
      c.check((x > y) == (a.id > b.id), "greater", w);
      c.check((x <= y) == (a.id < b.id || (a.id == b.id && eqv)), "less_equal", w);
      c.check((x >= y) == (a.id > b.id || (a.id == b.id && eqv)), "greater_equal", w);
      c.check(swl::same(swl::of(x), a) && swl::same(swl::of(y), b), "compare_changed", w);
      c.count("compared"); if (eqv) {c.count("equal_pairs");}
    }
  }
  c.sig(v[0].pts[0].x); c.sig(double(v.size()));
}
VF_MAIN

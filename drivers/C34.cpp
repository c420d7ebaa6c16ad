// NOTE: random histories of sets, gets and copies compared with a model after each step
// QUICK: 40
#include "vfall.hpp"
namespace {
struct M {std::string name; double w {0}, cw {0}, cv {1}, mc {1}, md {0.3}; bool tv {false}; double tvv {0};};
void same(vf::Case& c, const F2CRobot& b, const M& m, const char* k) {
  c.check(b.getName() == m.name, std::string(k) + "_name", "name '", b.getName(), "' want '", m.name, "'");
  c.check(b.getWidth() == m.w, std::string(k) + "_width", "width ", b.getWidth(), " want ", m.w);
  c.check(b.getCovWidth() == m.cw, std::string(k) + "_cov_width", "coverage width ", b.getCovWidth(), " want ", m.cw);
  c.check(b.getCruiseVel() == m.cv, std::string(k) + "_cruise", "cruise speed ", b.getCruiseVel(), " want ", m.cv);
  double tv = m.tv ? m.tvv : m.cv;
  c.check(b.getTurnVel() == tv, std::string(k) + "_turn", "turn speed ", b.getTurnVel(), " want ", tv);
  c.near(b.getMaxCurv(), m.mc, 1e-6 * std::max(1.0, m.mc) * std::max(1.0, m.mc), std::string(k) + "_curv", "curvature");
  c.check(b.getMaxDiffCurv() == m.md, std::string(k) + "_diff_curv", "curvature change ", b.getMaxDiffCurv(), " want ", m.md);
  // curvature and radius are inverses of each other
  double rad = b.getMinTurningRadius(), cur = b.getMaxCurv();
  c.check(rad > 0 && cur >= 0, std::string(k) + "_magnitudes", "radius ", rad, " curvature ", cur);
  c.near(rad * cur, 1, 2e-7 / std::max(1e-7, cur) + 1e-12, std::string(k) + "_inverse", "radius times curvature");
  c.count("looks");
}
}  // namespace
SCENARIO(history, 20000, 800000) {
  auto& r = c.rng;
  auto mag = [&] {return std::pow(10, r.u(-2, 2));};
  auto sgn = [&] {return r.p(0.3) ? -1.0 : 1.0;};
  M m; F2CRobot b;
  int ctor = r.i(0, 4);
  std::string log = vf::cat("ctor ", ctor);
  if (ctor > 0) {
    m.w = m.cw = mag();
    if (ctor >= 2) {m.cw = r.p(0.3) ? 0 : mag();}
    double mc = sgn() * mag(), md = sgn() * mag();
    if (ctor >= 3) {m.mc = std::fabs(mc);}
    if (ctor >= 4) {m.md = std::fabs(md);}
    b = ctor == 1 ? F2CRobot(m.w) : ctor == 2 ? F2CRobot(m.w, m.cw) : ctor == 3 ? F2CRobot(m.w, m.cw, mc) : F2CRobot(m.w, m.cw, mc, md);
    if (m.cw == 0) {m.cw = m.w;}
    log += vf::cat(" (", m.w, ",", m.cw, ",", mc, ",", md, ")");
  }
  same(c, b, m, "made");
  std::vector<std::pair<F2CRobot, M>> others;
  for (int i = r.i(0, 15); i > 0; --i) {
    double v = mag();
    int op = r.i(0, 10);
    log += vf::cat(" ", op, ":", v);
    c.desc = log;
    if ((op == 3 || op == 4) && r.p(0.2)) {v = r.p(0.5) ? 0 : -v;}        // standing, or driving back
    if (op == 7 && r.p(0.1)) {v = 0;}
    switch (op) {
      case 0: m.name = vf::cat("n", v, r.p(0.3) ? "\n\xc3\xb1" : ""); b.setName(m.name); break;
      case 1: m.w = v; b.setWidth(v); break;
      case 2: m.cw = v; b.setCovWidth(v); break;
      case 3: m.cv = v; b.setCruiseVel(v); break;
      case 4: m.tv = true; m.tvv = v; b.setTurnVel(v); break;
      case 5: m.mc = v; b.setMaxCurv(sgn() * v); break;
      case 6: m.mc = 1 / v; b.setMinTurningRadius(sgn() * v); c.near(b.getMinTurningRadius(), v, 1e-6 * std::max(1.0, v) * std::max(1.0, v), "radius", "radius set"); break;
      case 7: m.md = v; b.setMaxDiffCurv(sgn() * v); break;
      case 8: others.push_back({b, m}); break;                        // a copy, which has to stay as it is
      case 9: {others.push_back({b, m}); F2CRobot d(b); d.setWidth(99); d.setName("other"); d.setTurnVel(7); d.setMaxCurv(5); break;}
      default: {F2CRobot d(r.p(0.5) ? F2CRobot(3.0) : F2CRobot()); d.setTurnVel(1.25); d.setName("old"); d = b; same(c, d, m, "assigned"); F2CRobot e(std::move(d)); same(c, e, m, "moved"); if (r.p(0.5)) {b = std::move(e);}}
    }
    same(c, b, m, "now");
  }
  for (auto& o : others) {same(c, o.first, o.second, "copy");}
  c.sig(log);
}
SCENARIO(refused, 2000, 50000) {
  auto& r = c.rng;
  double bad = r.p(0.3) ? 0 : -std::pow(10, r.u(-6, 3)), good = std::pow(10, r.u(-2, 2)), neg = -std::pow(10, r.u(-6, 3));
  c.desc = vf::cat(bad, " ", neg);
  c.throws([&] {F2CRobot b(bad);}, "width", "width ", bad);
  c.throws([&] {F2CRobot b(bad, good);}, "width2", "width ", bad);
  c.throws([&] {F2CRobot b(good, neg);}, "cov_width", "coverage width ", neg);
  c.throws([&] {F2CRobot b(good, neg, 1, 1);}, "cov_width4", "coverage width ", neg);
  c.throws([&] {F2CRobot b(bad, 0, 1, 1);}, "width4", "width ", bad);
  c.count("refusals", 5); c.sig(bad); c.sig(neg);
}
VF_MAIN

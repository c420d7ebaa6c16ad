// BUILD: tsan parallel shim
// NOTE: ThreadSanitizer over threads planning on their own objects and reading shared ones, every result compared with the one got alone; best-angle search built parallel
#include <atomic>
#include <thread>
#include "jobs.hpp"
using namespace jobs;
namespace {
std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) {++i;}
  i = i > 30 ? i - 30 : 0;
  return "..." + a.substr(i, 90) + "... / ..." + b.substr(i, 90) + "...";
}
template <class F> void together(int n, F f) {
  std::atomic<int> ready {0};
  std::vector<std::thread> th;
  for (int t = 0; t < n; ++t) {th.emplace_back([&, t] {++ready; while (ready < n) {} f(t);});}
  for (auto& t : th) {t.join();}
}
}  // namespace
SCENARIO(separate, 220, 9000) {
  auto& r = c.rng;
  int n = r.i(2, 6), per = r.i(1, 3);
  bool same = r.p(0.4), first = r.p(0.5);
  std::vector<std::vector<std::pair<int, uint64_t>>> w(n);
  int k0 = r.i(0, KINDS - 1);
  for (int t = 0; t < n; ++t) {for (int j = 0; j < per; ++j) {w[t].push_back({same ? (k0 + j) % KINDS : r.i(0, KINDS - 1), same && r.p(0.5) ? 77 : r.next()});}}
  for (auto& v : w) {for (auto& j : v) {c.desc += vf::cat(j.first, ":", j.second, " ");} c.desc += "| ";}
  std::string base = getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp";
  auto dirOf = [&] (int t) {std::string d = vf::cat(base, "/t", t); mkdir(d.c_str(), 0700); return d;};
  for (int t = -1; t < n; ++t) {dirOf(t + 1);}
  std::vector<std::vector<Log>> alone(n), tog(n);
  auto runAlone = [&] {   // in another order than the threads do
    for (int t = n; t-- > 0;) {alone[t].resize(per); for (int j = per; j-- > 0;) {job(alone[t][j], w[t][j].first, w[t][j].second, vf::cat(base, "/t0"));}}
  };
  if (first) {runAlone();}
  for (auto& v : tog) {v.resize(per);}
  together(n, [&] (int t) {for (int j = 0; j < per; ++j) {job(tog[t][j], w[t][j].first, w[t][j].second, vf::cat(base, "/t", t + 1));}});
  if (!first) {runAlone();}
  for (int t = 0; t < n; ++t) {
    for (int j = 0; j < per; ++j) {
      c.check(alone[t][j].s == tog[t][j].s, vf::cat("kind", w[t][j].first), "work ", w[t][j].first, ":", w[t][j].second, " gives another result among other threads: ", diff(alone[t][j].s, tog[t][j].s));
      c.count("results_compared", tog[t][j].events); c.sig(uint64_t(w[t][j].first)); c.sig(vf::hashStr(tog[t][j].s));
    }
  }
  c.count("threads", n);
}
SCENARIO(shared, 160, 6000) {
  auto& r = c.rng;
  int n = r.i(2, 6), k = r.i(0, 5);
  c.desc = vf::cat("threads ", n, " kind ", k);
  F2CCells f = someField(r);
  F2CSwaths sw; for (auto& m : swl::parallel(r, r.i(2, 15))) {sw.push_back(swl::make(m));}
  F2CField fld(f, "shared"); fld.setCRS("UTM:31N");
  F2CRobot robot(2, 6); robot.setMaxCurv(0.4);
  F2CRoute ro; for (size_t i = 0; i < sw.size(); ++i) {F2CMultiPoint con; con.addPoint(F2CPoint(i, 2)); F2CSwaths one; one.push_back(sw.at(i)); ro.addConnectedSwaths(con, one);}
  f2c::CubicSpline sp({0, 1, 2, 3}, {1, 5, 2, 4});
  std::vector<uint64_t> seeds; bool same = r.p(0.5); uint64_t s0 = r.next();
  for (int t = 0; t < n; ++t) {seeds.push_back(same ? s0 : r.next());}
  auto work = [&] (Log& l, uint64_t seed) {
    vf::Rng q(seed);
    try {
      if (k == 0) {readCells(l, f, q);}
      if (k == 1) {readSwaths(l, sw, q);}
      if (k == 2) {const F2CField& cf = fld; l.txt(cf.getId()); l.txt(cf.getCRS()); l.num(cf.area()); l.geo(cf.getCellsAbsPosition().get()); l.geo(cf.getRefPoint().get()); l.geo(cf.getField().get()); l.txt(cf.getUTMZone()); l.num(cf.clone().area()); l.txt(cf.getPrevCRS()); l.num(cf.isCoordSystemUTM()); l.num(cf.isEmpty());}
      if (k == 3) {const F2CRobot& cr = robot; l.num(cr.getWidth()); l.num(cr.getMinTurningRadius()); l.num(cr.getMaxCurv()); l.num(cr.getTurnVel()); l.txt(cr.getName()); const F2CRoute& co = ro; l.num(co.length()); l.geo(co.asLineString().get()); l.num(co.sizeVectorSwaths()); l.geo(co.clone().asLineString().get()); for (size_t i = 0; i < co.sizeVectorSwaths(); ++i) {l.sw(co.getSwaths(i));}}
      if (k == 4) {for (int i = 0; i < 30; ++i) {l.num(sp(q.u(-1, 4)));}}
      if (k == 5) {f2c::sg::BruteForce bf; f2c::obj::NSwath ns; bf.setStepAngle(0.7); l.sw(bf.generateBestSwaths(ns, 7, f)); f2c::hg::ConstHL hl; l.geo(hl.generateHeadlands(f, 1).get()); f2c::decomp::BoustrophedonDecomp bd; l.geo(bd.decompose(f).get());}
    } catch (const std::exception& e) {l.txt(std::string("threw ") + e.what());}
  };
  std::vector<Log> tog(n), alone(n);
  together(n, [&] (int t) {work(tog[t], seeds[t]);});
  for (int t = 0; t < n; ++t) {
    work(alone[t], seeds[t]);
    c.check(alone[t].s == tog[t].s, vf::cat("read", k), "reading a shared object gives another result among other threads: ", diff(alone[t].s, tog[t].s));
    c.count("shared_results_compared", tog[t].events); c.sig(k); c.sig(vf::hashStr(tog[t].s));
  }
  c.count("threads", n);
}
VF_MAIN

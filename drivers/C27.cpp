// NOTE: list operations mirrored by a plain list model; appended stretches compared with an own clipper
// QUICK: 2.0
#include "swl.hpp"
using namespace g;
using swl::M;
namespace {
using VM = std::vector<M>;
f2c::types::SwathType ty(int t) {return t ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND;}
void agrees(vf::Case& c, const F2CSwaths& s, const VM& m, double tol, const std::string& k) {
  c.require(s.size() == m.size(), k + "_size", "size ", s.size(), " want ", m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    c.check(swl::same(swl::of(s.at(i)), m[i], tol), k, "swath ", i, " is ", swl::str(swl::of(s.at(i))), " want ", swl::str(m[i]));
    c.check(&s.at(i) == &s[int(i)], k + "_index", "operator[] ", i);
  }
  size_t n = 0;
  for (auto&& x : s) {c.check(x.getId() == m[n].id, k + "_iterate", "iterating ", n); ++n;}
  c.check(n == m.size(), k + "_iterate", "iterated ", n, " of ", m.size());
  if (!m.empty()) {c.check(&s.back() == &s.at(m.size() - 1), k + "_back", "back()");}
  c.throws([&] {s.at(m.size());}, k + "_past_end", "swath past the end");
  c.count("lists");
}
}  // namespace
SCENARIO(history, 20000, 300000) {
  auto& r = c.rng;
  F2CSwaths s;
  VM m;
  double tol = 0;
  int made = r.i(0, 4), n0 = swl::count(r) % 12;
  if (made == 1) {m = swl::any(r, n0, r.p(0.8)); s = swl::list(m);}
  if (made == 2) {m = swl::any(r, n0, r.p(0.8)); std::vector<F2CSwath> v; for (auto& x : m) {v.push_back(swl::make(x));} s = F2CSwaths(v);}
  if (made == 3) {s = F2CSwaths(n0); m.assign(n0, swl::of(F2CSwath()));}
  if (made == 4) {
    m = swl::any(r, r.i(1, 3), r.p(0.8));
    if (m.size() == 1) {s = F2CSwaths({swl::make(m[0])});}
    if (m.size() == 2) {s = F2CSwaths({swl::make(m[0]), swl::make(m[1])});}
    if (m.size() == 3) {s = F2CSwaths({swl::make(m[0]), swl::make(m[1]), swl::make(m[2])});}
  }
  agrees(c, s, m, 0, "made");
  for (int i = 0, n = r.i(1, 16); i < n; ++i) {
    int op = r.i(0, 10);
    switch (op) {
      case 0: {M x = swl::any(r, 1)[0]; s.emplace_back(swl::make(x)); m.push_back(x); break;}
      case 1: {M x = swl::any(r, 1)[0]; s.push_back(swl::make(x)); m.push_back(x); break;}
      case 2: {M x = swl::any(r, 1)[0]; x.dir = true; s.emplace_back(cv::line(x.pts), x.w, x.id, ty(x.type)); m.push_back(x); break;}
      case 3: {M x = swl::any(r, 1)[0]; x.dir = true; x.id = int(m.size()); s.append(cv::line(x.pts), x.w, ty(x.type)); m.push_back(x); break;}
      case 4: {
        F2CMultiLineString ml; double w = r.u(0.5, 5); int t = r.i(0, 1);
        for (auto x : swl::any(r, r.i(0, 5))) {ml.addGeometry(cv::line(x.pts)); x.dir = true; x.id = int(m.size()); x.w = w; x.type = t; m.push_back(x);}
        s.append(ml, w, ty(t)); tol = std::max(tol, 1e-11);
        break;
      }
      case 5: {VM v = swl::any(r, r.i(0, 5)); s.append(swl::list(v)); m.insert(m.end(), v.begin(), v.end()); break;}
      case 6: {
        s.reverse(); std::reverse(m.begin(), m.end());
        if (r.p(0.5)) {s.reverse(); std::reverse(m.begin(), m.end());}
        break;
      }
      case 7: {
        F2CSwaths k = s.clone();
        k.sort();
        VM got = swl::of(k);
        c.require(got.size() == m.size(), "sort_size", "sorting changed the size");
        std::vector<bool> used(m.size());
        for (size_t j = 0; j < got.size(); ++j) {
          if (j) {c.check(got[j - 1].id <= got[j].id, "sort_order", "numbers ", swl::ids(got));}
          if (!got[j].pts.empty()) {
            P a = got[j].pts[0], b = got[j].pts.back();
            c.check(a.x < b.x || (a.x == b.x && a.y <= b.y), "sort_sense", "swath not in the common sense ", swl::str(got[j]));
          }
          bool found = false;
          for (size_t i2 = 0; i2 < m.size() && !found; ++i2) {if (!used[i2] && swl::sameUndirected(got[j], m[i2], tol + swl::cloneTol(m))) {used[i2] = found = true;}}
          c.check(found, "sort_lost", "no swath like ", swl::str(got[j]), " was there before sorting");
        }
        c.count("sorted");
        if (r.p(0.5)) {   // same on the list itself
          s.sort(); m = swl::of(s);
          c.check(swl::same(m, got, tol + swl::cloneTol(m)) || [&] {std::set<int> u; for (auto& x : m) {u.insert(x.id);} return u.size() < m.size();}(), "sort_repeat", "sorting a copy and the list differ");
        }
        break;
      }
      case 8: {
        s.reverseDirOddSwaths();
        for (size_t j = 1; j < m.size(); ++j) {if (m[j].dir == m[j - 1].dir) {m[j] = swl::rev(m[j]);}}
        for (size_t j = 1; j < s.size(); ++j) {c.check(s.at(j).getCreationDir() != s.at(j - 1).getCreationDir(), "alternate", "swaths ", j - 1, " and ", j, " have one sense");}
        c.count("alternated");
        break;
      }
      case 9: {
        P d {r.u(-90, 90), r.u(-90, 90)};
        s.moveTo(cv::pt(d));
        for (auto& x : m) {for (auto& p : x.pts) {p = p + d;}}
        tol += 1e-12;
        break;
      }
      default: {F2CSwaths k = s.clone(); agrees(c, k, m, tol + swl::cloneTol(m), "clone"); break;}
    }
    agrees(c, s, m, tol, "after");
    if (m.size() > 60) {break;}
  }
  if (r.p(0.1) && m.size() < 30) {   // a list appended to itself
    s.append(s); VM d = m; d.insert(d.end(), m.begin(), m.end());
    c.require(s.size() == d.size(), "self_append", "size ", s.size());
    for (size_t i = 0; i < d.size(); ++i) {c.check(s.at(i).getId() == d[i].id, "self_append", "swath ", i);}
  }
  c.sig(double(m.size())); if (!m.empty()) {c.sig(double(m[0].id)); c.sig(m[0].w);}
}
SCENARIO(clipped, 6000, 300000) {
  gen::Gen f = gen::field(c.rng);
  double a = gen::angle(c.rng), w = f.size * c.rng.logu(0.01, 0.5);
  int t = c.rng.i(0, 1);
  Box b = box(f.m);
  P mid {(b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2};
  double R = dist({b.x0, b.y0}, {b.x1, b.y1});
  std::vector<double> offs, lo, hi;
  for (int i = 0, n = c.rng.i(1, 6); i < n; ++i) {offs.push_back(c.rng.u(-0.5, 0.5) * R); lo.push_back(c.rng.p(0.7) ? -1 : c.rng.u(-0.4, 0)); hi.push_back(c.rng.p(0.7) ? 1 : c.rng.u(0, 0.4));}
  c.desc = vf::cat(f.kind, " a=", a, " w=", w, " ", str(f.m));
  c.robust([&] (double e) {
    P u = dirOf(a + e), v {-u.y, u.x};
    double tol = 1e-9 * f.size + 1e-12 * f.maxAbs;
    F2CCells A = cv::cells(f.m);
    F2CCell one = cv::cell(f.m[0]);
    F2CMultiLineString ml;
    std::vector<std::vector<P>> in;
    for (size_t i = 0; i < offs.size(); ++i) {in.push_back({mid + v * offs[i] + u * (lo[i] * R), mid + v * offs[i] + u * (hi[i] * R)}); ml.addGeometry(cv::line(in.back()));}
    auto judge = [&] (const std::vector<std::vector<P>>& ls, const MPoly& m, const F2CSwaths& s, size_t first, const std::string& k) {
      std::vector<std::pair<P, P>> want;
      bool clear = true;
      for (auto& l : ls) {
        double L = dist(l[0], l[1]);
        edges(m, [&] (P p, P) {if (distSeg(p, l[0], l[1]) < 1e-6 * f.size) {clear = false;}});
        for (P q : l) {if (distBorder(q, m) < 1e-6 * f.size) {clear = false;}}
        for (auto& x : clip(l[0], l[1], m)) {if ((x.second - x.first) * L < 1e-6 * f.size) {clear = false;} want.push_back({l[0] + (l[1] - l[0]) * x.first, l[0] + (l[1] - l[0]) * x.second});}
      }
      if (!clear) {c.count("unclear"); return;}
      c.require(s.size() == first + want.size(), k + "_count", "swaths ", s.size() - first, " want ", want.size());
      std::vector<bool> used(want.size());
      for (size_t i = first; i < s.size(); ++i) {
        M x = swl::of(s.at(i));
        c.check(x.id == int(i) && x.w == w && x.type == t && x.dir, k + "_meta", "swath ", i, " is ", swl::str(x));
        bool found = false;
        for (size_t j = 0; j < want.size() && !found; ++j) {
          if (!used[j] && x.pts.size() >= 2 && ((dist(x.pts[0], want[j].first) <= tol && dist(x.pts.back(), want[j].second) <= tol) || (dist(x.pts[0], want[j].second) <= tol && dist(x.pts.back(), want[j].first) <= tol))) {used[j] = found = true;}
        }
        c.check(found, k + "_stretch", "swath ", swl::str(x), " is no stretch of the lines inside");
        c.count("stretches");
      }
    };
    auto ap = [&] (const std::string& k, const MPoly& m, auto add, const std::vector<std::vector<P>>& ls) {
      F2CSwaths s;
      size_t pre = c.rng.i(0, 3);
      VM m0 = swl::any(c.rng, int(pre));
      for (auto& x : m0) {s.emplace_back(swl::make(x));}
      add(s);
      for (size_t i = 0; i < pre; ++i) {c.check(swl::same(swl::of(s.at(i)), m0[i]), k + "_before", "earlier swath ", i, " changed");}
      judge(ls, m, s, pre, k);
    };
    ap("lines_cells", f.m, [&] (F2CSwaths& s) {s.append(ml, A, w, ty(t));}, in);
    ap("lines_cell", {f.m[0]}, [&] (F2CSwaths& s) {s.append(ml, one, w, ty(t));}, in);
    ap("line_cells", f.m, [&] (F2CSwaths& s) {s.append(cv::line(in[0]), A, w, ty(t));}, {in[0]});
    ap("line_cell", {f.m[0]}, [&] (F2CSwaths& s) {s.append(cv::line(in[0]), one, w, ty(t));}, {in[0]});
    F2CSwaths s;
    c.throws([&] {s.append(cv::line({{0, 0}, {1, 1}}), 0.0, ty(t));}, "bad_width", "width 0 appended");
    c.throws([&] {s.append(F2CMultiLineString(cv::line({{0, 0}, {1, 1}})), -1.0, ty(t));}, "bad_width", "width -1 appended");
    c.check(s.size() == 0, "bad_width_added", "a refused swath was added");
    c.sig(a); c.sig(w); c.sig(offs[0]);
  });
}
SCENARIO(grouped, 20000, 300000) {
  auto& r = c.rng;
  std::vector<VM> m;
  F2CSwathsByCells g;
  int made = r.i(0, 3), n = made == 3 ? r.i(1, 2) : r.p(0.1) ? 0 : r.i(1, 7);
  for (int i = 0; i < n; ++i) {m.push_back(swl::any(r, r.p(0.3) ? 0 : r.i(1, 6)));}
  if (made == 0) {for (auto& v : m) {if (r.p(0.5)) {g.emplace_back(swl::list(v));} else {g.push_back(swl::list(v));}}}
  else if (made == 1) {std::vector<F2CSwaths> v; for (auto& x : m) {v.push_back(swl::list(x));} g = F2CSwathsByCells(v);}
  else if (made == 3) {if (n == 1) {g = F2CSwathsByCells({swl::list(m[0])});} else {g = F2CSwathsByCells({swl::list(m[0]), swl::list(m[1])});}}
  else {g = F2CSwathsByCells(n); for (int i = 0; i < n; ++i) {if (r.p(0.5)) {g.at(i) = swl::list(m[i]);} else {g[i] = swl::list(m[i]);}}}
  double tol = 0;
  for (int k = 0, ops = r.i(1, 4); k < ops; ++k) {
    if (k) {
      int op = r.i(0, 4);
      if (op == 0) {g.reverse(); std::reverse(m.begin(), m.end());}
      if (op == 1) {VM v = swl::any(r, r.i(0, 4)); g.emplace_back(swl::list(v)); m.push_back(v);}
      if (op == 2) {VM all; for (auto& v : m) {all.insert(all.end(), v.begin(), v.end());} tol += swl::cloneTol(all); g = g.clone();}
      if (op == 4) {   // changed while going through them
        size_t i = 0;
        for (auto&& x : g) {if (r.p(0.5)) {for (auto&& y : x) {y.reverse();} for (auto& y : m[i]) {y = swl::rev(y);}} ++i;}
        c.check(i == m.size(), "group_walk", "went through ", i, " groups");
      }
      if (op == 3 && !m.empty()) {size_t i = r.next() % m.size(); M x = swl::any(r, 1)[0]; g.at(i).emplace_back(swl::make(x)); m[i].push_back(x);}
    }
    VM all;
    for (auto& v : m) {all.insert(all.end(), v.begin(), v.end());}
    const F2CSwathsByCells& cg = g;
    c.require(cg.size() == m.size(), "groups", "groups ", cg.size(), " want ", m.size());
    c.check(cg.sizeTotal() == all.size(), "total", "total ", cg.sizeTotal(), " want ", all.size());
    for (size_t i = 0; i < m.size(); ++i) {c.check(swl::same(swl::of(cg.at(i)), m[i], tol) && &cg[int(i)] == &cg.at(i), "group", "group ", i);}
    size_t k2 = 0; for (auto&& x : cg) {c.check(x.size() == m[k2].size(), "group_iterate", "group ", k2); ++k2;}
    if (!m.empty()) {c.check(&cg.back() == &cg.at(m.size() - 1), "group_back", "last group");}
    for (size_t i = 0; i < all.size(); ++i) {
      c.check(swl::same(swl::of(cg.getSwath(i)), all[i], tol), "global_index", "swath ", i, " overall");
      c.check(&cg.getSwath(i) == &g.getSwath(i), "global_index_const", "swath ", i, " overall");
    }
    for (size_t past : {all.size(), all.size() + 1, all.size() + 100, size_t(-1)}) {
      c.throws([&] {cg.getSwath(past);}, "global_past_end", vf::cat("swath ", past, " of ", all.size()));
      c.throws([&] {g.getSwath(past);}, "global_past_end", vf::cat("swath ", past, " of ", all.size()));
    }
    c.throws([&] {cg.at(m.size());}, "group_past_end", "group past the end");
    c.check(swl::same(swl::of(cg.flatten()), all, tol), "flatten", "flattened ", swl::ids(swl::of(cg.flatten())), " want ", swl::ids(all));
    c.count("groupings"); c.count("swaths", all.size());
  }
  c.sig(double(n)); c.sig(double(g.sizeTotal())); if (n && !m[0].empty()) {c.sig(m[0][0].w);}
}
VF_MAIN

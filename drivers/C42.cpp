// BUILD: shim
// NOTE: live heap bytes (AddressSanitizer's allocator) after each round of the same and of different work, including work that ends in an exception; steady growth is a leak
#include "jobs.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace jobs;
namespace {
size_t live() {return __sanitizer_get_current_allocated_bytes();}
// a leak grows in every one of a row of batches; caches of the libraries below fill up
template <class F> void steady(vf::Case& c, const std::string& what, int runs, F f) {
  for (int i = 0; i < 2; ++i) {f(i);}
  const int B = 4;
  bool again = false;
  for (int round = 0; round < 4; ++round) {
    int grew = 0; size_t first = live(), last = first;
    for (int b = 0; b < B; ++b) {
      size_t b0 = live();
      for (int i = 0; i < runs; ++i) {f(2 + (round * B + b) * runs + i);}
      last = live();
      grew += last >= b0 + 8 * size_t(runs);
    }
    c.count("heap_readings", B);
    c.count("operations_repeated", size_t(B * runs));
    again = grew == B;
    if (!again) {break;}
    if (round == 3) {c.check(false, "leak_" + what, "live memory grew by ", double(last - first) / (B * runs), " bytes with each of ", B * runs, " runs, after ", 3 * B * runs, " before");}
  }
  c.check(!again, "steady_" + what, "live memory keeps growing");
}
std::string scratch() {return getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp";}
}  // namespace
SCENARIO(same_work, 360, 40000) {
  auto& r = c.rng;
  int k = int(c.idx) % KINDS; uint64_t seed = r.next();
  c.desc = vf::cat("work ", k, ":", seed);
  std::string dir = scratch(), first;
  bool all = true; size_t ev = 0;
  steady(c, vf::cat("work", k), 3, [&] (int) {
    Log l; job(l, k, seed, dir);
    if (first.empty()) {first = l.s; ev = l.events;}
    all &= l.s == first;
  });
  c.check(all, vf::cat("differs", k), "repeating the work gives another result");
  c.count(first.find("threw") == std::string::npos ? vf::cat("work", k) : vf::cat("work", k, "_threw"));
  c.count("events", ev);
  c.sig(k); c.sig(vf::hashStr(first));
}
SCENARIO(other_work, 72, 6000) {
  auto& r = c.rng;
  int k = int(c.idx) % KINDS; uint64_t seed = r.next();
  if (k == 7) {return;}    // every system looked up stays in the cache of the projection library
  c.desc = vf::cat("work ", k, ":", seed);
  std::string dir = scratch();
  steady(c, vf::cat("others", k), 4, [&] (int i) {Log l; job(l, k, vf::mix(seed + i), dir); c.count("events", l.events);});
  c.sig(k); c.sig(seed);
}
// objects which stay, copied over and over
SCENARIO(assigned, 240, 20000) {
  auto& r = c.rng;
  F2CCells f = someField(r), f2 = someField(r);
  F2CSwaths sw; for (auto& m : swl::parallel(r, r.i(2, 8))) {sw.push_back(swl::make(m));}
  F2CSwath s = sw.at(0), s2 = sw.at(1);
  F2CField fld(f, "a"), fld2(f2, "b");
  F2CLineString ln = s.getPath(), ln2 = s2.getPath();
  F2CLinearRing rg = f.getCell(0).getExteriorRing(), rg2 = f2.getCell(0).getExteriorRing();
  F2CPoint p(1, 2), q(3, 4);
  F2CCell cl = f.getCell(0), cl2 = f2.getCell(0);
  int k = r.i(0, 11);
  c.desc = vf::cat("kind ", k);
  steady(c, vf::cat("assign", k), 10, [&] (int i) {
    switch (k) {
      case 0: {F2CCells t = f; f = f2; f2 = std::move(t); break;}
      case 1: {F2CCell t = std::move(cl); cl = cl2; cl2 = t; cl = cl.clone(); break;}
      case 2: {F2CPoint t = p; p = std::move(q); q = t; p = q + t; p = p.clone(); break;}
      case 3: {F2CLineString t = ln.clone(); ln = ln2; ln2 = t; ln2.setGeometry(0, p); break;}
      case 4: {F2CLinearRing t = rg; rg = rg2.clone(); rg2 = t; rg.setGeometry(0, rg.getGeometry(0)); break;}
      case 5: {F2CField t = fld; fld = fld2; fld2 = std::move(t); fld.setField(f2); fld.setRefPoint(p); break;}
      case 6: {F2CSwath t = s; s = s2.clone(); s2 = t; s.setPath(ln); s.reverse(); break;}
      case 7: {F2CSwaths t = sw; sw = t.clone(); sw.at(0) = s; break;}
      case 8: {f.setGeometry(0, cl); cl.setGeometry(0, rg); f.setGeometry(0, f2.getCell(0)); break;}
      case 9: {for (auto& x : f) {for (auto& y : x) {for (auto& z : y) {z = z + F2CPoint(i % 2 ? 1 : -1, 0);}}} break;}
      case 10: {*f.get() = *f2.get(); OGRMultiPolygon* o = f.get(); F2CCells t(o); F2CCells u(static_cast<const OGRGeometry*>(o)); t = u; F2CPoint pp(p.get()); p = pp; break;}
      default: {F2CRoute ro; ro.addConnectedSwaths(F2CMultiPoint(), sw); F2CRoute ro2 = ro; ro = ro2.clone(); F2CStrip st; st.setCell(cl); F2CStrip st2 = st; F2CGraph2D g; g.addEdge(p, q); F2CGraph2D h = g; h = g; break;}
    }
  });
  c.sig(k); c.sig(f.area());
}
// questions about objects which stay
template <class G> void texts(const G& x) {
  (void) x.exportToWkt(); (void) x.exportToGML(); (void) x.exportToKML(); (void) x.exportToJson();
  G y; y.importFromWkt(x.exportToWkt());
  try {G z; z.importFromWkt("POLYGON ((0 0,1 1"); } catch (const std::exception&) {}
}
template <class G, class H> void relations(const G& a, const H& b) {
  (void) a.distance(b); (void) a.disjoint(b); (void) a.crosses(b); (void) a.touches(b); (void) a.within(b); (void) a.intersects(b);
}
SCENARIO(asked, 260, 20000) {
  auto& r = c.rng;
  F2CCells f = someField(r), f2 = someField(r);
  F2CSwaths sw; for (auto& m : swl::parallel(r, r.i(2, 8))) {sw.push_back(swl::make(m));}
  F2CCell cl = f.getCell(0);
  F2CLinearRing rg = cl.getExteriorRing();
  F2CLineString ln(rg), cut = f.createStraightLongLine(rg.getGeometry(0), r.u(0, 3));
  F2CMultiLineString ml(ln); ml.addGeometry(cut);
  F2CMultiPoint mp; for (size_t i = 0; i < rg.size(); ++i) {mp.addPoint(rg.getGeometry(i));}
  F2CPoint p = rg.getGeometry(0), q = p + F2CPoint(r.u(-5, 5), r.u(-5, 5));
  F2CSwath s = sw.at(0);
  int k = int(c.idx) % 26;
  c.desc = vf::cat("kind ", k, " ", f.exportToWkt());
  steady(c, vf::cat("ask", k), 5, [&] (int i) {
    try {
      switch (k) {
        case 0: texts(f); break;
        case 1: texts(cl); break;
        case 2: texts(rg); break;
        case 3: texts(ln); break;
        case 4: texts(ml); break;
        case 5: texts(mp); break;
        case 6: texts(p); break;
        case 7: relations(f, f2); relations(f, p); relations(cl, ln); relations(p, cl); relations(ln, ml); relations(mp, f); break;
        case 8: (void) f.intersection(f2); (void) f.intersection(f2.getCell(0)); (void) F2CCells::intersection(cl, f2.getCell(0)); break;
        case 9: (void) f.difference(f2); (void) f.difference(f2.getCell(0)); break;
        case 10: (void) f.unionOp(f2); (void) f.unionOp(cl); (void) f.unionCascaded(); break;
        case 11: (void) f.splitByLine(cut); break;
        case 12: (void) f.splitByLine(ml); break;
        case 13: (void) f.getLinesInside(cut); (void) f.getLinesInside(ml); (void) cl.getLinesInside(cut); (void) cl.getLinesInside(ml); break;
        case 14: (void) f.getCellsInside(f2); (void) f.getCellWherePoint(q); break;
        case 15: (void) f.convexHull(); (void) cl.convexHull(); (void) f.isConvex(); (void) cl.isConvex(); break;
        case 16: (void) F2CCell::buffer(cl, 0.5); (void) F2CCell::buffer(ln, 0.5); (void) F2CCell::buffer(rg, 0.5); (void) F2CCell::buffer(p, 0.5); break;
        case 17: (void) f.buffer(1); (void) f.buffer(-0.5); (void) F2CCells::buffer(f, -0.5); (void) F2CCells::buffer(cl, 0.5); break;
        case 18: (void) f.isPointIn(q); (void) f.isPointInBorder(p); (void) cl.isPointIn(q); (void) cl.isPointInBorder(p); break;
        case 19: (void) f.closestPointOnBorderTo(q); (void) cl.closestPointOnBorderTo(q); (void) rg.closestPointTo(q); (void) ln.closestPointTo(q); break;
        case 20: (void) f.createSemiLongLine(p, 1); (void) cl.createStraightLongLine(q, 2); (void) f.createLineUntilBorder(p + F2CPoint(0.01, 0.01), 1); break;
        case 21: (void) s.areaCovered(); (void) s.area(f); (void) s.area(); (void) s.areaCovered(f); break;
        case 22: {F2CMultiLineString a = F2CMultiLineString::getLineSegments(ln), b = F2CMultiLineString::getLineSegments(rg); a.append(cut.get()); a.addGeometry(b); a.addGeometry(ln); a.setGeometry(0, cut); break;}
        case 23: {F2CMultiPoint a; a.addPoints(mp); a.setGeometry(0, q); a.addPoint(1, 2, 3); (void) a.getFirstPoint(); (void) a.getLastPoint(); (void) a.getPointAngle(1); for (auto&& x : a) {x = x + p;} break;}
        case 24: {F2CField x(f, "a"); x.setUTMCoordSystem("UTM:32N"); (void) x.clone(); (void) x.getCellsAbsPosition(); (void) x.getUTMDatum(); (void) x.area(); break;}
        default: {   // refused
          switch (i % 6) {
            case 0: (void) f.getCell(99); break;
            case 1: (void) cl.getInteriorRing(99); break;
            case 2: (void) F2CCells(p.get()); break;
            case 3: (void) F2CCell(ln.get()); break;
            case 4: (void) ln.getGeometry(999); break;
            default: {F2CMultiLineString a; a.setGeometry(5, ln); (void) a.getGeometry(77); break;}
          }
        }
      }
    } catch (const std::exception&) {}
  });
  c.count("questions"); c.sig(k); c.sig(f.area());
}
VF_MAIN

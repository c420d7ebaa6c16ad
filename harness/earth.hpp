// Places on Earth, map projections by their formulas.
#pragma once
#include "vfall.hpp"

namespace earth {
using namespace g;
// transverse Mercator, sixth order series; lon/lat in degrees
inline P utm(P ll, int zone, bool north, bool grs80) {
  const double a = 6378137, f = grs80 ? 1 / 298.257222101 : 1 / 298.257223563, n = f / (2 - f), e = std::sqrt(f * (2 - f)), R = M_PI / 180;
  double n2 = n * n, n3 = n2 * n, n4 = n3 * n, n5 = n4 * n, n6 = n5 * n;
  const double al[7] = {0,
    n / 2 - 2. / 3 * n2 + 5. / 16 * n3 + 41. / 180 * n4 - 127. / 288 * n5 + 7891. / 37800 * n6,
    13. / 48 * n2 - 3. / 5 * n3 + 557. / 1440 * n4 + 281. / 630 * n5 - 1983433. / 1935360 * n6,
    61. / 240 * n3 - 103. / 140 * n4 + 15061. / 26880 * n5 + 167603. / 181440 * n6,
    49561. / 161280 * n4 - 179. / 168 * n5 + 6601661. / 7257600 * n6,
    34729. / 80640 * n5 - 3418889. / 1995840 * n6, 212378941. / 319334400 * n6};
  double A = a / (1 + n) * (1 + n2 / 4 + n4 / 64 + n6 / 256);
  double phi = ll.y * R, lam = (ll.x - (zone * 6 - 183)) * R;
  double t = std::sinh(std::atanh(std::sin(phi)) - e * std::atanh(e * std::sin(phi)));
  double xi = std::atan2(t, std::cos(lam)), eta = std::atanh(std::sin(lam) / std::sqrt(1 + t * t));
  double x = xi, y = eta;
  for (int j = 1; j <= 6; ++j) {x += al[j] * std::sin(2 * j * xi) * std::cosh(2 * j * eta); y += al[j] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);}
  return {500000 + 0.9996 * A * y, (north ? 0 : 1e7) + 0.9996 * A * x};
}
struct Sys {
  std::string name; int kind; int zone {0}; bool north {true}, grs {false};   // kind 0 degrees, 1 UTM, 2 web mercator
  P of(P ll) const {
    if (kind == 0) {return ll;}
    if (kind == 1) {return utm(ll, zone, north, grs);}
    const double R = 6378137; return {R * ll.x * M_PI / 180, R * std::log(std::tan(M_PI / 4 + ll.y * M_PI / 360))};
  }
  double tol() const {return kind == 0 ? 2e-8 : 2e-3;}   // about two millimetres
};
inline int zoneOf(double lon) {return int(std::floor((lon + 180) / 6)) % 60 + 1;}
// a system that is good for places around ll
inline Sys sysFor(vf::Rng& r, P ll) {
  int z = zoneOf(ll.x); bool n = ll.y > 0;
  bool eu = ll.x > -16 && ll.x < 32 && ll.y > 40.5 && ll.y < 84;
  switch (r.i(0, 6)) {
    case 0: return {"EPSG:4326", 0};
    case 1: if (eu) {return {"EPSG:4258", 0};} return {"EPSG:4326", 0};
    case 2: if (std::fabs(ll.y) < 80) {return {"EPSG:3857", 2};} return {"EPSG:4326", 0};
    case 3: return {vf::cat("EPSG:", (n ? 32600 : 32700) + z), 1, z, n, false};
    case 4: if (eu && z >= 28 && z <= 38) {return {vf::cat("EPSG:", 25800 + z), 1, z, true, true};} return {"EPSG:4326", 0};
    case 5: return {vf::cat("UTM:", z, n ? "N" : "S", " datum:WGS84"), 1, z, n, false};
    default: if (!eu) {return {vf::cat("UTM:", z, n ? "N" : "S", " datum:WGS84"), 1, z, n, false};}
      return {vf::cat("UTM:", z, n ? "N" : "S", r.p(0.5) ? " datum:ETRS89" : r.p(0.5) ? " datum:etrs89" : ""), 1, z, n, true};
  }
}
struct Place {P ll; MPoly m; Box b;};
// a field on Earth in degrees
inline Place place(vf::Rng& r, double minSize = 10, double maxSize = 3000) {
  Place p;
  int k = r.i(0, 9);
  double lat = r.p(0.4) ? r.u(41, 70) : r.u(-79, 83), lon = r.p(0.4) ? r.u(-15, 32) : r.u(-179.9, 179.9);
  if (k == 0) {lon = 6 * std::floor(lon / 6) + r.u(-0.02, 0.02);}   // near a zone's edge
  if (k == 1) {lat = r.u(-0.3, 0.3);}
  if (k == 2) {lon = r.p(0.5) ? r.u(-16.2, -16.0) : r.u(32.8, 32.95); lat = r.u(40.1, 60);}
  if (k == 3) {lon = (r.p(0.5) ? 1 : -1) * r.u(179, 179.95);}
  p.ll = {lon, lat};
  gen::Opt o; o.minSize = minSize; o.maxSize = maxSize; o.offsets = false;
  gen::Gen f = gen::field(r, o);
  Box b = box(f.m);
  double sc = 1.0 / 111000, cl = std::max(0.1, std::cos(lat * M_PI / 180));
  p.m = mapM(f.m, [&] (P q) {return P {lon + (q.x - b.x0) * sc / cl, lat + (q.y - b.y0) * sc};});
  p.b = box(p.m);
  double sh = p.b.x1 > 179.999 ? 179.999 - p.b.x1 : p.b.x0 < -179.999 ? -179.999 - p.b.x0 : 0;   // stay off the date line
  if (sh != 0) {p.m = mapM(p.m, [&] (P q) {return P {q.x + sh, q.y};}); p.b = box(p.m); p.ll.x += sh;}
  return p;
}
}  // namespace earth

// QUICK: 4
#include "vfall.hpp"
#include "fields2cover/headland_generator/constant_headland.h"
using namespace g;

static void one(vf::Case& c, const gen::Gen& f, double w, int n) {
  f2c::hg::ConstHL hl;
  F2CCells in = cv::cells(f.m);
  std::string before = cv::snapG(in);
  double tol = 1e-6 * f.size + 2e-11 * f.maxAbs, per = perimeter(f.m), A = area(f.m);
  double lim = 2 * tol * per + 1e-7 * A;
  auto fails = [&] {
    for (int k = 0; k < n; ++k) {if (!refs::canBuffer(f.m, -(k + 0.5) * w)) {return true;}}
    return false;
  };
  std::vector<F2CCells> out, rev;
  try {
    out = hl.generateHeadlandSwaths(in, w, n, true);
    std::vector<F2CCells> def = hl.generateHeadlandSwaths(in, w, n);
    c.require(def.size() == out.size(), "default_dir", "default direction gives ", def.size());
    for (size_t k = 0; k < def.size(); ++k) {
      c.check(areaSymDiff(cv::of(def[k]), cv::of(out[k])) <= 1e-9 * A, "default_dir", "default direction is not out-to-in at ", k);
    }
    rev = hl.generateHeadlandSwaths(in, w, n, false);
  } catch (const std::runtime_error&) {
    if (!fails()) {throw;}
    c.count("geos_failed"); return;
  }
  c.check(cv::snapG(in) == before, "input_modified", "input modified");
  c.require(int(out.size()) == n, "count_out2in", out.size(), " sets for n=", n);
  c.require(int(rev.size()) == n, "count_in2out", rev.size(), " sets for n=", n);
  c.count("track_sets", 2 * n);
  MPoly prev = f.m;
  for (int k = 0; k < n; ++k) {
    double d = (k + 0.5) * w;
    MPoly got = cv::of(out[k]), want;
    c.sig(area(got));
    for (auto& p : f.m) {for (auto& q : refs::buffer(MPoly {p}, -d)) {want.push_back(q);}}
    double d1 = areaSymDiff(got, want), d2 = d1;
    if (d1 > lim) {d2 = areaSymDiff(got, refs::buffer(f.m, -d));}
    bool lib = c.check(d1 <= lim || d2 <= lim, "track", "set ", k, " of ", n, " (w=", w, ") is not the field shrunk by ", d, ": differs by ", d1);
    c.excusing(lib, "geos_wrong", [&] {
      edges(got, [&](P a, P b) {
        for (double t : {0.0, 0.5}) {
          P p = a + (b - a) * t;
          double db = distBorder(p, f.m);
          c.check(db >= d * 0.9895 - tol, "too_close", "track ", k, " at ", db, " < ", d);
          c.check(inside(p, f.m) || db <= tol, "outside", "track ", k, " outside the field");
        }
      });
      c.check(areaDiff(got, prev) <= lim + 0.0105 * w * per * (k > 0), "nesting", "set ", k, " not inside the previous one");
      if (f.isConvex) {
        Ring er = erodeConvex(f.m[0].rings[0], d);
        bool vanishing = erodeConvex(f.m[0].rings[0], 1.02 * d).size() < 3;
        MPoly ex; if (er.size() >= 3) {ex.push_back({{er}});}
        c.check((got.empty() && vanishing) || areaSymDiff(got, ex) <= lim + 0.0105 * d * per, "convex_exact", "set ", k, " differs from exact erosion");
      }
    });
    prev = got;
  }
  if (n > 0) {
    double din = areaSymDiff(cv::of(rev[0]), cv::of(out[n - 1]));
    c.check(din <= lim, "innermost_first", "in-to-out does not start with the innermost track: differs by ", din);
    for (int k = 1; k < n; ++k) {
      MPoly p = cv::of(rev[k - 1]), got = cv::of(rev[k]);
      MPoly want = refs::buffer(p, w);
      double dd = areaSymDiff(got, want);
      bool lib = c.check(dd <= lim, "moved_outwards", "set ", k, " in-to-out is not the previous one moved by w: differs by ", dd);
      c.excusing(lib, "geos_wrong", [&] {
        c.check(areaDiff(p, got) <= lim, "grows", "set ", k, " in-to-out does not contain the previous one");
      });
    }
  }
}
SCENARIO(tracks, 5000, 60000) {
  gen::Opt o; o.maxSize = 300;
  gen::Gen f = gen::field(c.rng, o);
  int n = c.rng.i(0, 9);
  double w0 = f.size * c.rng.logu(0.005, 0.12);
  c.desc = vf::cat(f.kind, " w=", w0, " n=", n, " ", str(f.m));
  c.sig(w0); c.sig(n);
  c.robust([&] (double e) {one(c, f, w0 * (1 + e), n);});
}
SCENARIO(convex_tracks, 1500, 20000) {
  gen::Opt o; o.convexOnly = true; o.holes = false; o.multi = false;
  gen::Gen f = gen::field(c.rng, o);
  int n = c.rng.i(1, 14);
  double w0 = f.size * c.rng.logu(0.005, 0.06);
  c.desc = vf::cat(f.kind, " w=", w0, " n=", n, " ", str(f.m));
  c.sig(w0); c.sig(n);
  c.robust([&] (double e) {one(c, f, w0 * (1 + e), n);});
}
SCENARIO(none, 20, 100) {
  gen::Gen f = gen::field(c.rng);
  f2c::hg::ConstHL hl;
  c.sig(f.size);
  for (bool dir : {true, false}) {
    c.check(hl.generateHeadlandSwaths(cv::cells(f.m), 1.0, 0, dir).empty(), dir ? "zero_out2in" : "zero_in2out", "tracks for n=0");
  }
}
VF_MAIN

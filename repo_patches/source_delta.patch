From bb0bfc1a95a3c8b9dd792e186c37abd2ddd2b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 01/56] fix: report a failed geometry operation instead of
 dereferencing null

GEOS returns no result when it cannot compute a buffer or an overlay; the
result was dereferenced. It also leaked when the result had another type.
---
 include/fields2cover/types/Cell.h              |  5 +----
 include/fields2cover/types/Cells.h             |  5 +----
 include/fields2cover/types/Geometries_impl.hpp |  6 ++----
 include/fields2cover/types/Geometry_impl.hpp   | 10 +++++++---
 include/fields2cover/types/MultiLineString.h   | 10 ++--------
 5 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/include/fields2cover/types/Cell.h b/include/fields2cover/types/Cell.h
index f7ce491..9e90b95 100644
--- a/include/fields2cover/types/Cell.h
+++ b/include/fields2cover/types/Cell.h
@@ -103,10 +103,7 @@ struct Cell : public Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing> {
 
 template <class T, OGRwkbGeometryType R>
 Cell Cell::convexHull(const Geometry<T, R>& geom) {
-  OGRGeometry* c_hull = geom->ConvexHull();
-  Cell cell {c_hull};
-  OGRGeometryFactory::destroyGeometry(c_hull);
-  return cell;
+  return destroyResGeom<Cell>(geom->ConvexHull());
 }
 
 
diff --git a/include/fields2cover/types/Cells.h b/include/fields2cover/types/Cells.h
index c9271db..cfb90da 100644
--- a/include/fields2cover/types/Cells.h
+++ b/include/fields2cover/types/Cells.h
@@ -97,10 +97,7 @@ struct Cells : public Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon,
 
 template <class T, OGRwkbGeometryType R>
 Cells Cells::buffer(const Geometry<T, R>& geom, double width, int side) {
-  OGRGeometry* buffer = geom.OGRBuffer(width, side);
-  Cells cells {buffer};
-  OGRGeometryFactory::destroyGeometry(buffer);
-  return cells;
+  return destroyResGeom<Cells>(geom.OGRBuffer(width, side));
 }
 
 
diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..41d7e14 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -25,10 +25,8 @@ SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::simplify(
     double d_tol) const {
-  OGRGeometry* s = this->data_->SimplifyPreserveTopology(d_tol);
-  SAMETYPE f2c_s(s);
-  OGRGeometryFactory::destroyGeometry(s);
-  return f2c_s;
+  return this->template destroyResGeom<SAMETYPE>(
+    this->data_->SimplifyPreserveTopology(d_tol));
 }
 
 
diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index dc40a8a..a1f5669 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -11,6 +11,7 @@
 #include <cpl_conv.h>
 #include <geos_c.h>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 #include <string>
 
@@ -279,9 +280,12 @@ inline To Geometry<T, R>::downCast(From *f) const {
 template <class T, OGRwkbGeometryType R>
 template<typename RetType>
 RetType Geometry<T, R>::destroyResGeom(OGRGeometry* g) {
-  RetType res(g);
-  OGRGeometryFactory::destroyGeometry(g);
-  return res;
+  std::unique_ptr<OGRGeometry, void(*)(OGRGeometry*)> geom(
+      g, [](OGRGeometry* f) {OGRGeometryFactory::destroyGeometry(f);});
+  if (!geom) {
+    throw std::runtime_error("The geometry operation could not be computed");
+  }
+  return RetType(geom.get());
 }
 
 // ###############################
diff --git a/include/fields2cover/types/MultiLineString.h b/include/fields2cover/types/MultiLineString.h
index 5dc5514..8b67b6d 100644
--- a/include/fields2cover/types/MultiLineString.h
+++ b/include/fields2cover/types/MultiLineString.h
@@ -61,20 +61,14 @@ struct MultiLineString :
 
 template <class T, OGRwkbGeometryType R>
 MultiLineString MultiLineString::intersection(const Geometry<T, R>& g) const {
-  auto inter = this->data_->Intersection(g.get());
-  f2c::types::MultiLineString lines(inter);
-  OGRGeometryFactory::destroyGeometry(inter);
-  return lines;
+  return destroyResGeom<MultiLineString>(this->data_->Intersection(g.get()));
 }
 
 
 template <class T, OGRwkbGeometryType R>
 MultiLineString MultiLineString::intersection(
     const LineString& line, const Geometry<T, R>& g) {
-  auto inter = line->Intersection(g.get());
-  f2c::types::MultiLineString lines(inter);
-  OGRGeometryFactory::destroyGeometry(inter);
-  return lines;
+  return destroyResGeom<MultiLineString>(line->Intersection(g.get()));
 }
 
 
-- 
2.43.0


From 4ae24dbeff68c3a4b87ef52f922af6076e2412a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 02/56] fix: return no headland swaths when none is asked for,
 in both directions

---
 src/fields2cover/headland_generator/constant_headland.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..c21523f 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -22,6 +22,9 @@ F2CCells ConstHL::generateHeadlandArea(
 std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     const F2CCells& field, double swath_width, int n_swaths, bool dir_out2in) {
   std::vector<F2CCells> hl;
+  if (n_swaths <= 0) {
+    return hl;
+  }
   if (dir_out2in) {
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
-- 
2.43.0


From a782bca73666d4cbdb12bb5a0a4e250c5ea791aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 03/56] fix: do not throw while splitting cells when a piece
 cannot be grown back

The pieces grown by half the cut were assigned to the iterator's copy and
never stored, but a piece whose growth is not one polygon raised.
---
 src/fields2cover/types/Cells.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..72e32a7 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -178,11 +178,7 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  Cells cells = this->difference(this->buffer(line, 1e-8));
-  for (auto&& c : cells) {
-    c = Cell::buffer(c, 1e-8 * 0.5);
-  }
-  return cells;
+  return this->difference(this->buffer(line, 1e-8));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-- 
2.43.0


From cc987caa4bcb3658aa2d35522a01ff8508662f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 04/56] fix: let a split line cut through the border it ends at

---
 src/fields2cover/types/Cells.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 72e32a7..4601418 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -178,7 +178,23 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  return this->difference(this->buffer(line, 1e-8));
+  // A cut has to reach a bit past its ends, or rounding may leave the pieces
+  // joined at the border where the line ends.
+  const double width = 1e-8;
+  LineString cut = line.clone();
+  if (cut.size() > 1 && cut.length() > 0.0) {
+    const double extra = 10 * width;
+    const Point first = cut.getGeometry(0), second = cut.getGeometry(1);
+    const Point last = cut.getGeometry(cut.size() - 1);
+    const Point prev = cut.getGeometry(cut.size() - 2);
+    if (first.distance(second) > 0.0) {
+      cut.setGeometry(0, first + (first - second) * (extra / first.distance(second)));
+    }
+    if (last.distance(prev) > 0.0) {
+      cut.setGeometry(cut.size() - 1, last + (last - prev) * (extra / last.distance(prev)));
+    }
+  }
+  return this->difference(this->buffer(cut, width));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-- 
2.43.0


From 659cb22dcd6c58a42239b7abc24e2f396a579394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/56] fix: treat edges along the split angle the same
 whatever the rounding

---
 .../decomposition/boustrophedon_decomp.h      |  5 +++
 .../decomposition/boustrophedon_decomp.cpp    | 39 +++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/fields2cover/decomposition/boustrophedon_decomp.h b/include/fields2cover/decomposition/boustrophedon_decomp.h
index 0890861..a237cfe 100644
--- a/include/fields2cover/decomposition/boustrophedon_decomp.h
+++ b/include/fields2cover/decomposition/boustrophedon_decomp.h
@@ -30,6 +30,11 @@ class BoustrophedonDecomp : public TrapezoidalDecomp {
 
  private:
   bool isLinePartOfLinearRing(const F2CLinearRing & ring, const F2CLineString & line) const;
+
+  /// Line from \a start until the border, once past the edges of the
+  /// ring that follow the same angle.
+  F2CLineString createLinePastEdges(const F2CCell& cell,
+      const F2CLinearRing& ring, const F2CPoint& start, double angle) const;
 };
 
 }  // namespace f2c::decomp
diff --git a/src/fields2cover/decomposition/boustrophedon_decomp.cpp b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
index 62b6af3..1032d10 100644
--- a/src/fields2cover/decomposition/boustrophedon_decomp.cpp
+++ b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
@@ -33,6 +33,35 @@ bool BoustrophedonDecomp::isLinePartOfLinearRing(
   return false;
 }
 
+F2CLineString BoustrophedonDecomp::createLinePastEdges(
+  const F2CCell& cell, const F2CLinearRing& ring,
+  const F2CPoint& start, double angle) const
+{
+  F2CPoint p = start;
+  while (true) {
+    // Because of rounding, an edge with the split angle may be in or out of the
+    // cell, so edges are looked for before casting the line.
+    const F2CPoint dir = F2CPoint(0, 0).getPointFromAngle(angle, 1.0);
+    bool along_edge = false;
+    for (size_t i = 0; i + 1 < ring.size() && !along_edge; ++i) {
+      F2CPoint a = ring.getGeometry(i), b = ring.getGeometry(i + 1);
+      if (p != a && p != b) {continue;}
+      const F2CPoint next = (p == a) ? b : a;
+      const F2CPoint v = next - p;
+      if (v.X() * dir.X() + v.Y() * dir.Y() > 1e-5 &&
+          fabs(v.X() * dir.Y() - v.Y() * dir.X()) < 1e-7) {
+        p = next;
+        along_edge = true;
+      }
+    }
+    if (!along_edge) {
+      auto line = cell.createLineUntilBorder(p, angle);
+      if (!isLinePartOfLinearRing(ring, line)) {return line;}
+      p = line.endPoint();
+    }
+  }
+}
+
 F2CMultiLineString BoustrophedonDecomp::genSplitLines(
   const F2CCells & cells, const obj::DecompObjective & obj)
 {
@@ -40,14 +69,8 @@ F2CMultiLineString BoustrophedonDecomp::genSplitLines(
   for (auto && cell : cells) {
     for (auto && ring : cell) {
       for (auto && p : ring) {
-        auto line1 = cell.createLineUntilBorder(p, split_angle);
-        while (isLinePartOfLinearRing(ring, line1)) {
-          line1 = cell.createLineUntilBorder(line1.endPoint(), split_angle);
-        }
-        auto line2 = cell.createLineUntilBorder(p, split_angle + M_PI);
-        while (isLinePartOfLinearRing(ring, line2)) {
-          line2 = cell.createLineUntilBorder(line2.endPoint(), split_angle + M_PI);
-        }
+        auto line1 = createLinePastEdges(cell, ring, p, split_angle);
+        auto line2 = createLinePastEdges(cell, ring, p, split_angle + M_PI);
 
         if (line1.length() > 1e-5 && line2.length() > 1e-5) {
           split_lines.addGeometry(line1);
-- 
2.43.0


From ee3d7ef21fdf72cecab3ebe62ff11b8db502c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 06/56] fix: do not cut a cell twice along the same line

---
 src/fields2cover/types/Cells.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 4601418..6b9c6f4 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -199,8 +199,21 @@ Cells Cells::splitByLine(const LineString& line) const {
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
   Cells cells{*this};
-  for (auto&& line : lines) {
-    cells = cells.splitByLine(line);
+  for (size_t i = 0; i < lines.size(); ++i) {
+    const LineString line = lines.getGeometry(i);
+    // Cutting again over an old cut adds nothing, and may lose pieces.
+    bool already_cut = false;
+    for (size_t j = 0; j < i && !already_cut; ++j) {
+      const LineString old = lines.getGeometry(j);
+      already_cut = old.size() == 2 && line.size() == 2 &&
+        ((old.startPoint() == line.startPoint() &&
+          old.endPoint() == line.endPoint()) ||
+         (old.startPoint() == line.endPoint() &&
+          old.endPoint() == line.startPoint()));
+    }
+    if (!already_cut) {
+      cells = cells.splitByLine(line);
+    }
   }
   return cells;
 }
-- 
2.43.0


From 6d4754d8388fb3ed348aca48dd058e7edbb329d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 07/56] fix: keep the lines of an intersection which also has
 points

---
 src/fields2cover/types/Cell.cpp            | 3 +++
 src/fields2cover/types/MultiLineString.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..a1821f3 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -193,9 +193,12 @@ LineString Cell::createLineUntilBorder(
     const f2c::types::Point& p, double ang) const {
   const MultiLineString ray(this->createSemiLongLine(p, ang));
   const auto intersections(ray.intersection(*this));
+  const bool from_cell {this->distance(p) <= 1e-5};
   Point best_point{p};
   double min_dist {std::numeric_limits<double>::max()};
   for (auto&& line : intersections) {
+    // From the cell, stretches met after leaving it are not followed
+    if (from_cell && line.distance(p) > 1e-5) {continue;}
     for (auto&& p_l : line) {
       double dist = p_l.distance(p);
       if (dist > 1e-5 && min_dist > dist) {
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..973ff21 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -65,6 +65,11 @@ void MultiLineString::append(const OGRGeometry* geom) {
         data_->addGeometry(ring);
       }
     }
+  } else if (wkbFlatten(geom->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    for (auto&& g : *geom->toGeometryCollection()) {
+      this->append(g);
+    }
   }
 }
 
-- 
2.43.0


From f15eca459676d8723f171d948a7d05f2967dcc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 08/56] fix: coverage of no swaths is zero

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From 22e4732e74935fa5447eafdb62df3e9885d22fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 09/56] fix: count the overlap of every pair of swaths once

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..4d452d3 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -15,9 +15,9 @@ double Overlaps::computeCost(const F2CCell& poly, const F2CSwaths& swaths) {
 double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   double area_overlaped {0.0};
   std::vector<F2CCells> areas;
-  for (int i = swaths.size() - 1; i >= 0; --i) {
+  for (size_t i = 0; i < swaths.size(); ++i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
+    for (size_t j = 0; j < i; ++j) {
       if (areas[i].intersects(areas[j])) {
         area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
       }
-- 
2.43.0


From de49ee4ac9dc862ebb884c6f4f262a9c3a00784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 10/56] fix: index of the point before the first one of a ring

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..98e2ffa 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -17,7 +17,7 @@ double NSwathModified::computeCost(
   for (auto&& ring : cell) {
     for (size_t i = 0; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry((i + ring.size() - 1) % ring.size());
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From 6191c7af85be0582ead28ce1564fa7684899d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 11/56] fix: reject step angles that give no angle to try

---
 src/fields2cover/swath_generator/brute_force.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/swath_generator/brute_force.cpp b/src/fields2cover/swath_generator/brute_force.cpp
index 78ceb0f..90b6a73 100644
--- a/src/fields2cover/swath_generator/brute_force.cpp
+++ b/src/fields2cover/swath_generator/brute_force.cpp
@@ -25,8 +25,11 @@ void BruteForce::setStepAngle(double d) {
 
 double BruteForce::computeBestAngle(f2c::obj::SGObjective& obj,
     double op_width, const F2CCell& poly) {
-  int n = static_cast<int>(
-      boost::math::constants::two_pi<double>() / step_angle);
+  if (!(step_angle > 0.0)) {
+    throw std::invalid_argument("Step angle needs to be positive");
+  }
+  int n = std::max(1, static_cast<int>(
+      boost::math::constants::two_pi<double>() / step_angle));
   std::vector<double> costs(n);
   std::vector<int> ids(n);
   std::iota(ids.begin(), ids.end(), 0);
-- 
2.43.0


From f8ec8669c447dbbbb140794c5a95144ab04cbc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 12/56] fix: do not loop forever generating swaths without
 width

---
 src/fields2cover/swath_generator/swath_generator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/swath_generator/swath_generator_base.cpp b/src/fields2cover/swath_generator/swath_generator_base.cpp
index 3a0b5e6..4727095 100644
--- a/src/fields2cover/swath_generator/swath_generator_base.cpp
+++ b/src/fields2cover/swath_generator/swath_generator_base.cpp
@@ -42,6 +42,9 @@ F2CSwathsByCells SwathGeneratorBase::generateSwaths(double angle,
 
 F2CSwaths SwathGeneratorBase::generateSwaths(double angle,
     double op_width, const F2CCell& poly) {
+  if (op_width <= 0.0) {
+    throw std::invalid_argument("Operation width needs to be positive");
+  }
   auto rot_poly {F2CPoint(0.0, 0.0).rotateFromPoint(-angle, poly)};
 
   double field_height {rot_poly.getHeight()};
-- 
2.43.0


From 56a7c9a7fe39f41ca9831a20580685beeff6e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 13/56] fix: cost of the gaps of a route without some of its
 connections

---
 .../objectives/rp_obj/rp_objective.cpp        | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..a267339 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include "fields2cover/objectives/rp_obj/rp_objective.h"
+#include <algorithm>
 
 namespace f2c::obj {
 
@@ -79,7 +80,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (ps.isEmpty() || s.size() == 0) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +95,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
@@ -125,10 +129,30 @@ double RPObjective::computeCost(const F2CRoute& r) {
   for (auto&& s : r.getConnections()) {
     dist += computeCost(s);
   }
-  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
-    dist += computeCost(r.getConnection(i), r.getSwaths(i));
-    if (i + 1 < r.sizeConnections()) {
-      dist += computeCost(r.getSwaths(i), r.getConnection(i + 1));
+  // Gaps between each connection or group of swaths and the following one
+  const F2CMultiPoint* last_connection {nullptr};
+  const F2CSwaths* last_swaths {nullptr};
+  for (size_t i = 0;
+      i < std::max(r.sizeConnections(), r.sizeVectorSwaths()); ++i) {
+    if (i < r.sizeConnections() && !r.getConnection(i).isEmpty()) {
+      const auto& connection = r.getConnection(i);
+      if (last_swaths) {
+        dist += computeCost(*last_swaths, connection);
+      } else if (last_connection) {
+        dist += computeCost(last_connection->getLastPoint(),
+            connection.getFirstPoint());
+      }
+      last_connection = &connection;
+      last_swaths = nullptr;
+    }
+    if (i < r.sizeVectorSwaths() && r.getSwaths(i).size() > 0) {
+      const auto& swaths = r.getSwaths(i);
+      if (last_swaths) {
+        dist += computeCost(last_swaths->back(), swaths[0]);
+      } else if (last_connection) {
+        dist += computeCost(*last_connection, swaths);
+      }
+      last_swaths = &swaths;
     }
   }
   return dist;
-- 
2.43.0


From 4f0e3ff2c96ea23b0254823a0527c3d4bde6167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 14/56] fix: ends of a route whose first or last parts are
 empty

---
 src/fields2cover/types/Route.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..f3be020 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include "fields2cover/types/Route.h"
+#include <algorithm>
 
 namespace f2c::types {
 
@@ -121,20 +122,25 @@ void Route::setConnection(size_t i, const MultiPoint& mp) {
 }
 
 Point Route::startPoint() const {
-  if (sizeConnections() > 0 && connections_[0].size() > 0) {
-    return connections_[0].getFirstPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_[0].size() > 0) {
-    return v_swaths_[0][0].startPoint();
+  for (size_t i = 0; i < std::max(sizeConnections(), sizeVectorSwaths()); ++i) {
+    if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getFirstPoint();
+    }
+    if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i][0].startPoint();
+    }
   }
   return {};
 }
 
 Point Route::endPoint() const {
-  if (sizeConnections() > sizeVectorSwaths() &&
-      connections_.back().size() > 0) {
-    return connections_.back().getLastPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_.back().size() > 0) {
-    return v_swaths_.back().back().endPoint();
+  for (size_t i = std::max(sizeConnections(), sizeVectorSwaths()); i > 0; --i) {
+    if (i <= sizeVectorSwaths() && v_swaths_[i - 1].size() > 0) {
+      return v_swaths_[i - 1].back().endPoint();
+    }
+    if (i <= sizeConnections() && connections_[i - 1].size() > 0) {
+      return connections_[i - 1].getLastPoint();
+    }
   }
   return {};
 }
-- 
2.43.0


From a921cc83eb9c62fac52c2daf025d287a2e402384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 15/56] fix: graph paths after removing edges, with sink nodes
 and any node numbers

---
 include/fields2cover/types/Graph.h |  6 +++++
 src/fields2cover/types/Graph.cpp   | 40 ++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..4b6d3bf 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -68,6 +68,12 @@ class Graph {
     std::vector<bool>& visited,
     int& route_index) const;
 
+  // Forget the shortest paths computed before the last change
+  void clearPaths();
+
+  // Size of the tables indexed by node: the highest node plus one
+  size_t sizeTables() const;
+
  protected:
   map_to_map_to_int edges_;
   short_path_container_t shortest_paths_;       // sequence of nodes
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..425ae4e 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,11 +12,8 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
-  if (!this->next_.empty() || !this->distance_.empty()) {
-    this->next_.clear();
-    this->distance_.clear();
-    this->shortest_paths_.clear();
-  }
+  this->edges_[to];  // Nodes without outgoing edges are also nodes
+  this->clearPaths();
   return *this;
 }
 
@@ -30,16 +27,31 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->clearPaths();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
   return this->removeDirectedEdge(i, j).removeDirectedEdge(j, i);
 }
 
+void Graph::clearPaths() {
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
+}
+
 size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::sizeTables() const {
+  size_t n {0};
+  for (auto&& e : this->edges_) {
+    n = std::max(n, e.first + 1);
+  }
+  return n;
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -69,7 +81,7 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(std::max(this->sizeTables(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -100,7 +112,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->sizeTables();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -111,7 +123,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = this->sizeTables();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -164,7 +176,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = this->sizeTables();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -192,7 +204,8 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from != to && from < next.size() && to < next.size() &&
+      next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -209,6 +222,13 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
+  if (from == to) {
+    return 0;
+  }
+  if (from >= this->next_.size() || to >= this->next_.size() ||
+      this->next_[from][to] == -1) {
+    return INF;
+  }
   return this->distance_[from][to];
 }
 
-- 
2.43.0


From beba8e4fb066c34292f6d00ad943e09eb0da3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 16/56] fix: hash of points with negative or large coordinates
 overflowed

---
 include/fields2cover/types/Point.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Point.h b/include/fields2cover/types/Point.h
index dc6ea97..6ce926b 100644
--- a/include/fields2cover/types/Point.h
+++ b/include/fields2cover/types/Point.h
@@ -9,6 +9,8 @@
 #define FIELDS2COVER_TYPES_POINT_H_
 
 #include <ogr_geometry.h>
+#include <cmath>
+#include <cstdint>
 #include <iostream>
 #include <functional>
 #include <memory>
@@ -183,7 +185,9 @@ namespace std {
 template<>
 struct hash<f2c::types::Point> {
   inline size_t operator()(const f2c::types::Point& p) const {
-    return size_t(p.getX() + p.getY() * 1e10 + p.getZ() * 1e20);
+    // fmod keeps the value in the range of int64_t
+    return static_cast<size_t>(static_cast<int64_t>(
+        std::fmod(p.getX() + p.getY() * 1e10 + p.getZ() * 1e20, 9e18)));
   }
 };
 }
-- 
2.43.0


From f02d44d1190e14d6967446e0cf8a54949162902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 17/56] fix: snake order of one swath went out of bounds

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..0cdd281 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 2) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From 81a34c16f5e3fe056434e6f21a3533e8f38fb197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 18/56] fix: spiral order with size 0 divided by zero

---
 src/fields2cover/route_planning/spiral_order.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..a5815d6 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -1,16 +1,17 @@
+#include <algorithm>
 #include "fields2cover/route_planning/spiral_order.h"
 
 namespace f2c::rp {
 
 
 SpiralOrder::SpiralOrder(size_t sp_size) {
-  setSpiralSize(static_cast<size_t>(std::max(2, static_cast<int>(sp_size))));
+  setSpiralSize(sp_size);
 }
 
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max(static_cast<size_t>(2), sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From ed09036ef4d9fda8dc4c3b440c953132ec7f081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 19/56] fix: clones of swaths lost their type and refused
 swaths without width

---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..d5284a9 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.path_ = this->path_.clone();
   return new_s;
 }
 
-- 
2.43.0


From 66e9497ee179531db8f64529213b41f9de0efff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 20/56] fix: clone of a field lost its previous CRS, and its
 reference point when empty

---
 src/fields2cover/types/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..efc60bc 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -75,7 +75,11 @@ void Field::setField(const Cells& _field) {
 
 Field Field::clone() const {
   Field new_field {this->field_ + this->ref_point_, this->id_};
+  if (this->isEmpty()) {
+    new_field.ref_point_ = this->ref_point_;
+  }
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
   return new_field;
 }
 
-- 
2.43.0


From 9ebe82efeb2e2b3c9bd3f05416e6e5b0c2bfa0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 21/56] fix: UTM zones of one digit and EPSG codes not at the
 start of the text were misread

---
 src/fields2cover/types/Field.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index efc60bc..9aaff10 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -136,8 +136,12 @@ bool Field::isCoordSystemEPSG() const {
 }
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
-  return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+  std::smatch match;
+  if (std::regex_search(coord_sys, match,
+        std::regex("EPSG:(?:[^:]*:)?\\s*(-?\\d+)"))) {
+    return std::stoi(match.str(1));
+  }
+  return -1;
 }
 
 int Field::getEPSGCoordSystem() const {
@@ -166,7 +170,9 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  // Zones have one or two digits
+  const std::string utm = getUTMCoordSystem(coord_sys);
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -174,7 +180,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  std::string hemisphere {getUTMCoordSystem(coord_sys)};
+  hemisphere.erase(0, getUTMZone(coord_sys).size());
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From 7cb25bfab37f6477b46a9ba99dab357e962f04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 22/56] fix: transformed swaths lost their type and direction

---
 src/fields2cover/utils/transformation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..933a999 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,10 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
-        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+  F2CSwath new_swath(swath);
+  new_swath.setPath(transform(
+        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to));
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +133,9 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath(swath);
+  new_swath.setPath(transform(swath.getPath(), coord_sys_from, coord_sys_to));
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From 1e07c1582e7af43cb7ba21a22e0c6c3a56400ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 23/56] fix: rings and points that do not exist are out of
 range errors, rings added to cells are closed

---
 src/fields2cover/types/Cell.cpp       |  7 +++++++
 src/fields2cover/types/Cells.cpp      | 13 +++++++------
 src/fields2cover/types/Field.cpp      |  7 +++++--
 src/fields2cover/types/MultiPoint.cpp |  4 ++++
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index a1821f3..61f9f98 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -130,10 +130,17 @@ void Cell::addGeometry(const LinearRing& ring) {
 }
 
 const LinearRing Cell::getExteriorRing() const {
+  if (!this->data_->getExteriorRing()) {
+    throw std::out_of_range("Cell does not contain an exterior ring");
+  }
   return LinearRing(this->data_->getExteriorRing());
 }
 
 const LinearRing Cell::getInteriorRing(size_t i) const {
+  if (i >= static_cast<size_t>(this->data_->getNumInteriorRings())) {
+    throw std::out_of_range(
+        "Cell does not contain interior ring " + std::to_string(i));
+  }
   return LinearRing(this->data_->getInteriorRing(i));
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 6b9c6f4..12c4e34 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -114,13 +114,11 @@ const Cell Cells::getCell(size_t i) const {
 }
 
 const LinearRing Cells::getCellBorder(size_t i) const {
-  return LinearRing(
-      downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->getExteriorRing());
+  return this->getGeometry(i).getExteriorRing();
 }
 
 const LinearRing Cells::getInteriorRing(size_t i_cell, size_t i_ring) const {
-  return LinearRing(downCast<OGRPolygon*>(this->data_->getGeometryRef(i_cell))
-      ->getInteriorRing(i_ring));
+  return this->getGeometry(i_cell).getInteriorRing(i_ring);
 }
 
 void Cells::addGeometry(const Cell& c) {
@@ -128,8 +126,11 @@ void Cells::addGeometry(const Cell& c) {
 }
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
-  downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
-      ring.clone().get());
+  if (i >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i));
+  }
+  Cell(this->data_->getGeometryRef(i), EmptyDestructor()).addRing(ring);
 }
 
 size_t Cells::size() const {
diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 9aaff10..97a66ae 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -11,8 +11,11 @@ namespace f2c::types {
 
 Field::Field() = default;
 Field::Field(const Cells& cells, const std::string& id_p) : id_(id_p) {
-  if (!cells.isEmpty()) {
-    this->ref_point_ = cells.getCellBorder(0).startPoint();
+  for (const auto& cell : cells) {
+    if (!cell.isEmpty()) {
+      this->ref_point_ = cell.getExteriorRing().startPoint();
+      break;
+    }
   }
   this->field_ = cells - this->ref_point_;
 }
diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..41fea10 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -73,6 +73,10 @@ const Point MultiPoint::getLastPoint() const {
 
 
 void MultiPoint::setGeometry(size_t i, const Point& p) {
+    if (i >= this->size()) {
+      throw std::out_of_range(
+          "MultiPoint does not contain point " + std::to_string(i));
+    }
     OGRPoint* point = downCast<OGRPoint*>(data_->getGeometryRef(i));
     point->setX(p.getX());
     point->setY(p.getY());
-- 
2.43.0


From e8cb5c3a7f846429442d78556f14b2c2d00589ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 24/56] fix: segments of a line without points

---
 src/fields2cover/types/MultiLineString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 973ff21..e50c802 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -134,7 +134,7 @@ void MultiLineString::addGeometry(const MultiLineString& lines) {
 
 MultiLineString MultiLineString::getLineSegments(const LineString& line) {
   MultiLineString res;
-  for (size_t i = 0; i < line.size()-1; ++i) {
+  for (size_t i = 0; i + 1 < line.size(); ++i) {
     res.addGeometry(LineString({line.getGeometry(i), line.getGeometry(i+1)}));
   }
   return res;
-- 
2.43.0


From 7bf0f6bc1c6157e91d8ed5de1cf24ec2034337d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 25/56] fix: empty lists of angles and closest points of
 geometries with less than two points

---
 include/fields2cover/types/Geometry_impl.hpp | 6 +++++-
 src/fields2cover/types/Cell.cpp              | 3 +++
 src/fields2cover/types/Cells.cpp             | 3 +++
 src/fields2cover/types/LineString.cpp        | 6 +++---
 src/fields2cover/types/LinearRing.cpp        | 6 +++---
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index a1f5669..402c429 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -194,7 +194,11 @@ double Geometry<T, R>::getAngContinuity(double prev_val, double val) {
 template <class T, OGRwkbGeometryType R>
 std::vector<double> Geometry<T, R>::getAngContinuity(
     const std::vector<double>& val) {
-  std::vector<double> res {val[0]};
+  std::vector<double> res;
+  if (val.empty()) {
+    return res;
+  }
+  res.emplace_back(val[0]);
   for (size_t i = 1; i < val.size(); ++i) {
     res.emplace_back(getAngContinuity(res[i - 1], val[i]));
   }
diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 61f9f98..d49b9ef 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -224,6 +224,9 @@ Point Cell::closestPointOnBorderTo(const Point& p) const {
     ps.emplace_back(ring.closestPointTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("There is no border in an empty geometry");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 12c4e34..524930d 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -276,6 +276,9 @@ Point Cells::closestPointOnBorderTo(const Point& p) const {
     ps.emplace_back(cell.closestPointOnBorderTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("There is no border in an empty geometry");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..cb40826 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -128,9 +128,9 @@ double LineString::endAngle() const {
 }
 
 Point LineString::closestPointTo(const Point& p) const {
-  std::vector<double> dist;
-  std::vector<Point> ps;
-  for (size_t i = 0; i < this->size() - 1; ++i) {
+  std::vector<Point> ps {this->startPoint()};
+  std::vector<double> dist {ps.back().distance(p)};
+  for (size_t i = 0; i + 1 < this->size(); ++i) {
     ps.emplace_back(p.closestPointInSegment(this->at(i), this->at(i+1)));
     dist.emplace_back(ps.back().distance(p));
   }
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..fef0c2a 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -134,9 +134,9 @@ LinearRing& LinearRing::closeRing() {
 }
 
 Point LinearRing::closestPointTo(const Point& p) const {
-  std::vector<double> dist;
-  std::vector<Point> ps;
-  for (size_t i = 0; i < this->size() - 1; ++i) {
+  std::vector<Point> ps {this->startPoint()};
+  std::vector<double> dist {ps.back().distance(p)};
+  for (size_t i = 0; i + 1 < this->size(); ++i) {
     ps.emplace_back(p.closestPointInSegment(this->at(i), this->at(i+1)));
     dist.emplace_back(ps.back().distance(p));
   }
-- 
2.43.0


From 0839e769737aec16035d8a7aaa905906164faf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 26/56] fix: band around a ring which is narrow somewhere

---
 src/fields2cover/types/Cell.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index d49b9ef..d694b2a 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -107,7 +107,8 @@ Cell Cell::buffer(const LineString& geom, double width) {
 Cell Cell::buffer(const LinearRing& geom, double width) {
   Cell cell(geom);
   Cells b_cell_out {buffer(cell, fabs(width))};
-  Cell b_cell_in = buffer(cell, -fabs(width));
+  // Narrow cells may be split when shrunk
+  Cells b_cell_in = Cells::buffer(cell, -fabs(width));
   auto diff = b_cell_out.difference(b_cell_in);
   return (diff.size() > 0 ? diff.getGeometry(0) : Cell());
 }
-- 
2.43.0


From 128e387690552d5b032247249115097efc4aa2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 27/56] fix: one-sided buffers had points with NaN height

---
 include/fields2cover/types/Geometry_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index 402c429..3c1b2d6 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -316,6 +316,10 @@ OGRGeometry* Geometry<T, R>::OGRBuffer(double dfDist, int side) const {
 
     poOGRProduct = buildGeometryFromGEOS(hGEOSCtxt, hGeosProduct,
         this->data_.get(), nullptr);
+    if (poOGRProduct != nullptr && side != 0) {
+      // The new points of one-sided buffers have no height (NaN)
+      poOGRProduct->flattenTo2D();
+    }
   }
   OGRGeometry::freeGEOSContext(hGEOSCtxt);
   return poOGRProduct;
-- 
2.43.0


From 3951f530287f158222bcce0a208cac8ff89fcd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 28/56] fix: isConvex looks at every vertex, whatever the
 orientation

---
 src/fields2cover/types/Cell.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index d694b2a..3a1ed1b 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -150,23 +150,27 @@ bool Cell::isConvex() const {
   if (this->data_->getNumInteriorRings() > 0 || this->data_->get_Area() <= 0) {
     return false;
   }
-  auto border = this->getExteriorRing();
-  if (border.size() < 2) {
-    return false;
+  const auto border = this->getExteriorRing();
+  std::vector<Point> ps;
+  for (auto&& p : border) {
+    if (ps.empty() || p != ps.back()) {
+      ps.emplace_back(p);
+    }
+  }
+  while (ps.size() > 1 && ps.back() == ps.front()) {
+    ps.pop_back();
   }
-  auto getAng = [&border] (size_t i) {
-    return Point::getAngleFromPoints(
-        border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
-  };
-  bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
-    if (inv != (getAng(i) < M_PI)) {
-      return false;
+  bool left {false}, right {false};
+  for (size_t i = 0; i < ps.size(); ++i) {
+    const double ang = Point::getAngleFromPoints(
+        ps[i], ps[(i + 1) % ps.size()], ps[(i + 2) % ps.size()]);
+    // Vertices in the middle of a straight border do not count
+    if (ang < 1e-6 || ang > 2.0 * M_PI - 1e-6) {
+      continue;
     }
+    (ang < M_PI ? left : right) = true;
   }
-  return true;
+  return left != right;
 }
 
 LineString Cell::createSemiLongLine(const Point& point, double angle) const {
-- 
2.43.0


From 24ac7fe4b764eb4e72584af91779ede51686e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 29/56] fix: the cell where a point is does not depend on the
 cells asked

---
 src/fields2cover/types/Cells.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 524930d..32fc4f9 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -252,7 +252,8 @@ bool Cells::isPointIn(const Point& p) const {
 }
 
 const Cell Cells::getCellWherePoint(const Point& p) const {
-  for (auto&& cell : *this) {
+  for (size_t i = 0; i < this->size(); ++i) {
+    const Cell cell = this->getGeometry(i);
     if (p.touches(cell) || p.within(cell)) {
       return cell;
     }
-- 
2.43.0


From 0fd3a025a70984f9eb7f460b542002210c54be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 30/56] fix: appending a list of swaths to itself

---
 src/fields2cover/types/Swaths.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..a700822 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -119,8 +119,10 @@ void Swaths::append(const MultiLineString& lines, const Cells& polys,
 }
 
 void Swaths::append(const Swaths& swaths) {
-  for (auto&& s : swaths) {
-    this->emplace_back(s);
+  // The list may be appended to itself
+  const size_t n = swaths.size();
+  for (size_t i = 0; i < n; ++i) {
+    this->emplace_back(swaths[i]);
   }
 }
 
-- 
2.43.0


From 29e4cbaa610ed890e342fb81e85127f3a80fbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 31/56] fix: refuse unknown coordinate systems and failed
 transformations, leaving the field as it was

---
 include/fields2cover/utils/transformation.h | 14 ++++++++-
 src/fields2cover/utils/transformation.cpp   | 33 +++++++++++++--------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/fields2cover/utils/transformation.h b/include/fields2cover/utils/transformation.h
index 80eb0de..beb053c 100644
--- a/include/fields2cover/utils/transformation.h
+++ b/include/fields2cover/utils/transformation.h
@@ -10,6 +10,7 @@
 
 #include <ogr_spatialref.h>
 #include <memory>
+#include <stdexcept>
 #include <utility>
 #include <string>
 #include <algorithm>
@@ -79,8 +80,19 @@ class Transform {
     void(*)(OGRCoordinateTransformation*)> createCoordTransf(
     std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> in,
     std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> out);
+
+ private:
+  template <class T>
+  static void applyTransf(T& t, OGRCoordinateTransformation* coords);
 };
 
+template <class T>
+void Transform::applyTransf(T& t, OGRCoordinateTransformation* coords) {
+  if (t->transform(coords) != OGRERR_NONE) {
+    throw std::runtime_error("Coordinates cannot be transformed");
+  }
+}
+
 template <class T>
 T Transform::transform(const T& t, const F2CPoint& ref_point,
     const std::string& coord_sys_from, const std::string& coord_sys_to) {
@@ -91,7 +103,7 @@ template <class T>
 T Transform::transform(const T& t,
     const std::string& coord_sys_from, const std::string& coord_sys_to) {
   T new_t = t.clone();
-  new_t->transform(generateCoordTransf(coord_sys_from, coord_sys_to).get());
+  applyTransf(new_t, generateCoordTransf(coord_sys_from, coord_sys_to).get());
   return new_t;
 }
 
diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 933a999..1d340e8 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -19,11 +19,11 @@ std::unique_ptr<OGRCoordinateTransformation,
 
 void Transform::transform(F2CField& field, const std::string& coord_sys_to) {
   if (!field.isEmpty()) {
-    field.setField(field.getField() + field.getRefPoint());
-    field.getField()->transform(
-        generateCoordTransf(field.getCRS(), coord_sys_to).get());
-    field.setRefPoint(field.getField().getCellBorder(0).startPoint());
-    field.setField(field.getField() - field.getRefPoint());
+    // The field is not touched until the transformation has succeeded
+    F2CField new_field(transform(
+        field.getCellsAbsPosition(), field.getCRS(), coord_sys_to));
+    field.setRefPoint(new_field.getRefPoint());
+    field.setField(new_field.getField());
   } else {
     field.setRefPoint( \
         transform(field.getRefPoint(), field.getCRS(), coord_sys_to));
@@ -62,7 +62,7 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
   for (auto&& s : new_path) {
     s.point = s.point + field.getRefPoint();
-    s.point->transform(coords.get());
+    applyTransf(s.point, coords.get());
   }
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
@@ -79,7 +79,7 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
   auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
   for (auto&& p : mp) {
     F2CPoint abs_p = p + field.getRefPoint();
-    abs_p->transform(coords.get());
+    applyTransf(abs_p, coords.get());
     new_mp.addGeometry(abs_p);
   }
   return new_mp;
@@ -143,7 +143,7 @@ F2CPath Transform::transformPath(const F2CPath& path,
   auto new_path = path;
   auto coords = generateCoordTransf(coord_sys_from, coord_sys_to);
   for (auto&& s : new_path) {
-    s.point->transform(coords.get());
+    applyTransf(s.point, coords.get());
   }
   return new_path;
 }
@@ -236,7 +236,7 @@ F2CSwaths Transform::transformToPrevCRS(
 
 F2CPoint Transform::getRefPointInGPS(const F2CField& field) {
   auto point = field.getRefPoint();
-  point->transform(generateCoordTransf(field.getCRS(), "EPSG:4326").get());
+  applyTransf(point, generateCoordTransf(field.getCRS(), "EPSG:4326").get());
   return point;
 }
 
@@ -247,10 +247,11 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
     std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>(
       new OGRSpatialReference(), [](OGRSpatialReference* ref) {
       OGRSpatialReference::DestroySpatialReference(ref);});
+  OGRErr error {OGRERR_NONE};
   if (coord_sys.empty() && !fail_silently) {
     throw std::invalid_argument("Coordinate system empty");
   } else if (F2CField::isCoordSystemEPSG(coord_sys)) {
-    spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
+    error = spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
   } else if (F2CField::isCoordSystemUTM(coord_sys)) {
     std::string proj = (
       std::string("+proj=utm +zone=") + F2CField::getUTMZone(coord_sys) + " " +
@@ -259,10 +260,13 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
         " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +type=crs" :
         " +datum=" + F2CField::getUTMDatum(coord_sys))
       + " +units=m +no_defs ");
-    spt_ref->importFromProj4(proj.c_str());
+    error = spt_ref->importFromProj4(proj.c_str());
   } else if (!fail_silently) {
     throw std::invalid_argument("Coordinate system not recognized");
   }
+  if (error != OGRERR_NONE && !fail_silently) {
+    throw std::invalid_argument("Coordinate system unknown: " + coord_sys);
+  }
   if (GDALVersionInfo("VERSION_NUM")[0] == '3') {
     // Next line solve issue in https://github.com/OSGeo/gdal/issues/1546
     spt_ref->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
@@ -275,11 +279,16 @@ std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)> Transform::createCoordTransf(
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> in,
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> out) {
-    return std::unique_ptr<OGRCoordinateTransformation,
+    auto coords = std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)>(
         OGRCreateCoordinateTransformation(in.get(), out.get()),
           [](OGRCoordinateTransformation* coord) {
             OGRCoordinateTransformation::DestroyCT(coord);});
+    if (!coords) {
+      throw std::invalid_argument(
+        "There is no transformation between these coordinate systems");
+    }
+    return coords;
 }
 
 
-- 
2.43.0


From e39bb80c1bc069fcabfcc96ad867027b8bbaede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 32/56] fix: longitude 180 belongs to UTM zone 1, there is no
 zone 61

---
 src/fields2cover/utils/transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 1d340e8..4ff07c6 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -188,7 +188,7 @@ void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
 
   std::string utm_zone = std::string("UTM:") + \
       std::to_string(static_cast<size_t>(
-            floor((field.getRefPoint().getX() + 180) / 6) + 1)) + \
+            floor((field.getRefPoint().getX() + 180) / 6)) % 60 + 1) + \
       (field.getRefPoint().getY() > 0 ? "N" : "S") + \
       " datum:" + (field.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
   transform(field, utm_zone);
-- 
2.43.0


From 0db1069eba9ade3046d907769bdb60fee8e28e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 33/56] fix: sections driven backwards keep ending at the next
 one when a path is transformed

---
 src/fields2cover/utils/transformation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 4ff07c6..81b6b5f 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -67,6 +67,9 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
     new_path[i].angle = (new_path[i+1].point - new_path[i].point).getAngleFromPoint();
+    if (new_path[i].dir == f2c::types::PathDirection::BACKWARD) {
+      new_path[i].angle = F2CPoint::mod_2pi(new_path[i].angle + M_PI);
+    }
   }
 
 
-- 
2.43.0


From 973c328e7ccdc58cce4b8017be765c100c523ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 34/56] fix: read holes and line breaks of GML polygons and
 refuse malformed ones

---
 src/fields2cover/utils/parser.cpp | 75 ++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..bbdce7c 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -7,6 +7,8 @@
 #include <tinyxml2.h>
 #include <boost/optional.hpp>
 #include <nlohmann/json.hpp>
+#include <algorithm>
+#include <sstream>
 #include "fields2cover/utils/parser.h"
 #include "fields2cover/utils/transformation.h"
 
@@ -40,35 +42,54 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
-
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
-
-  std::string coord_sys = p_polygon->Attribute("srsName");
-
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
-  auto findAndReplaceAll =
-      [](std::string& data, std::string toSearch, std::string replaceStr) {
-            size_t pos = data.find(toSearch);
-            while (pos != std::string::npos) {
-                data.replace(pos, toSearch.size(), replaceStr);
-                pos = data.find(toSearch, pos + replaceStr.size());
-            }
-            return;
-      };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
+  auto child = [](const tinyxml2::XMLElement* element, const char* name) {
+    auto* res = element->FirstChildElement(name);
+    if (res == nullptr) {
+      throw std::invalid_argument(std::string("Element not found: ") + name);
+    }
+    return res;
+  };
+  auto* p_polygon = child(child(
+        child(p_parcel, "Field"), "geometry"), "gml:Polygon");
+
+  auto srs_name = p_polygon->Attribute("srsName");
+  std::string coord_sys = srs_name ? srs_name : "";
+
+  auto readRing = [&child](const tinyxml2::XMLElement* boundary) {
+    auto text = child(child(boundary, "gml:LinearRing"),
+        "gml:coordinates")->GetText();
+    // Tuples are separated by any number of spaces or line breaks
+    std::istringstream tuples(text ? text : "");
+    tuples.imbue(std::locale::classic());
+    std::string tuple, ring;
+    while (tuples >> tuple) {
+      const int dim = 1 + std::count(tuple.begin(), tuple.end(), ',');
+      std::replace(tuple.begin(), tuple.end(), ',', ' ');
+      std::istringstream numbers(tuple);
+      numbers.imbue(std::locale::classic());
+      int read {0};
+      for (double number; numbers >> number;) {++read;}
+      if (read != dim || dim < 2 || dim > 3) {
+        throw std::invalid_argument("Coordinates not recognized: " + tuple);
+      }
+      ring += (ring.empty() ? "" : ", ") + tuple;
+    }
+    return "(" + ring + ")";
+  };
+  std::string p_coords =
+    "POLYGON (" + readRing(child(p_polygon, "gml:outerBoundaryIs"));
+  for (auto* hole = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      hole != nullptr;
+      hole = hole->NextSiblingElement("gml:innerBoundaryIs")) {
+    p_coords += ", " + readRing(hole);
+  }
+  p_coords += ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
-  OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
+  if (OGRGeometryFactory::createFromWkt(
+        p_coords.c_str(), spt_ref.get(), &new_geom) != OGRERR_NONE) {
+    throw std::invalid_argument("Coordinates not recognized");
+  }
 
   F2CField field(F2CCells(new_geom), id);
   field.setCRS(coord_sys);
-- 
2.43.0


From 9ecef42cb50076e72ef96dd8b998982a03ebcd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 35/56] fix: refuse GeoJSON features without geometry or with
 malformed positions

---
 src/fields2cover/utils/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index bbdce7c..051db3f 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -100,12 +100,12 @@ F2CField Parser::importFieldGml(
 
 
 F2CPoint getPointFromJson(const json& ps) {
-  if (ps.size() == 3) {
-    return F2CPoint(ps[0], ps[1], ps[2]);
+  if (!ps.is_array() || ps.size() < 2) {
+    throw std::invalid_argument("Position not recognized");
   } else if (ps.size() == 2) {
     return F2CPoint(ps[0], ps[1]);
   }
-  return F2CPoint();
+  return F2CPoint(ps[0], ps[1], ps[2]);
 }
 
 F2CCell getCellFromJson(const json& imported_cell) {
@@ -117,7 +117,7 @@ F2CCell getCellFromJson(const json& imported_cell) {
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
+  const auto& json_rings = imported_cell.at("geometry").at("coordinates");
   for (int i = 0; i < json_rings.size(); ++i) {
     cell.addRing(jsonToF2CRing(json_rings[i]));
   }
-- 
2.43.0


From b7db3200c82bda1f805c41c69351c68c42490e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 36/56] fix: clone geometries exactly, not through rounded text

---
 include/fields2cover/types/Geometries_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 41d7e14..d77a82e 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -17,8 +17,10 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
+  // Not through WKT, as the text rounds the coordinates
   SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
+  cloned.data_ = std::shared_ptr<T>(static_cast<T*>(this->data_->clone()),
+      [](T* f) {OGRGeometryFactory::destroyGeometry(f);});
   return cloned;
 }
 
-- 
2.43.0


From a8522650e2292a0b7610766a3b5ef14d5473deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 37/56] fix: refuse imported swaths with a number out of range

---
 src/fields2cover/utils/parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 051db3f..b3b157e 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -8,6 +8,8 @@
 #include <boost/optional.hpp>
 #include <nlohmann/json.hpp>
 #include <algorithm>
+#include <cmath>
+#include <limits>
 #include <sstream>
 #include "fields2cover/utils/parser.h"
 #include "fields2cover/utils/transformation.h"
@@ -152,9 +154,13 @@ F2CSwaths Parser::importSwathsJson(const std::string& file) {
     for (auto&& ps : imported_swath["geometry"]["coordinates"]) {
       line.addPoint(getPointFromJson(ps));
     }
+    const double path_id = imported_swath["properties"]["path_id"];
+    if (std::fabs(path_id) > std::numeric_limits<int>::max()) {
+      throw std::out_of_range("Number of a swath out of range");
+    }
     swaths.emplace_back(line,
       imported_swath["properties"]["width"],
-      imported_swath["properties"]["path_id"]);
+      static_cast<int>(path_id));
   }
   return swaths;
 }
-- 
2.43.0


From d7f8a3ff5a4f835b7b21053e41cd881e7105dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 38/56] fix: splines pass through their second point, keep
 within their arrays and refuse unsorted first points

---
 src/fields2cover/utils/spline.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..782ceda 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -86,6 +86,7 @@ void CubicSpline::SetPoints(
 
 
 double CubicSpline::operator()(double x) const {
+  check_error(size_ > 0, "In CubicSpline, there are no points\n");
   const auto xs = static_cast<double>(x);
 
   int l = 0;
@@ -123,10 +124,13 @@ void CubicSpline::SetSplineCubic() {
   u[size_ - 1] = 0.;
   c_vec_[size_ - 1] = 0.;
 
-  for (unsigned int i = 1; i < size_ - 1; i++) {
+  for (unsigned int i = 0; i < size_ - 1; i++) {
     check_error(x_vec_[i + 1] > x_vec_[i],
         "In CubicSpline SetSpline, x array is not sorted"
         "from smallest to largest\n");
+  }
+
+  for (unsigned int i = 1; i < size_ - 1; i++) {
     h[i] = x_vec_[i + 1] - x_vec_[i];
 
     alpha[i] = 3. / h[i] * (y_vec_[i + 1] - y_vec_[i]) - 3. /
@@ -143,6 +147,9 @@ void CubicSpline::SetSplineCubic() {
         2. * c_vec_[i]) / 3.;
     d_vec_[i] = (c_vec_[i + 1] - c_vec_[i]) / (3. * h[i]);
   }
+  // Slope at the last point
+  b_vec_[size_ - 1] = b_vec_[size_ - 2] +
+      h[size_ - 2] * (c_vec_[size_ - 2] + c_vec_[size_ - 1]);
 
   // Monotonic correction
   if (monotonic_) {
@@ -160,6 +167,9 @@ void CubicSpline::SetSplineCubic() {
         changed = true;
       }
 
+      if (i + 1 == size_) {
+        break;
+      }
       double slope = (y_vec_[i_high] - y_vec_[i]) / h[i];
       if (slope == 0.0 && (b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0)) {
         b_vec_[i] = 0.0;
@@ -177,7 +187,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i < size_ - 1; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
@@ -187,7 +197,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From 4c88ffd0c4b84a42d99b8eac4d923bc920cbe607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 39/56] fix: curvatures given when creating a robot are
 magnitudes, as those set later

---
 src/fields2cover/types/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Robot.cpp b/src/fields2cover/types/Robot.cpp
index 6836ac6..e38f2dd 100644
--- a/src/fields2cover/types/Robot.cpp
+++ b/src/fields2cover/types/Robot.cpp
@@ -12,7 +12,7 @@ namespace f2c::types {
 Robot::Robot(double width, double cov_width,
     double max_curv, double max_diff_curv) :
       width_(width), cov_width_(cov_width),
-      max_icc_(max_curv), linear_curv_change_(max_diff_curv) {
+      max_icc_(fabs(max_curv)), linear_curv_change_(fabs(max_diff_curv)) {
   if (width <= 0.0 || cov_width < 0.0) {
     throw std::out_of_range("Robot widths have to be greater than 0.");
   }
-- 
2.43.0


From 71b887dd795b84202b3a183f6f8450adc4e5b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 40/56] fix: joining a path to itself and sizes of an empty
 path read no stale memory

---
 src/fields2cover/types/Path.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..13d21f7 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -97,8 +97,10 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  const size_t n = path.size();  // path can be this very path
+  this->states_.reserve(this->size() + n);
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
@@ -108,6 +110,7 @@ size_t Path::size() const {
 }
 
 double Path::getDimMinX() const {
+  if (this->states_.empty()) {return 0.0;}
   return std::min_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getX() < s2.point.getX();
@@ -115,6 +118,7 @@ double Path::getDimMinX() const {
 }
 
 double Path::getDimMinY() const {
+  if (this->states_.empty()) {return 0.0;}
   return std::min_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getY() < s2.point.getY();
@@ -122,6 +126,7 @@ double Path::getDimMinY() const {
 }
 
 double Path::getDimMaxX() const {
+  if (this->states_.empty()) {return 0.0;}
   return std::max_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getX() < s2.point.getX();
@@ -129,6 +134,7 @@ double Path::getDimMaxX() const {
 }
 
 double Path::getDimMaxY() const {
+  if (this->states_.empty()) {return 0.0;}
   return std::max_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getY() < s2.point.getY();
-- 
2.43.0


From eadc15e1207940463bbbf48d70ca4a7af88f5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 41/56] fix: empty paths and swaths are never read out of
 bounds

---
 src/fields2cover/types/Path.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 13d21f7..ccaf294 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -214,7 +214,7 @@ double Path::length() const {
 }
 
 void Path::appendSwath(const Swath& swath, double cruise_speed) {
-  for (size_t i = 0; i < swath.numPoints() - 1; ++i) {
+  for (size_t i = 0; i + 1 < swath.numPoints(); ++i) {
     PathState s;
     s.point = swath.getPoint(i);
     auto p_ang = Point(swath.getPoint(i + 1).getX() - swath.getPoint(i).getX(),
@@ -256,11 +256,11 @@ PathState Path::at(double len) const {
 }
 
 Point Path::atStart() const {
-  return states_[0].point;
+  return states_.at(0).point;
 }
 
 Point Path::atEnd() const {
-  return states_.back().atEnd();
+  return states_.at(states_.empty() ? 0 : states_.size() - 1).atEnd();
 }
 
 template<typename CharT>
@@ -350,7 +350,7 @@ void Path::loadFile(const std::string& file) {
 }
 
 Path& Path::populate(int number_points) {
-  if (this->size() < 3) { return *this;}
+  if (this->size() < 3 || number_points < 1) { return *this;}
 
   std::vector<double> x, y, ang_prov, old_vel, len;
   std::vector<PathDirection> old_dir;
@@ -366,6 +366,7 @@ Path& Path::populate(int number_points) {
       old_type.emplace_back(this->states_[i].type);
     }
   }
+  if (len.empty()) { return *this;}
   x.emplace_back(this->states_.back().atEnd().getX());
   y.emplace_back(this->states_.back().atEnd().getY());
   ang_prov.emplace_back(this->states_.back().angle);
@@ -433,7 +434,9 @@ LineString Path::toLineString() const {
   for (auto&& s : this->states_) {
     line.addPoint(s.point);
   }
-  line.addPoint(this->atEnd());
+  if (!this->states_.empty()) {
+    line.addPoint(this->atEnd());
+  }
   return line;
 }
 
-- 
2.43.0


From 9ef596429bf41aa09e905e979236ca32197e3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 42/56] fix: cells far from the origin are cut along every line

---
 src/fields2cover/types/Cells.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 32fc4f9..44bde46 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -182,6 +182,11 @@ Cells Cells::splitByLine(const LineString& line) const {
   // A cut has to reach a bit past its ends, or rounding may leave the pieces
   // joined at the border where the line ends.
   const double width = 1e-8;
+  // Far from the origin, rounding would close such a thin cut again.
+  const Point ref(this->getDimMinX(), this->getDimMinY());
+  if (std::max(fabs(ref.X()), fabs(ref.Y())) > 1e3) {
+    return (*this - ref).splitByLine(line - ref) + ref;
+  }
   LineString cut = line.clone();
   if (cut.size() > 1 && cut.length() > 0.0) {
     const double extra = 10 * width;
@@ -199,6 +204,11 @@ Cells Cells::splitByLine(const LineString& line) const {
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
+  // As for one line, but back in place only after the last cut.
+  const Point ref(this->getDimMinX(), this->getDimMinY());
+  if (std::max(fabs(ref.X()), fabs(ref.Y())) > 1e3) {
+    return (*this - ref).splitByLine(lines - ref) + ref;
+  }
   Cells cells{*this};
   for (size_t i = 0; i < lines.size(); ++i) {
     const LineString line = lines.getGeometry(i);
-- 
2.43.0


From 3fdb1e5925d454bc8ae39a72a0a1f244ca7379c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 43/56] fix: coverage of swaths next to each other does not
 lose some of them

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index 96190f3..be71b3b 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -23,8 +23,16 @@ double FieldCoverage::computeCost(
     lines.addGeometry(s.getPath());
   }
 
+  const double half_width {swaths[0].getWidth() / 2.0};
   double area_covered {poly.getCellsInside(
-      F2CCells::buffer(lines, swaths[0].getWidth() / 2.0)).area()};
+      F2CCells::buffer(lines, half_width)).area()};
+  // Swaths next to each other share borders that differ by rounding only.
+  // Joining them may lose some, but not when they overlap by a hair.
+  double area_hair {poly.getCellsInside(
+      F2CCells::buffer(lines, half_width * (1.0 + 1e-8))).area()};
+  if (area_hair > area_covered * (1.0 + 1e-6)) {
+    area_covered = area_hair;
+  }
   return area_covered / poly.area();
 }
 
-- 
2.43.0


From 8f0ba4864a26fdecf2c5f95aa100f27bc235f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 44/56] fix: swaths next to each other are not taken to overlap

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 4d452d3..6772981 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -19,7 +19,16 @@ double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
     areas.emplace_back(swaths[i].areaCovered(poly));
     for (size_t j = 0; j < i; ++j) {
       if (areas[i].intersects(areas[j])) {
-        area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
+        double area = F2CCells(areas[i]).intersection(areas[j]).area();
+        if (area > 0.0) {
+          // Swaths next to each other share borders that differ by rounding
+          // only, and may seem to cover each other if none is a hair thinner.
+          double thin = areas[i].intersection(poly.getCellsInside(
+              F2CCells::buffer(swaths[j].getPath(),
+                0.5 * (1.0 - 1e-8) * swaths[j].getWidth()))).area();
+          area = (thin < (1.0 - 1e-6) * area) ? thin : area;
+        }
+        area_overlaped += area;
       }
     }
   }
-- 
2.43.0


From 0cb5011239ff96c3d3f449b728ffeb3742b7545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 45/56] fix: large cells are cut along every line

---
 src/fields2cover/types/Cells.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 44bde46..8551e84 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -181,12 +181,13 @@ Cells Cells::unionCascaded() const {
 Cells Cells::splitByLine(const LineString& line) const {
   // A cut has to reach a bit past its ends, or rounding may leave the pieces
   // joined at the border where the line ends.
-  const double width = 1e-8;
-  // Far from the origin, rounding would close such a thin cut again.
+  // Far from the origin, rounding would close a thin cut again.
   const Point ref(this->getDimMinX(), this->getDimMinY());
   if (std::max(fabs(ref.X()), fabs(ref.Y())) > 1e3) {
     return (*this - ref).splitByLine(line - ref) + ref;
   }
+  const double size = std::max(this->getDimMaxX(), this->getDimMaxY());
+  const double width = 1e-8 * std::max(1.0, size / 1e3);
   LineString cut = line.clone();
   if (cut.size() > 1 && cut.length() > 0.0) {
     const double extra = 10 * width;
-- 
2.43.0


From 0a890a1a36a98ff5040e90cb06fb423aa3e01c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 46/56] fix: the state at the end of a path is never lost by
 rounding

---
 src/fields2cover/types/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index ccaf294..21e4e12 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -239,7 +239,8 @@ PathState Path::at(double len) const {
   PathState state_at;
   for (size_t i = 0; i < this->size(); ++i) {
     double len_state = fabs(states_[i].len);
-    if (len_state < len) {
+    // Rounding may leave some length over after the last state.
+    if (len_state < len && i + 1 < this->size()) {
       len -= len_state;
     } else {
       state_at = states_[i];
-- 
2.43.0


From 41d85187190fb653607e82d067130859eaf43dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 47/56] fix: states along a path keep their height

---
 src/fields2cover/types/Path.cpp      | 2 +-
 src/fields2cover/types/PathState.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 21e4e12..b502b5c 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -249,7 +249,7 @@ PathState Path::at(double len) const {
 
       len *= static_cast<double>(states_[i].dir);
       state_at.point = Point(p.getX() + len * cos(ang),
-                             p.getY() + len * sin(ang));
+                             p.getY() + len * sin(ang), p.getZ());
       break;
     }
   }
diff --git a/src/fields2cover/types/PathState.cpp b/src/fields2cover/types/PathState.cpp
index f9670f0..5ddac78 100644
--- a/src/fields2cover/types/PathState.cpp
+++ b/src/fields2cover/types/PathState.cpp
@@ -9,7 +9,9 @@
 namespace f2c::types {
 
 Point PathState::atEnd() const {
-  return point.getPointFromAngle(angle, len * static_cast<double>(dir));
+  Point end = point.getPointFromAngle(angle, len * static_cast<double>(dir));
+  end.setZ(point.getZ());
+  return end;
 }
 
 }  // namespace f2c::types
-- 
2.43.0


From 5a9e6ebd7d44fa0b22d8a0043b2774f453af4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 48/56] fix: paths are saved and loaded under any locale, and
 leave it as it is

---
 src/fields2cover/types/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index b502b5c..c1d3f32 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -288,7 +288,6 @@ std::string to_string(double d, const int precision = 6) {
 
 
 std::string Path::serializePath(size_t digit_precision) const {
-  std::locale::global(std::locale::classic());
   std::string res = "";
 
   for (size_t i = 0; i < size(); ++i) {
@@ -336,6 +335,7 @@ void Path::saveToFile(const std::string& file, size_t precision) const {
 
 void Path::loadFile(const std::string& file) {
   std::ifstream in(file);
+  in.imbue(std::locale::classic());
   double x, y, z, ang, vel, len, dir, d_type;
   while (in >> x >> y >> z >> ang >> vel >> len >> dir >> d_type) {
     PathState s;
-- 
2.43.0


From 9a60671f687098874f86d235e9640c1550080d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 49/56] fix: sections of no length do not break resampling a
 path

---
 src/fields2cover/types/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index c1d3f32..46c7ec8 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -356,8 +356,10 @@ Path& Path::populate(int number_points) {
   std::vector<double> x, y, ang_prov, old_vel, len;
   std::vector<PathDirection> old_dir;
   std::vector<PathSectionType> old_type;
+  // Sections of no length but for rounding have no knot of their own.
+  const double min_len = 1e-9 * this->length();
   for (int i = 0; i < this->size(); ++i) {
-    if (this->states_[i].len != 0.0) {
+    if (fabs(this->states_[i].len) > min_len) {
       x.emplace_back(this->states_[i].point.getX());
       y.emplace_back(this->states_[i].point.getY());
       ang_prov.emplace_back(this->states_[i].angle);
-- 
2.43.0


From b95e0b3e2cfde7ffbc113a0db80a160fdcb016fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 50/56] fix: a cached turn is not reused for a robot with
 another turn velocity

---
 src/fields2cover/path_planning/turning_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..7e9da37 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -83,6 +83,7 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
   std::vector<int> v_turn {
         static_cast<int>(1e3 * robot.getMaxCurv()),
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
+        static_cast<int>(1e3 * robot.getTurnVel()),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
         static_cast<int>(1e3 * end_angle)
-- 
2.43.0


From 4b8bd090d296682ef2ecbadaa1d78082a147ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 51/56] fix: cached turns are not reused after changing the
 discretization

---
 src/fields2cover/path_planning/turning_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index 7e9da37..5dc9da0 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -117,6 +117,10 @@ double TurningBase::getDiscretization() const {
 }
 
 void TurningBase::setDiscretization(double d) {
+  if (d != this->discretization) {
+    // Cached turns have the old discretization
+    this->path_cache_.clear();
+  }
   this->discretization = d;
 }
 
-- 
2.43.0


From 3a9832d5ee9e63fff858ab111d347f677a032c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 52/56] fix: turns of very sharp or far requests are not
 confused in the cache

---
 include/fields2cover/path_planning/turning_base.h |  3 ++-
 src/fields2cover/path_planning/turning_base.cpp   | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/fields2cover/path_planning/turning_base.h b/include/fields2cover/path_planning/turning_base.h
index f14446b..f09d614 100644
--- a/include/fields2cover/path_planning/turning_base.h
+++ b/include/fields2cover/path_planning/turning_base.h
@@ -12,6 +12,7 @@
 #include <map>
 #include <vector>
 #include <limits>
+#include <cstdint>
 #include <functional>
 #include "fields2cover/types.h"
 #include "fields2cover/utils/random.h"
@@ -88,7 +89,7 @@ class TurningBase {
  protected:
   // To prevent memory consumption and comparative errors because of doubles
   // ints are used multiplied by 1000.
-  std::map<std::vector<int>, F2CPath> path_cache_;
+  std::map<std::vector<int64_t>, F2CPath> path_cache_;
   double discretization {0.01};
   bool using_cache {true};
 };
diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index 5dc9da0..be2dec9 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -80,13 +80,13 @@ void TurningBase::correctPath(F2CPath& path, const F2CPoint& start_pos,
 
 F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
     double dist_start_end, double start_angle, double end_angle) {
-  std::vector<int> v_turn {
-        static_cast<int>(1e3 * robot.getMaxCurv()),
-        static_cast<int>(1e3 * robot.getMaxDiffCurv()),
-        static_cast<int>(1e3 * robot.getTurnVel()),
-        static_cast<int>(1e3 * dist_start_end),
-        static_cast<int>(1e3 * start_angle),
-        static_cast<int>(1e3 * end_angle)
+  std::vector<int64_t> v_turn {
+        static_cast<int64_t>(1e3 * robot.getMaxCurv()),
+        static_cast<int64_t>(1e3 * robot.getMaxDiffCurv()),
+        static_cast<int64_t>(1e3 * robot.getTurnVel()),
+        static_cast<int64_t>(1e3 * dist_start_end),
+        static_cast<int64_t>(1e3 * start_angle),
+        static_cast<int64_t>(1e3 * end_angle)
   };
   auto it = path_cache_.find(v_turn);
   if (it != path_cache_.end()) {
-- 
2.43.0


From 9c7b5640c471f783510c37a1800037649396c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 53/56] fix: connections of one point and routes without swaths
 can be planned

---
 .../path_planning/path_planning.cpp            | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index f4723ab..31c1759 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -20,7 +20,8 @@ F2CPath PathPlanning::planPath(const F2CRobot& robot,
   }
   if (route.sizeConnections() > route.sizeVectorSwaths()) {
     path += planPathForConnection(robot,
-      route.getLastSwaths(), route.getLastConnection(), F2CSwaths(), turn);
+      route.sizeVectorSwaths() > 0 ? route.getLastSwaths() : F2CSwaths(),
+      route.getLastConnection(), F2CSwaths(), turn);
   }
   return path;
 }
@@ -56,7 +57,14 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang1 = s1.back().getOutAngle();
   } else if (mp.size() > 0) {
     p1 = mp[0];
-    ang1 = mp.getOutAngle(0);
+    if (mp.size() > 1) {
+      ang1 = mp.getOutAngle(0);
+    } else if (s2.size() > 0) {
+      ang1 = (p1 == s2[0].startPoint()) ? s2[0].getInAngle() :
+        (s2[0].startPoint() - p1).getAngleFromPoint();
+    } else {
+      return {};
+    }
   } else {
     return {};
   }
@@ -65,7 +73,11 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang2 = s2[0].getInAngle();
   } else if (mp.size() > 0) {
     p2 = mp.getLastPoint();
-    ang2 = mp.getInAngle(mp.size()-1);
+    if (mp.size() > 1) {
+      ang2 = mp.getInAngle(mp.size()-1);
+    } else {
+      ang2 = (p1 == p2) ? ang1 : (p2 - p1).getAngleFromPoint();
+    }
   } else {
     return {};
   }
-- 
2.43.0


From b8ceb005ade6cb7f5b48c0f7a0f62e6f0b6224b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 54/56] fix: routes whose start point is the end of a swath,
 and routes without swaths

---
 .../route_planning/route_planner_base.h       |  3 ++
 .../route_planning/route_planner_base.cpp     | 54 +++++++++++++------
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/include/fields2cover/route_planning/route_planner_base.h b/include/fields2cover/route_planning/route_planner_base.h
index 7a2bdfa..7d5da87 100644
--- a/include/fields2cover/route_planning/route_planner_base.h
+++ b/include/fields2cover/route_planning/route_planner_base.h
@@ -89,6 +89,9 @@ class RoutePlannerBase {
       F2CGraph2D& shortest_graph) const;
 
  protected:
+  /// Index in the coverage graph of the node where the route starts and ends.
+  size_t getDepotId(const F2CGraph2D& cov_graph) const;
+
   std::optional<F2CPoint> r_start_end;
 };
 
diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..a0f4a5c 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -146,10 +146,24 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
   return g;
 }
 
+size_t RoutePlannerBase::getDepotId(const F2CGraph2D& cov_graph) const {
+  // The depot is the last node, unless it was already the end of a swath.
+  const size_t n = cov_graph.numNodes();
+  for (size_t i = n; this->r_start_end && i-- > 0;) {
+    if (cov_graph.indexToNode(i) == *this->r_start_end) {
+      return i;
+    }
+  }
+  return n - 1;
+}
+
 std::vector<long long int> RoutePlannerBase::computeBestRoute(
     const F2CGraph2D& cov_graph, bool show_log, long int time_limit_seconds,
     bool use_guided_local_search) const {
-  int depot_id = static_cast<int>(cov_graph.numNodes()-1);
+  if (cov_graph.numNodes() < 2) {
+    return {};  // There is nothing to cover
+  }
+  int depot_id = static_cast<int>(getDepotId(cov_graph));
   const ortools::RoutingIndexManager::NodeIndex depot{depot_id};
   ortools::RoutingIndexManager manager(cov_graph.numNodes(), 1, depot);
   ortools::RoutingModel routing(manager);
@@ -197,30 +211,40 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
-    F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
-    F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
+  std::vector<long long int> ids = route_ids;
+  if (r_start_end && coverage_graph.numNodes() > 0) {
+    // The depot can be the end of the first or the last swath
+    const auto depot = static_cast<long long int>(getDepotId(coverage_graph));
+    ids.insert(ids.begin(), depot);
+    ids.emplace_back(depot);
+  }
+  auto add_swath = [&] (const F2CSwath& swath) {
+    if (route.sizeVectorSwaths() > 0) {
+      route.addSwath(swath, shortest_graph);
+      return;
+    }
+    if (r_start_end) {
+      route.addConnection(shortest_graph.shortestPath(
+            *r_start_end, swath.startPoint()));
+    }
+    route.addSwath(swath);
+  };
+  for (size_t i = 0; i + 2 < ids.size(); ++i) {
+    F2CPoint p_s = coverage_graph.indexToNode(ids[i]);
+    F2CPoint p_e = coverage_graph.indexToNode(ids[i+2]);
     for (int j = 0; j < NS; ++j) {
       F2CSwath swath = swaths_by_cells.getSwath(j).clone();
       if (p_s == swath.startPoint() && p_e == swath.endPoint()) {
-        if (route.isEmpty() && r_start_end) {
-          route.addConnection(shortest_graph.shortestPath(
-                *r_start_end, swath.startPoint()));
-        }
-        route.addSwath(swath, shortest_graph);
+        add_swath(swath);
         break;
       } else if (p_e == swath.startPoint() && p_s == swath.endPoint()) {
         swath.reverse();
-        if (route.isEmpty() && r_start_end) {
-          route.addConnection(shortest_graph.shortestPath(
-                *r_start_end, swath.startPoint()));
-        }
-        route.addSwath(swath, shortest_graph);
+        add_swath(swath);
         break;
       }
     }
   }
-  if (r_start_end) {
+  if (r_start_end && !route.isEmpty()) {
     route.addConnection(shortest_graph.shortestPath(
           route.endPoint(), *r_start_end));
   }
-- 
2.43.0


From 92ada59561965fb8b1835049391045d689fc9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 55/56] fix: join the nodes of the headland graph on the same
 place

---
 src/fields2cover/route_planning/route_planner_base.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index a0f4a5c..3e20ff1 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -65,6 +65,14 @@ F2CGraph2D RoutePlannerBase::createShortestGraph(
 
   std::vector<F2CPoint> nodes = g.getNodes();
 
+  // Join the nodes on the same place, which are not exactly the same.
+  for (size_t i = 0; i < nodes.size(); ++i) {
+    for (size_t j = i + 1; j < nodes.size(); ++j) {
+      if (nodes[i] == nodes[j]) {
+        g.addEdge(nodes[i], nodes[j]);
+      }
+    }
+  }
   // Connect nodes that are near other edges.
   for (int i = 0; i < 2; ++i) {
     auto edges = g.getEdges();
-- 
2.43.0


From 5b744e91a38996b8a5140b7e84f80ab4f7194a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 56/56] fix: plan a route without headland swaths over the
 field's border

planCovRoute with zero constant headland swaths read the first of no headland tracks.
---
 src/fields2cover.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..3fdce7c 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,8 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      fast_hl_rings = hl_swaths.empty() ?
+        cells : hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


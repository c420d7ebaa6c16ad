#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One call of P() per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
rows = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))
S = "src/fields2cover/"; I = "include/fields2cover/"

P("C01", "Headland removal leaves exactly the mainland at the asked distance",
  "Removing a headland of width d from a field (any number of cells, with or without holes) leaves a mainland that lies inside the field, whose every point is at least d away from every field border and hole border. Nothing else is lost: the mainland is the field shrunk by d with sharp (mitred) corners, so any point farther than d from the border stays in a field without inward corners, and any point farther than five times d stays in every field. Asking for n headland swaths of width w is the same as asking for the distance n*w, and a zero distance returns the field unchanged.",
  ["inputs"], "every valid field (convex, non-convex, with holes, several cells, far from the origin) and every non-negative headland width, including widths that split or empty a cell",
  "headland tests compare areas of a handful of 5-sided random fields; no test looks at distances, at holes or at fields that split or vanish.",
  [S+"headland_generator/constant_headland.cpp", I+"types/Geometry_impl.hpp", S+"types/Cells.cpp"],
  [("mitred negative buffer", S+"headland_generator/constant_headland.cpp generateHeadlands/generateHeadlandArea"), ("OGRBuffer join/cap parameters", I+"types/Geometry_impl.hpp OGRBuffer")],
  observe=["return value of the headland generators"])
P("C02", "Headland tracks: one per swath, centred, in the requested order",
  "Asking for n headland swaths of width w returns exactly n track sets (none for n = 0); counted from outside to inside, the k-th (from 0) is the field shrunk by (k + 0.5)*w, so it lies inside the field, at least that far from every border, and inside the previous one. Counted from inside to outside, the first set is the innermost of those tracks and each following one is the previous one moved outwards by one swath width.",
  ["inputs"], "every field, swath width and swath count, in both orders, also when inner tracks vanish",
  "one test checks that areas decrease for one field in one order.",
  [S+"headland_generator/constant_headland.cpp"], [("per-swath offset", S+"headland_generator/constant_headland.cpp generateHeadlandSwaths")],
  observe=["returned vector of track sets"])
P("C03", "Decomposing a field keeps exactly the field's surface",
  "Decomposing (or splitting) any set of cells, with either decomposition and any split angle, returns cells whose interiors do not overlap and whose union is the original surface: nothing outside the field is added, nothing but the hair-thin cuts is lost, and holes stay holes. The cells given as input are not modified and splitting lines never leave the field's bounding area.",
  ["inputs"], "every valid field with or without holes, every split angle, both decompositions",
  "tests use a few fixed shapes and compare total area only.",
  [S+"decomposition/decomposition_base.cpp", S+"decomposition/trapezoidal_decomp.cpp", S+"decomposition/boustrophedon_decomp.cpp", S+"types/Cells.cpp"],
  [("split by lines, then merge", S+"decomposition/decomposition_base.cpp decompose"), ("difference with 1e-8 slits", S+"types/Cells.cpp splitByLine")],
  observe=["cells returned by decompose/split, split lines"])
P("C04", "Decomposition yields cells simple to cover along the split angle",
  "Every cell produced by a decomposition with split angle a is free of holes and is crossed by any line of direction a in one single stretch; the trapezoidal decomposition additionally yields only convex cells, and the boustrophedon decomposition never yields more cells than the trapezoidal one. A convex field comes back from the boustrophedon decomposition as one cell, and the angle in force is the last one set.",
  ["inputs", "configurations"], "every valid field and split angle; trapezoidal and boustrophedon",
  "tests check cell counts for a few fixed shapes at a few angles.",
  [S+"decomposition/trapezoidal_decomp.cpp", S+"decomposition/boustrophedon_decomp.cpp", S+"types/Cell.cpp"],
  [("cut from every vertex both ways", S+"decomposition/trapezoidal_decomp.cpp genSplitLines"), ("cut only where both sides are free", S+"decomposition/boustrophedon_decomp.cpp genSplitLines"), ("ray to border", S+"types/Cell.cpp createLineUntilBorder")],
  observe=["cells returned by decompose, getSplitAngle"])
P("C05", "Swaths are exactly the field's parallel tracks at the given angle",
  "Generating swaths for a cell at angle a and width w yields exactly the stretches inside the cell of the parallel lines of direction a placed at half a width, one and a half widths, ... from the cell's lowest edge measured across a, until the cell is passed; none is missing, none is extra, none leaves the cell or enters a hole, and the same holds cell by cell for several cells. Each swath is a straight segment with width w, is marked as mainland, and the swaths of a cell are numbered 0,1,2,... in order across the cell; all this whether overlap is allowed or not.",
  ["inputs"], "every valid cell (with holes, non convex), angle, positive width, overlap flag and number of cells",
  "tests count swaths for a few angles on a few rectangles.",
  [S+"swath_generator/swath_generator_base.cpp", S+"types/Swaths.cpp", S+"types/Cell.cpp"],
  [("rotate, sweep and clip", S+"swath_generator/swath_generator_base.cpp generateSwaths"), ("numbering", S+"types/Swaths.cpp append")],
  observe=["swaths returned by generateSwaths"])
P("C06", "Generated swaths cover the cell without gaps between passes",
  "Neighbouring passes generated at one angle lie exactly one working width apart, so every point of a cell lies within half a width of one of the lines worked, across the swath direction, except in the last remainder strip that is at most half a width deep, and no point is worked by more than the two passes it borders. The area reported as covered by a swath is the rectangle of its length and width, and clipped to cells it is the part of that rectangle inside them.",
  ["inputs"], "every convex or non convex cell, angle and width, with and without overlap",
  "tests compute coverage ratio for a handful of swath sets.",
  [S+"swath_generator/swath_generator_base.cpp", S+"types/Swath.cpp"],
  [("pass spacing", S+"swath_generator/swath_generator_base.cpp generateSwaths"), ("covered area", S+"types/Swath.cpp areaCovered")],
  observe=["swaths and their covered areas"])
P("C07", "The best swath angle is the best of all the angles examined",
  "The angle chosen for a cell, an objective and a width is one of the angles 0, step, 2*step, ... of as many whole steps as fit in one turn, and no other of them has a lower cost (or a higher one for an objective to be maximised); ties go to the smallest angle. Generating the best swaths equals generating swaths at that angle, separately for each cell of a set, and the answer is the same every time it is asked.",
  ["inputs", "configurations"], "every cell, objective, width and angle step",
  "tests compare the chosen angle against a few random angles on one field.",
  [S+"swath_generator/brute_force.cpp", S+"swath_generator/swath_generator_base.cpp", I+"objectives/base_objective.h"],
  [("exhaustive angle scan", S+"swath_generator/brute_force.cpp computeBestAngle"), ("sign of the objective", I+"objectives/base_objective.h computeCostWithMinimizingSign")],
  observe=["computeBestAngle, generateBestSwaths"])
P("C08", "Swath objectives report the quantity they are named after",
  "For any cells and swaths, the number-of-swaths objective is the count of swaths, the length objective the sum of their lengths, the coverage objective the fraction of the cells' area within half a width of a swath (for swaths of one width; between 0 and 1, to be maximised), and the overlap objective the area shared by every pair of swaths' covered areas inside the cells, divided by the cells' area. The estimate of the number of swaths at an angle is half the sum over the border edges of the edge length seen across that angle, divided by the width; costs of groups of swaths are the sums of the costs of their members.",
  ["inputs"], "every set of cells and swaths",
  "each objective is tested on a couple of hand-made squares.",
  [S+"objectives/sg_obj/overlaps.cpp", S+"objectives/sg_obj/field_coverage.cpp", S+"objectives/sg_obj/n_swath.cpp", S+"objectives/sg_obj/n_swath_modified.cpp", S+"objectives/sg_obj/swath_length.cpp", S+"objectives/sg_obj/sg_objective.cpp"],
  [("pairwise overlap", S+"objectives/sg_obj/overlaps.cpp"), ("edge projection", S+"objectives/sg_obj/n_swath_modified.cpp"), ("accumulation", S+"objectives/sg_obj/sg_objective.cpp")],
  observe=["computeCost return values"])
P("C09", "Headland objective is the fraction kept, and signs follow the goal",
  "The headland objective of a total and a remaining surface is the fraction of the total that remains, whatever mix of single cells and cell sets is passed: 1 when everything remains, 0 when nothing does, and between them otherwise, and it grows with what remains. Every objective says it either minimises or maximises, never both, and its minimising-sign cost is its cost, negated exactly when it maximises.",
  ["inputs"], "every pair of total and remaining cells and every objective class",
  "one or two fixed squares are tested.",
  [S+"objectives/hg_obj/hg_objective.cpp", S+"objectives/hg_obj/rem_area.cpp", I+"objectives/base_objective.h"],
  [("area ratio", S+"objectives/hg_obj/hg_objective.cpp"), ("sign", I+"objectives/base_objective.h")],
  observe=["computeCost, computeCostWithMinimizingSign"])
P("C10", "Route cost is the full driven distance, and costs add up",
  "With the direct-distance objective, the cost of a swath is its length, the cost of a list of points or swaths is the sum of its legs including those between members, and the cost of a route is the length of the line actually driven: connections, swaths, and every gap between them, whether or not a connection is given. Costs between any mix of points, angles, swaths and point lists depend on the right ends (last point or end of the first, first point or start of the second) and are zero for an empty list.",
  ["inputs"], "every route with any number of swath groups, empty groups and empty or missing connections",
  "tests build one or two routes with full connections.",
  [S+"objectives/rp_obj/rp_objective.cpp", S+"objectives/rp_obj/direct_dist_path_obj.cpp"],
  [("leg accumulation", S+"objectives/rp_obj/rp_objective.cpp computeCost(Route)")],
  observe=["computeCost return values vs Route::length"])
P("C11", "Ordering swaths visits each once, alternating, input untouched",
  "Whatever the ordering (boustrophedon, snake, spiral, custom) and the starting-corner variant, the ordered list holds every input swath exactly once with its geometry, width, number and kind unchanged except for its driving direction, and no swath is lost for any count, including none and one. Consecutive swaths of the result are driven in opposite directions when they were created in one sense (their direction marks always alternate); but for custom orders, which choose their own start, the four variants start at four different ends, and the list passed in is not modified.",
  ["inputs", "configurations"], "every number of swaths, any initial order and directions, all variants, all orderings, any spiral size",
  "tests use a fixed 10 swaths square and compare a few ids.",
  [S+"route_planning/single_cell_swaths_order_base.cpp", S+"route_planning/snake_order.cpp", S+"route_planning/spiral_order.cpp", S+"route_planning/custom_order.cpp", S+"route_planning/boustrophedon_order.cpp", S+"types/Swaths.cpp"],
  [("clone, sort, reorder, alternate", S+"route_planning/single_cell_swaths_order_base.cpp genSortedSwaths")],
  observe=["genSortedSwaths result and input"])
P("C12", "Boustrophedon, snake and spiral orders follow their pattern",
  "Starting from swaths in ascending number (descending for the reversed variants), the boustrophedon order keeps them one after the other; the snake order takes every second swath going away and the skipped ones coming back, so consecutive swaths are at most two apart for any count; the spiral order works consecutive blocks of the configured size and inside each block alternates inwards from its two sides, entering from its first swath when the block starts at an even position and from its last one otherwise; sizes below two work as two.",
  ["inputs", "configurations"], "every number of swaths, every spiral size of at least two, all variants",
  "tests compare a fixed 10- or 11-swath expectation.",
  [S+"route_planning/snake_order.cpp", S+"route_planning/spiral_order.cpp", S+"route_planning/boustrophedon_order.cpp"],
  [("rotations and reversals", S+"route_planning/snake_order.cpp"), ("block rotation", S+"route_planning/spiral_order.cpp spiral")],
  observe=["order of swath numbers in the result"])
P("C13", "A custom order is obeyed exactly or rejected",
  "When a custom order is a permutation of 0..n-1, the i-th swath of the result is the one whose position the order names; for a list with swaths, any order with repeated entries, of another length, or naming a position that does not exist is refused with an error, and the swaths are then left untouched. Setting a new order replaces the previous one.",
  ["inputs"], "every order vector, valid or not, and every swath list",
  "a couple of orders are tested on one list.",
  [S+"route_planning/custom_order.cpp"], [("validation", S+"route_planning/custom_order.cpp check")],
  observe=["genSortedSwaths result or exception"])
P("C14", "A route keeps what was put in, in order, and its line matches",
  "After any sequence of adding swaths, swath groups and connections, the route contains exactly those swaths and connection points in the order given, with each connection placed before the group it leads to; its line is the concatenation of connection points and swath points in driving order, its length is that line's length, and its start and end are that line's ends. When swaths are added with a graph, the connection inserted is a shortest path of that graph from the route's end to the swath's start.",
  ["histories"], "every sequence of add/set operations on a route",
  "tests run one or two fixed sequences.",
  [S+"types/Route.cpp"], [("group/connection bookkeeping", S+"types/Route.cpp addSwath/addConnection/addSwaths")],
  state=[("connections_", "connection before each group, optionally one after the last", S+"types/Route.cpp")],
  observe=["asLineString, length, startPoint, endPoint, getConnection, getSwaths"])
P("C15", "Graph shortest paths are shortest after any history of changes",
  "After any interleaving of adding edges, changing their cost, removing edges and querying, the cost reported between two nodes is the minimum over all directed paths made of the edges present at that moment, zero from a node to itself, and the infinity value when no path exists; the path reported starts and ends at the asked nodes, uses only present edges and has exactly that cost, and is empty from a node to itself or when there is none. This holds for any node numbers, for nodes without outgoing edges, and equally for the all-pairs cost and path tables; edge and node counts match what was added and removed.",
  ["histories"], "every history of addEdge/addDirectedEdge/removeEdge/removeDirectedEdge/query on graphs with arbitrary node ids and non-negative costs",
  "tests query two fixed graphs, never after a removal, never with sink nodes.",
  [S+"types/Graph.cpp"], [("Floyd-Warshall with cached tables", S+"types/Graph.cpp shortestPathsAndCosts"), ("cache invalidation", S+"types/Graph.cpp addDirectedEdge/removeDirectedEdge")],
  state=[("distance_/next_/shortest_paths_", "cached all-pairs tables, must match the edges", I+"types/Graph.h")],
  observe=["shortestPath, shortestPathCost, getCosts, getPaths"])
P("C16", "All simple paths between two nodes are listed, each exactly once",
  "Listing all paths between two nodes of a graph returns every path without repeated nodes that follows present directed edges from the first to the second, each exactly once, and nothing else, for any node numbers and after any changes; from a node to itself the only path is the node alone.",
  ["inputs", "histories"], "every directed graph, any node ids",
  "tests check that some paths exist on a 4-node graph.",
  [S+"types/Graph.cpp"], [("depth first search", S+"types/Graph.cpp DFS/allPathsBetween")], observe=["allPathsBetween"])
P("C17", "Point graph: nodes map one to one, default cost is the distance",
  "In a graph over points, adding points any number of times gives each different point one stable number, and number and point map back to each other; edges without explicit cost cost their length in thousandths of a unit, rounded down, and edges built from another graph cost that graph's shortest path. Shortest paths, costs and path lists in terms of points are those of the numbered graph, after any history of additions and removals.",
  ["inputs", "histories"], "every set of 2D/3D points incl. negative and UTM-sized coordinates, every history of edits",
  "tests use four small points.",
  [S+"types/Graph2D.cpp", I+"types/Point.h"], [("node interning", S+"types/Graph2D.cpp addDirectedEdge"), ("point hash", I+"types/Point.h std::hash")],
  observe=["nodeToIndex/indexToNode, shortestPath, shortestPathCost, getCostFromEdge"])
P("C18", "A clone equals its source and shares nothing with it",
  "Cloning any object (points, lines, rings, cells, swaths, swath groups, routes, strips, fields) yields an object with the same coordinates to within rounding, the same metadata (number, width, direction, kind, name, identifier, reference systems) and the same order; afterwards no change to either one is visible in the other.",
  ["histories"], "every object, and every sequence of mutations on either copy",
  "tests compare one or two attributes on fixed objects.",
  [I+"types/Geometries_impl.hpp", S+"types/Swath.cpp", S+"types/Swaths.cpp", S+"types/SwathsByCells.cpp", S+"types/Route.cpp", S+"types/Field.cpp", S+"types/Strip.cpp", S+"types/Point.cpp"],
  [("clone via text export", I+"types/Geometries_impl.hpp clone"), ("member-wise clone", S+"types/Swath.cpp clone")],
  observe=["all getters of both objects after mutation"])
P("C19", "Geometry containers hold exactly what was stored, in order",
  "For point lists, lines, rings, line sets, cells and cell sets, after any sequence of adding, replacing and reading elements the container reports the right size and returns the elements given, in order (rings of cells closed); reading by index, by iterating, or first/last agrees, changing points while iterating changes the stored points, scaling scales all of them, and reversing a line reverses its points. Reading at an index that does not exist is reported as an out-of-range error.",
  ["histories"], "every sequence of container operations on every container type",
  "tests store a few elements in each container.",
  [I+"types/Geometries_impl.hpp", S+"types/MultiPoint.cpp", S+"types/LineString.cpp", S+"types/LinearRing.cpp", S+"types/MultiLineString.cpp", S+"types/Cell.cpp", S+"types/Cells.cpp"],
  [("write-back iterators", I+"types/Geometries_impl.hpp Iterator::update"), ("bounds checks", S+"types/LineString.cpp getGeometry")],
  observe=["size, getGeometry, at, [], iteration"])
P("C20", "Angle arithmetic is correct everywhere on the circle",
  "For all finite angles: reduction to one turn lies in [0, 2pi) and differs from its input by whole turns; the difference of two angles is the shortest rotation between them, symmetric and in [0, pi]; the average lies halfway along the shorter way; making a list continuous changes each value only by whole turns and leaves steps of at most half a turn. The direction of a vector and the turn between vectors are those of elementary geometry, in [0, 2pi).",
  ["inputs"], "all finite angles incl. large multiples, negatives and values next to 0, pi and 2pi",
  "tests check a couple dozen values.",
  [I+"types/Geometry_impl.hpp", S+"types/Point.cpp", S+"types/MultiPoint.cpp"],
  [("modulo", I+"types/Geometry_impl.hpp mod_2pi/getAngContinuity/getAngleDiffAbs/getAngleAvg"), ("vector angles", S+"types/Point.cpp getAngleFromPoints")],
  observe=["return values"])
P("C21", "Point and segment geometry obeys elementary geometry",
  "For all points: sums, differences, scalings and products are component-wise and consistent; rotating about a centre keeps distances to it, turns directions by the angle and is undone by the opposite rotation, for points and for whole geometries; a point at an angle and distance is at that angle and distance. The closest point on a segment, line or ring is on it and no other point of it is nearer, the signed distance to a segment's line has the right magnitude and side, and the intersection of two non-parallel lines lies on both; equality holds up to tiny tolerance and ordering is by x, then y.",
  ["inputs"], "all finite points, segments, lines and rings incl. degenerate segments",
  "tests check a few values.",
  [S+"types/Point.cpp", I+"types/Point.h", S+"types/LineString.cpp", S+"types/LinearRing.cpp"],
  [("vector formulas", S+"types/Point.cpp"), ("closest point scan", S+"types/LineString.cpp closestPointTo")],
  observe=["return values"])
P("C22", "Cell set operations compute the right surface",
  "Intersection, difference and union of any cells or cell sets, cascaded union, restriction to other cells and splitting by lines yield exactly the points in both, in the first only, in either, and the original minus the cuts, so areas obey inclusion-exclusion; operands are never modified, empty operands behave as the empty set, and parts without area are dropped. Splitting along a line that crosses a cell yields pieces on either side of it, none straddling the line.",
  ["inputs"], "all pairs of valid cells and cell sets: disjoint, touching, nested, crossing, with holes",
  "tests intersect a few squares.",
  [S+"types/Cells.cpp"], [("delegation to the geometry engine", S+"types/Cells.cpp intersection/difference/unionOp"), ("split", S+"types/Cells.cpp splitByLine")],
  observe=["returned cells vs exact area oracle"])
P("C23", "Buffers contain exactly the points within the distance",
  "Growing a point, line, ring, cell or cell set by d yields everything within d of it beside its edges (with flat line ends and sharp corners, where its bends are wider apart than d), and nothing farther than 5.1 times d; shrinking a cell yields only points at least d inside. The buffer of a straight line is the rectangle of its length and 2d width, a one-sided buffer is the half on that side, the buffer of a ring is a band around its line, and growing is monotone in d.",
  ["inputs"], "all valid geometries and positive or negative distances",
  "tests compare areas of a few squares.",
  [I+"types/Geometry_impl.hpp", S+"types/Cell.cpp", S+"types/Cells.cpp", I+"types/Cells.h"],
  [("buffer parameters", I+"types/Geometry_impl.hpp OGRBuffer"), ("ring band", S+"types/Cell.cpp buffer(LinearRing)")],
  observe=["returned cells"])
P("C24", "Lines are clipped and cast to the border exactly",
  "The part of a line or line set inside a cell or cell set is exactly the stretches of it lying in the cell, with their total length; a long line through a point has the asked direction and reaches past the bounding area on the promised sides. A line cast from a point of a cell at an angle starts at that point and ends at the first border met in that direction, and is empty when the direction leaves the cell at once.",
  ["inputs"], "all cells, lines, points and angles",
  "tests use squares and a few angles.",
  [S+"types/Cell.cpp", S+"types/Cells.cpp", S+"types/MultiLineString.cpp", I+"types/MultiLineString.h"],
  [("clip", S+"types/Cell.cpp getLinesInside"), ("ray", S+"types/Cell.cpp createLineUntilBorder")],
  observe=["returned lines vs independent clipping"])
P("C25", "Point location, measures and convexity are right for every cell",
  "For every cell or cell set: area, perimeter and bounding extents are the true ones; a point is inside exactly when it is in the interior and on the border exactly when it is on an edge, outer or hole; the cell found for a point contains it and is usable on its own; the closest border point is on a border and none is closer. Convexity is reported exactly for cells that are convex, in either orientation, and the convex hull is the smallest convex cell containing the geometry; simplifying keeps the border within twice its tolerance.",
  ["inputs"], "all cells, cell sets and query points",
  "tests use a few squares.",
  [S+"types/Cell.cpp", S+"types/Cells.cpp", I+"types/Geometry_impl.hpp", I+"types/Geometries_impl.hpp"],
  [("predicates", S+"types/Cell.cpp isPointIn/isPointInBorder/isConvex"), ("lookup", S+"types/Cells.cpp getCellWherePoint")],
  observe=["return values vs independent geometry"])
P("C26", "A swath stays consistent under any edit",
  "A swath's start, end, direction angles, length and covered area always follow from its current line and width; reversing swaps the ends, turns the angles by half a turn, flips its direction mark, and twice reversing restores it; moving shifts every point. Aligning with or against another swath results in equal or opposite marks and never changes anything but direction, non-positive widths are refused without changing the swath, and swaths compare and order by number as documented.",
  ["histories"], "every sequence of swath operations",
  "tests run short fixed sequences.",
  [S+"types/Swath.cpp"], [("direction bookkeeping", S+"types/Swath.cpp reverse/targetSameDirAs/targetOppositeDirAs"), ("width check", S+"types/Swath.cpp setWidth")],
  state=[("creation_dir_", "true while the swath has its creation direction", I+"types/Swath.h")],
  observe=["getters"])
P("C27", "Swath lists keep every swath through appending, sorting, grouping",
  "Appending lines (whole or clipped to cells) to a swath list adds one swath per stretch with the given width and kind and the next numbers; sorting orders by number and points every swath in one sense without losing any; alternating makes neighbours opposite; reversing twice restores the list. In a list of lists the total size is the sum, the i-th swath overall is the i-th of the concatenation, flattening is that concatenation, and an index past the end is an error.",
  ["histories", "inputs"], "every sequence of list operations, incl. empty groups",
  "tests use a few swaths.",
  [S+"types/Swaths.cpp", S+"types/SwathsByCells.cpp"], [("append/sort", S+"types/Swaths.cpp"), ("global index", S+"types/SwathsByCells.cpp getSwath")],
  observe=["getters"])
P("C28", "A field keeps absolute positions and reads its CRS text right",
  "A field built from cells stores them relative to a reference point so that stored cells plus reference give the original absolute cells, with area and identifier preserved. Coordinate-system texts are recognised as EPSG or UTM exactly when they are, and the code, zone (one or two digits), hemisphere and datum read back are the ones written or set, with the documented defaults when absent.",
  ["inputs"], "every field, every EPSG code, every UTM zone 1-60, both hemispheres, datums, and texts that are neither",
  "tests use two or three texts.",
  [S+"types/Field.cpp"], [("reference point", S+"types/Field.cpp Field/getCellsAbsPosition"), ("text parsing", S+"types/Field.cpp getUTMCoordSystem/getUTMZone/getEPSGCoordSystem")],
  observe=["getters"])
P("C29", "Coordinate transformations round-trip and agree with the datum",
  "Transforming a field to UTM picks the zone and hemisphere of its location, gives metric coordinates equal to the standard projection of its absolute position, remembers the system it came from, and transforming back restores position and shape. Swaths, strips and points transformed along with the field land where the field's own points land and keep width, number, kind, direction and name; unknown or missing systems are refused with an error.",
  ["inputs", "histories"], "fields anywhere on Earth within UTM, WGS84/ETRS89/EPSG systems, both directions",
  "transformation tests cannot be linked in this build and use two places in Europe.",
  [S+"utils/transformation.cpp", I+"utils/transformation.h", S+"types/Field.cpp"],
  [("zone choice", S+"utils/transformation.cpp transformToUTM"), ("spatial reference", S+"utils/transformation.cpp createSptRef")],
  observe=["transformed coordinates vs independent UTM series"])
P("C30", "Importing a well-formed file yields exactly its content",
  "Importing a well-formed GeoJSON or GML/XML file yields every feature in file order, each with exactly the rings (outer and holes, closed), coordinates, names, widths and numbers written in it, and the coordinate system and identifier given, whatever the number of features, points or the process locale. Importing several files accumulates, and importing the same file twice gives the same result.",
  ["inputs"], "every well-formed file of the supported formats",
  "tests load six fixed files.",
  [S+"utils/parser.cpp"], [("json reading", S+"utils/parser.cpp getCellFromJson"), ("xml reading", S+"utils/parser.cpp importFieldGml")],
  observe=["imported objects vs the generator's data"])
P("C31", "Importing a broken file fails cleanly, never corrupts or crashes",
  "Importing a missing, truncated, empty, wrongly typed or otherwise malformed file reports an error by exception or yields only what the file says; it never crashes, reads invalid memory, hangs, or leaves the caller's list with a half-built entry.",
  ["inputs", "fault_sequences"], "every mutation (truncation, deletion, type swap, byte flip) of well-formed files",
  "tests load only good files and one missing file.",
  [S+"utils/parser.cpp"], [("error handling", S+"utils/parser.cpp importFieldGml/importJson")],
  observe=["exceptions, sanitizer reports"])
P("C32", "Random fields match their specification and their seed",
  "A generator with a given seed produces the same sequence every time and its copies continue it; numbers lie in the asked range and are spread over it; generated cells are simple, closed, have the asked number of sides and area with corners between the asked distances from the centre (up to the scale), convex ones are convex and non-convex ones are not, and requests for fewer than three sides or an area that is not positive are refused.",
  ["inputs"], "all seeds, areas, side counts and ranges",
  "tests sample one seed.",
  [S+"utils/random.cpp"], [("generator", S+"utils/random.cpp generateRandCell")], observe=["return values"])
P("C33", "The spline passes through its points and is smooth between them",
  "A cubic spline built from any sorted points passes through every one of them, is continuous with continuous slope and curvature at every inner point, and reproduces straight lines exactly; with the monotonic option, points which rise (or fall) all along give a curve which does so too. Unsorted, mismatched or too short input is refused, and resetting points fully replaces the old ones.",
  ["inputs"], "all strictly increasing abscissae and ordinates, 2 points upwards",
  "one test evaluates three splines at one place.",
  [S+"utils/spline.cpp"], [("tridiagonal solve", S+"utils/spline.cpp SetSplineCubic")], observe=["operator()"])
P("C34", "Robot parameters are validated, kept and mutually consistent",
  "A robot keeps every parameter set, defaults coverage width to its width and turning speed to cruise speed, treats curvature and turning radius as inverses and as magnitudes, and refuses non-positive widths at creation; copies are independent.",
  ["histories"], "every sequence of sets and gets", "tests use fixed values.",
  [S+"types/Robot.cpp"], [("setters", S+"types/Robot.cpp")], observe=["getters"])
P("C35", "A path keeps its length and shape through every operation",
  "For any path, length is the sum of its sections, the state at a travelled distance lies on the path, starts at the start, ends at the end and moves no faster than distance travelled; discretising swaths preserves endpoints, length and kinds; moving, rotating and mirroring are isometries of positions and headings; appending a swath adds its legs. Saving and loading a path restores it to the printed precision, regardless of locale.",
  ["histories", "inputs"], "every path (forward, backward, turns, swaths) and operation sequence",
  "path tests cannot be linked in this build.",
  [S+"types/Path.cpp", S+"types/PathState.cpp"], [("state list", S+"types/Path.cpp")],
  observe=["at, length, atEnd, discretizeSwath, save/load"])
P("C36", "A turn is the planner's turn placed between the two poses",
  "For any two poses, the turn created starts at the start pose and ends at the end pose whenever the planner's normalised turn joins its own two poses, is the same curve up to rotation, translation and mirroring, and keeps speeds, lengths, kinds and directions. With caching on, a repeated request gives the same turn, and requests differing in robot curvature, turn velocity, distance or angles by more than a thousandth, or in discretization, are never confused.",
  ["histories", "inputs"], "all pose pairs, robots and request histories, cache on and off",
  "turn tests cannot be linked in this build.",
  [S+"path_planning/turning_base.cpp"], [("normal form", S+"path_planning/turning_base.cpp transformToNormalTurn"), ("cache", S+"path_planning/turning_base.cpp createTurnIfNotCached")],
  state=[("path_cache_", "turns by rounded parameters", I+"path_planning/turning_base.h")],
  observe=["createTurn result"])
P("C37", "A planned path covers the route's swaths in order without jumps",
  "The path planned for a list of swaths or a route drives every swath fully, in order and direction, at cruise speed and marked as swath, with turns between them that start and end where the neighbouring swaths end and start; connections are followed from the end of one group to the start of the next and simplification keeps both ends.",
  ["inputs"], "all swath lists and routes",
  "path planning tests cannot be linked in this build.",
  [S+"path_planning/path_planning.cpp", S+"types/Path.cpp"], [("swath/turn concatenation", S+"path_planning/path_planning.cpp planPath")],
  observe=["planned path"])
P("C38", "A planned route drives every swath exactly once, over the headland",
  "Given a valid visiting sequence, the planned route contains every swath exactly once, in an allowed direction (as created when redirecting is not allowed), and consecutive swaths are joined by connections made of headland-graph points from one's end to the next's start, each a shortest path; the headland graph joins each swath end to the nearest border point and follows the border. With a start and end point the route begins and finishes there.",
  ["inputs"], "all headland rings and swath sets",
  "route planner tests cannot be linked in this build.",
  [S+"route_planning/route_planner_base.cpp"], [("graphs", S+"route_planning/route_planner_base.cpp createShortestGraph/createCoverageGraph"), ("solution to route", S+"route_planning/route_planner_base.cpp transformSolutionToRoute")],
  observe=["genRoute, transformSolutionToRoute"])
P("C39", "Planning is equivariant: moving or turning the field moves the plan",
  "Translating a field, or rotating it together with the angles in play, translates or rotates headlands, decompositions, swaths and orders with it and leaves every area, length, count and objective value unchanged; scaling field and widths scales lengths. Renumbering of a ring's starting vertex or orientation does not change the mainland, the swaths or any objective.",
  ["inputs"], "all fields and rigid motions",
  "tests never compare two runs.",
  [S+"swath_generator/swath_generator_base.cpp", S+"headland_generator/constant_headland.cpp", S+"decomposition/decomposition_base.cpp"],
  [("whole pipeline", "src/fields2cover")], observe=["results of the pipeline before and after the motion"])
P("C40", "No valid sequence of public calls breaks memory safety",
  "Any sequence of public calls with valid arguments, including empty, single-element and degenerate objects, completes with a result or a documented exception: no out-of-bounds or stale memory is touched, no undefined arithmetic is performed, and objects obtained from others stay usable after those are gone.",
  ["programs", "inputs"], "every sequence of public API calls on valid and degenerate objects",
  "tests are built without sanitizers and never combine calls or use degenerate objects.",
  ["src/fields2cover", "include/fields2cover"], [("ownership of geometry data", I+"types/Geometry_impl.hpp"), ("index arithmetic", S+"route_planning/snake_order.cpp")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions"])
P("C41", "Planning in several threads is race free and gives the same plans",
  "Independent planning calls on separate objects, and read-only calls on a shared object, can run in any number of threads at once: no data race occurs inside the library and every thread gets the result it would get alone.",
  ["schedules"], "all interleavings of independent planning calls in several threads",
  "tests are single threaded.",
  ["src/fields2cover", S+"swath_generator/brute_force.cpp"], [("no shared mutable state", "src/fields2cover")],
  observe=["ThreadSanitizer, results compared with a sequential run"])
P("C42", "Repeated planning does not leak memory",
  "Running any planning operation over and over, including ones that end in an exception, does not grow the process's live memory: everything allocated for a result is released with it.",
  ["histories"], "every operation, repeated any number of times",
  "tests run once and never look at memory.",
  [I+"types/Geometry_impl.hpp", I+"types/Cells.h", S+"types/Cell.cpp"], [("owner deleters", I+"types/Geometry_impl.hpp Geometry/destroyResGeom")],
  observe=["live heap bytes after each round"])
P("C43", "The complete-turn cost charges the turns really driven",
  "The path-length objective of a path is the sum of the lengths of its states, whatever their directions and kinds. The complete-turn objective charges for going between two poses exactly what its path objective charges for the turn its planner makes between them for its robot; in every form where both headings are known - a swath's end and start give their own headings, the last leg's and the first leg's - and the plain distance where one is not; lists of swaths and routes add up their swaths and the turns between them. A robot or a planner set later is used from then on, and objectives to be maximised change sign.",
  ["inputs", "histories"], "every path, pose, robot, turn planner and path objective",
  "the tests of these objectives cannot be linked in this build.",
  [S+"objectives/rp_obj/rp_objective.cpp", S+"objectives/pp_obj/pp_objective.cpp", I+"objectives/rp_obj/complete_turn_path_obj.h"],
  [("cost of a turn", I+"objectives/rp_obj/complete_turn_path_obj.h computeCost"), ("headings of swath ends", S+"objectives/rp_obj/rp_objective.cpp computeCost(Swath, Swath)")],
  observe=["computeCost return values vs turns of known length"])
P("C44", "One-call planning equals its stages, in the field's coordinates",
  "planCovRoute returns a route over exactly the swaths that the swath generator gives, at the robot's coverage width, on the mainland left by the asked number of headland swaths of the robot's width: at the given angle, or the best one for the chosen objective. Its connections run over a headland track of the field (over its border when there are no headlands) and link each swath with the next. planCovPath is the path of that route by the chosen turn planner, and drives each of its swaths once, in order, at cruise velocity. Cells, sets of cells and fields agree, and the defaults are the documented ones. A field's plan is in its local coordinates, or, unless these are asked for, it is made in UTM and given back in the field's own coordinate system. The field passed in does not change, and a field too small for its headlands gives an empty plan.",
  ["inputs"], "every field, robot and set of options",
  "these functions have no tests and cannot be linked in this build.",
  ["src/fields2cover.cpp", "include/fields2cover.h"],
  [("stages joined", "src/fields2cover.cpp planCovRoute(Robot, Cells, Options)"), ("coordinate systems", "src/fields2cover.cpp planCovRoute / planCovPath(Robot, Field, Options, bool)")],
  observe=["planCovRoute and planCovPath return values"])
with open(OUT, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows))

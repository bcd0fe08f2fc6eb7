#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PT="src/quadtrees/point/mod.rs"; PN="src/quadtrees/point/node.rs"; BT="src/quadtrees/bounds/mod.rs"; BN="src/quadtrees/bounds/node.rs"; ND="src/node.rs"; IT="src/iter.rs"; GM="src/geom/math.rs"; GG="src/geom/geometry.rs"; GX="src/geom/mod.rs"
ED="src/geom/euclidean/dist.rs"; EM="src/geom/euclidean/math.rs"; SD="src/geom/spherical/dist.rs"; SM="src/geom/spherical/math.rs"; TR="src/geom/spherical/to_radians.rs"; KN="src/quadtrees/knn.rs"; SO="src/quadtrees/sorted.rs"
NODES=[("children, stuck_children, nodes","the data held by a cell and its four quadrants, if divided",PN+", "+BN),("size","number of accepted inserts",PT+", "+BT)]

p("C01","Insert accepts exactly the data that lie within the tree's bounds",
 "Inserting into a point tree succeeds exactly when the datum's position lies in the tree's rectangle, edges and corners included, and otherwise fails with the out-of-bounds error. Inserting into a bounds tree succeeds exactly when the datum's bounding box exists and lies entirely within the tree's rectangle, edges included; it fails with the cannot-make-bbox error when the datum has no bounding box and with the out-of-bounds error otherwise. Earlier inserts, the limits on depth and children and the calculation method make no difference.",
 ["inputs","histories","configurations"],"every datum, every tree rectangle, every max_depth and max_children, after every history of inserts",
 "One test inserts a single point outside a unit square; edges, corners, boxes that stick out on one side, empty geometries and deep trees are not tried.",
 [PT,BT,GM,PN,BN],[("bounds check before delegating to the root",PT+" insert; "+BT+" insert"),("pt_in_rect, rect_in_rect",GM),("node insert never fails on in-bounds data",PN+" insert; "+BN+" insert")],None,["Result of insert"])
p("C02","Inserted data are neither lost, duplicated nor invented",
 "After any history of inserts, iterating over the tree yields each accepted datum exactly once and nothing else, and the reported size is the number of accepted inserts. An insert that fails leaves the contents and the size as they were.",
 ["inputs","histories","configurations"],"every history of inserts (accepted and rejected, with duplicates, on cell borders, before and after cells divide) and every configuration",
 "Tests insert at most a handful of data and divide one or two levels; a datum dropped or doubled on a division at some depth or position is not sampled.",
 [PT,BT,PN,BN,ND,IT],[("take the quadrants, insert below, put them back",PN+" insert; "+BN+" insert"),("redistribution on division",PN+" insert; "+BN+" insert"),("size counts accepted inserts",PT+" insert; "+BT+" insert"),("children chained with stuck children",BN+" children"),("descendant iteration",IT)],NODES,["iteration over a tree reference","size()"])
p("C03","Iteration is a complete preorder traversal and can be repeated",
 "Iterating over a tree first yields the data a cell itself holds and then, in the fixed order low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y, the complete contents of each quadrant by the same rule. Every pass over an unchanged tree yields the same sequence and ends.",
 ["inputs","histories","configurations"],"every tree reachable by inserts, whatever its shape and depth",
 "One test iterates one small tree.",
 [IT,ND,PN,BN],[("DescendantIter, DatumIter, ChainSelfIter",IT),("descendants",ND),("quadrants are stored in the order tl, tr, br, bl",ND+" subdivide")],NODES,["iteration over a tree reference"])
p("C04","Cells divide exactly when max_children and max_depth say so",
 "A cell divides into four exactly when a datum arrives at an undivided cell that already holds at least max_children data and is less than max_depth deep; its data are then redistributed by the same rule and the quadrants are one level deeper, so no cell lies deeper than max_depth and an undivided cell above that depth holds at most max_children data (at max_depth any number). The bounds tree keeps in a divided cell exactly those data that do not fit entirely in the quadrant of their centre. Trees made without explicit limits use 4 and 4.",
 ["inputs","histories","configurations"],"every history of inserts, every max_depth in 0..=255 and max_children including 0",
 "Two unit tests look at one division each, with limits 4/4 and 2/2; limits of 0, 1 or 255 and redistribution through several levels at once are not tried.",
 [PN,BN,ND,PT,BT,"src/quadtrees/mod.rs"],[("guard of the dividing branch",PN+" insert; "+BN+" insert"),("subdivide passes depth + 1 and both limits on",ND+" subdivide"),("default limits",PT+" private_new; "+BT+" private_new")],NODES,["Display of a tree","retrieve on a point tree"])
p("C05","Retrieve on a point tree yields exactly the cell of the position",
 "For a position within bounds, retrieve yields exactly the data of the one undivided cell that the position belongs to, each of them once: in particular every stored datum at that same position, and never one whose own retrieve would give a different set. For a position out of bounds it yields nothing.",
 ["inputs","histories","configurations"],"every query position (cell borders and centre lines included) on every tree reachable by inserts",
 "Tests retrieve from an empty tree and from a tree with one point.",
 [PT,PN,ND],[("insert and retrieve choose the quadrant by the same function",ND+" find_sub_node"),("retrieve",PT+" retrieve; "+PN+" retrieve")],NODES,["retrieve"])
p("C06","Retrieve on a bounds tree never misses an overlapping datum",
 "For a query whose bounding box lies within the tree's rectangle, retrieve yields every stored datum whose bounding box overlaps the query's (on each axis the ranges share more than an end point, or are equal), yields only stored data and none of them twice. For a query without a bounding box, or with one that is not within the tree's rectangle, it yields nothing.",
 ["inputs","histories","configurations"],"every query geometry on every bounds tree reachable by inserts, including queries and data that straddle several cells or are degenerate",
 "One unit test retrieves four boxes from one tree of seven boxes.",
 [BT,BN,ND,IT,GM],[("stuck children are returned on the way down",BN+" retrieve"),("quadrants that intersect the query are taken whole",BN+" retrieve"),("insert keeps a datum above any quadrant it does not fit",BN+" insert")],NODES,["retrieve"])
p("C07","find and find_r return a nearest datum, with its distance",
 "When the comparator is in bounds and its distances to the stored data and cells exist, find returns a stored datum together with its distance to the comparator, and no stored datum is nearer; find_r does the same among the data at a distance of at most r, r included, and fails with the none-in-radius error exactly when there are none. This holds for Euclidean trees with any comparator and for spherical trees with point comparators, all positions in radians, up to rounding of the distances.",
 ["inputs","histories","configurations"],"every tree contents, comparator, radius (0 and infinity included) and numeric type; cells are pruned by their distance, so the result must not depend on where data sit relative to cell borders",
 "Tests look for one nearest neighbour in three small fixed trees; a pruning mistake only shows for particular positions relative to cell borders.",
 [PT,BT,GX,"src/quadtrees/mod.rs",ED,EM,SD,SM],[("pruning by the distance to the cell",PT+" find_r; "+BT+" find_r"),("pruning by the datum's bounding box",BT+" find_r"),("dist_bbox, dist_geom",GX)],None,["Result of find, find_r"])
p("C08","knn and knn_r return the k nearest data in order of distance",
 "When the comparator is in bounds and its distances exist, knn returns min(k, size) different stored data in order of increasing distance, each with its distance to the comparator, such that no stored datum left out is nearer than one returned; k = 0 gives an empty result. knn_r does the same among the data at a distance of at most r, r included.",
 ["inputs","histories","configurations"],"every tree contents, comparator, k (0 and beyond size included), radius and numeric type",
 "Two tests ask for a few neighbours of one comparator in one tree.",
 [KN,PT,BT,GX],[("work list ordered by distance, holding cells and data",KN),("radius and count tests",KN)],None,["Result of knn, knn_r"])
p("C09","Sorted iteration yields every datum once, by increasing distance",
 "When the comparator is in bounds, sorted iteration yields each stored datum whose distance to the comparator exists and is finite exactly once, with that distance, in order of increasing distance, and then ends. When it is out of bounds or its distance to the tree's rectangle does not exist, it yields nothing.",
 ["inputs","histories","configurations"],"every tree contents, comparator and numeric type; however far the iteration is driven",
 "No test drives the sorted iterator.",
 [SO,PT,BT,GX],[("work list that is re-sorted when cells are opened",SO)],None,["the iterator returned by sorted"])
p("C10","Searches report errors by the documented contract",
 "With no calculation method set, find, find_r, knn and knn_r fail with the calc-method-not-set error and sorted yields nothing; otherwise an error of the distance to the tree's rectangle is passed on, and a comparator at a non-zero distance from that rectangle gives the out-of-bounds error. On an empty tree find and find_r then give the empty error while knn and knn_r give an empty result. knn and knn_r never list a datum at a distance that is not finite, and knn leaves none out in silence: if it succeeds with fewer than k data, they are all that is stored. When all distances involved exist, no other error occurs than none-in-radius from find_r, and find and knn are find_r and knn_r with an infinite radius.",
 ["inputs","histories","configurations"],"every combination of calculation method, comparator kind and position, and tree contents",
 "The tests only check success and one radius miss.",
 [PT,BT,KN,SO,GX,"src/quadtrees/mod.rs","src/error.rs"],[("early error checks",PT+" find_r; "+BT+" find_r; "+KN+"; "+SO),("CalcMethod::None",GX)],None,["Result of the search methods"])
p("C11","Euclidean distance is right for every pair of shapes, however wrapped",
 "For every pair of supported shapes the Euclidean distance is the distance between the two shapes: it is never negative, does not depend on the order of the two, and is the same for owned, borrowed and bare shapes and through the calculator. A rectangle counts with its interior, and between two rectangles the distance is the exact gap: the hypotenuse of the gaps along the two axes, each 0 where the ranges meet.",
 ["inputs"],"every pair of shapes and every way to call",
 "No test calls the Euclidean distance between rectangles, and few of the 25 pairs are reached at all.",
 [ED,EM,GX,GG],[("dispatch",ED),("dist_rect_rect",EM),("dist_geom, dist_bbox",GX)],None,["dist_euclidean, dist_geom, dist_bbox"])
p("C12","The haversine distance exists for exactly the documented pairs",
 "The haversine distance exists for a point and any supported shape, in either order, and for two rectangles, and is then the distance given by the corresponding spherical formula with the roles of the two shapes kept straight; for every other pair it fails with the invalid-distance error. Owned, borrowed and bare shapes and the calculator all agree.",
 ["inputs"],"every pair of shapes and every way to call",
 "Tests call three of the pairs, in one direction.",
 [SD,GX,GG],[("dispatch",SD),("dist_geom, dist_bbox",GX)],None,["dist_haversine, dist_geom, dist_bbox"])
p("C13","Spherical distances to lines and polygons pick the closest part",
 "The spherical distance from a point to a line is the great-circle distance to the point's projection onto it in lng/lat coordinates, clamped to the segment; to a linestring it is the smallest over its segments, infinite if there are none. To a polygon it is zero when the point is in the polygon or on its border, and otherwise the smallest over the exterior and all interior rings.",
 ["inputs"],"every point, line (zero length included), linestring and polygon with any number of holes",
 "Tests cover one polygon with one hole and a few points.",
 [SM],[("dist_pt_line, dist_pt_linestring, dist_pt_poly",SM)],None,["dist_haversine","dist_pt_line, dist_pt_linestring, dist_pt_poly"])
p("C14","Spherical point-rectangle distance is the nearest place in the rectangle",
 "The spherical distance from a point to a rectangle is zero if the point lies in it, edges included; if some part of it is straight up or down, it is the gap in latitude. It never exceeds the great-circle distance from the point to any position in the rectangle, and it is the distance to one of them, up to rounding.",
 ["inputs"],"every point and rectangle with lng in [-pi, pi] and lat in [-pi/2, pi/2]",
 "Tests try a handful of rectangles; the bound matters most for wide rectangles near a pole or across the antimeridian, and search results depend on it.",
 [SM,GM],[("dist_pt_rect, dist_pt_meridian",SM),("pt_in_rect",GM)],None,["dist_haversine","dist_pt_rect"])
p("C15","Great-circle distance is symmetric, bounded and the haversine value",
 "The great-circle distance between two points in radians is the haversine of the difference of their latitudes and longitudes: it lies in [0, pi], is the same in both directions, is zero from a point to itself, and does not change when a longitude is written a full turn further on. Results agree with the angle between the two directions up to rounding.",
 ["inputs"],"every pair of points",
 "Tests check a few fixed pairs.",
 [SM],[("dist_pt_pt",SM)],None,["dist_haversine","dist_pt_pt"])
p("C16","Degree-to-radian conversion maps every coordinate, in both forms",
 "Converting a shape to radians yields a shape of the same kind with the same number and order of positions, rings included, each coordinate multiplied by pi/180 on both axes; the original is unchanged. Converting in place leaves exactly what the other form returns.",
 ["inputs"],"every shape of every kind, including polygons with holes and empty linestrings",
 "One example converts points; no other kind nor the in-place form is tested.",
 [TR],[("ToRadians implementations",TR)],None,["to_radians, to_radians_in_place"])
p("C17","Conversions keep the shape and the bounding box is tight",
 "Wrapping any supported shape, borrowing it, or converting it from the general geometry type keeps its kind and its coordinates, and converting an unsupported kind fails with the unsupported-geometry error. The bounding box of an owned or borrowed shape is the smallest rectangle around its positions, and absent exactly for shapes without positions.",
 ["inputs"],"every geometry of every kind",
 "No test converts from the general geometry type or asks for a bounding box.",
 [GG,GX,PT],[("From, TryFrom, AsGeom, AsPoint, BoundingRect",GG+"; "+GX+"; "+PT)],None,["From, TryFrom, as_geom, as_point, bounding_rect"])
p("C18","The four quadrants tile their cell and every position has its quadrant",
 "When a cell divides, its quadrants are the four rectangles cut out by the cell's centre lines, in the order low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y; together they cover the cell and nothing else. The quadrant chosen for a position in the cell always contains it; a position on a centre line goes to the low side.",
 ["inputs","histories","configurations"],"every cell rectangle and position, every depth, integers and floats; the rule must be the same for insertion and retrieval",
 "Tests place points well inside quadrants of a unit square.",
 [ND,PN,BN],[("subdivide",ND),("find_sub_node",ND),("datum_position",PN+"; "+BN)],None,["Display of a tree","retrieve"])
p("C19","Spherical rectangle distance is zero on contact and symmetric",
 "The spherical distance between two rectangles is zero if they overlap or touch, equals the gap in latitude if only their longitude ranges meet, lies in [0, pi] and is the same in both directions up to rounding. When their longitude ranges do not meet it is the great-circle distance between facing positions on the side with the shorter way round: at the shared latitude nearest a pole if their latitude ranges meet, and between the facing corners otherwise.",
 ["inputs"],"every pair of rectangles with lng in [-pi, pi] and lat in [-pi/2, pi/2]",
 "Two tests try a few fixed pairs.",
 [SM],[("dist_rect_rect, Lng",SM)],None,["dist_haversine","dist_rect_rect"])
p("C20","Printing a tree shows every cell once, with what it holds",
 "Printing a tree writes its title line (\"Point Quadtree Root:\" or \"Bounds Quadtree Root:\") and then one line for each of its cells, a cell before its quadrants and the quadrants in their order: four blanks per level of depth, the low corner of the cell with two decimals in parentheses and a colon, then nothing, \" 1 child\" or \" n children\" for the number of data the cell itself holds. Nothing else is written; output that cannot be written makes the print fail, and nothing else does.",
 ["inputs","histories","configurations"],"every tree either kind can grow into, every output that stops taking text part way",
 "No test prints a tree.",
 [ND,PN,BN],[("display",ND),("Display of nodes",PN+"; "+BN),("Display of trees","src/quadtrees/point/mod.rs; src/quadtrees/bounds/mod.rs")],None,["Display of a tree"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

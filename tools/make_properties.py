#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PR = "src/properties/"; EL = "src/elements/"; PL = "src/planar/"; TP = "src/planar/triangulation_procedures/"
RP = "src/planar/refine_procedures/"; TI = "src/triangulator_interface/"; JS = "src/json_serializar/"

prop("C01", "Side and circle predicates have the exact sign and one shared tolerance",
 "For every choice of finite coordinates the three-point orientation, in-circumcircle and diametral-circle (encroachment) tests answer according to the sign of the defining determinant or dot product, and answer 'colinear/boundary' exactly when its magnitude is at most 1e-14. The answer is the same when it is asked through an edge or a solid triangle, and a ghost triangle answers by which side of its solid edge the point lies on. Two segments are parallel exactly when the cross product of their directions vanishes.",
 ["inputs"], "every tuple of finite f64 coordinates, every ghost/solid combination",
 "unit tests sample a handful of tuples, almost all far from the boundary and axis aligned; the wrong sign of one minor or a widened tolerance survives them",
 [PR+"orientation.rs", PR+"continence.rs", PR+"encroachment.rs", PR+"parallel.rs", EL+"triangle.rs", EL+"edge.rs"],
 [("determinant sign tests", PR+"orientation.rs, "+PR+"continence.rs"), ("diametral dot product", PR+"encroachment.rs"), ("ghost half-plane rule", EL+"triangle.rs")],
 ["return value of each predicate"])

prop("C02", "Measures equal their defining formulas",
 "For all finite inputs the reported distance, edge length, dot product, midpoint, signed triangle area, signed polygon area, centroid, circumcentre, turn angle and radius-to-shortest-edge quality equal their textbook formulas (in real arithmetic). Circumcentre is absent exactly when the three points are exactly colinear; area, circumcentre and quality are absent exactly for ghost triangles.",
 ["inputs"], "every tuple of finite f64 coordinates, every ordering of the three side lengths",
 "tests check one or two right triangles per measure; symmetric inputs hide swapped coordinates and the wrong shortest side",
 [PR+"distance.rs", PR+"dot.rs", PR+"midpoint.rs", PR+"area.rs", PR+"circumcenter.rs", PR+"angle.rs", EL+"triangle.rs", EL+"edge.rs"],
 [("closed-form measures", PR+"*.rs"), ("shortest-side case split", EL+"triangle.rs quality")],
 ["return value of each measure"])

prop("C03", "Segment intersection reports the common point exactly when there is one",
 "Two segments intersect exactly when the point solving their line equations lies, to within 1e-14 per coordinate, in the overlap of their bounding boxes, and that point is what is returned. For parallel lines the middle of the overlap is returned when it lies on both lines to within 1e-14, and nothing otherwise; disjoint bounding boxes never intersect.",
 ["inputs"], "every pair of finite segments including touching, colinear-overlapping and parallel ones",
 "tests cover a few axis-aligned crossings; each of the four interval ends and the colinear branch has its own comparison that a sample can miss",
 [PR+"intersection.rs", EL+"bounding_box.rs"],
 [("bounding-box pre-filter, 2x2 solve, interval post-filter", PR+"intersection.rs")],
 ["return value of the intersection query"])

prop("C04", "Bounding boxes are tight and point-on-segment means colinear within the box",
 "The bounding box of a non-empty vertex list spans exactly the minimum and maximum of each coordinate; the overlap of two boxes is their common part (touching counts) and the union of boxes spans all of them. A point is on a segment exactly when it lies in the closed bounding box of its ends and is colinear with them.",
 ["inputs"], "every finite list of vertices or boxes, every point",
 "tests use small boxes in general position; ties, single-element lists and reversed corners are not enumerated",
 [EL+"bounding_box.rs", EL+"edge.rs"],
 [("running min/max folds", EL+"bounding_box.rs"), ("bbox + orientation test", EL+"edge.rs contains")],
 ["return values"])

prop("C05", "Equality, hashing and ordering of geometric values agree",
 "Vertices are equal exactly when both are ghost, or both are solid and each coordinate differs by at most 1e-14; edges are equal when oriented alike; triangles are equal up to rotation but not reflection; polylines when their vertex lists and openness agree. Values whose equality follows from these rules with identical coordinates (in particular rotated triangles) also hash identically. Vertex ordering and list sorting are lexicographic by x then y.",
 ["inputs"], "every pair of vertices, edges, triangles, polylines and bounding boxes",
 "tests compare a few literals and never look up a rotated triangle in a hashed collection; contracts between equality and hash are quantified over all pairs",
 [EL+"vertex.rs", EL+"edge.rs", EL+"triangle.rs", EL+"polyline.rs", EL+"bounding_box.rs"],
 [("hand-written PartialEq/Ord/Hash", EL+"*.rs")],
 ["==, hash, sort order; membership in hashed sets"])

prop("C06", "The ghost vertex never contributes geometry to results",
 "A triangle is ghost exactly when one of its corners is the ghost vertex; such triangles have no area, circumcentre, quality or outline, the midpoint involving a ghost is the ghost, and an edge touching the ghost has no outline. Vertex listings, rendered edges and triangles and the exported mesh contain no ghost vertex and no ghost triangle, and refinement never measures a ghost triangle.",
 ["inputs", "histories"], "every triangulation state including holes (ghosts around inner hulls), every corner position of the ghost",
 "tests build ghosts in one corner position and rarely export triangulations",
 [EL+"triangle.rs", EL+"edge.rs", PR+"midpoint.rs", PL+"triangulation.rs", RP+"triangle_split.rs", "src/glium_interface/vertex.rs", JS+"models/output.rs"],
 [("is_ghost guards before measurement", EL+"triangle.rs"), ("filters before output", PL+"triangulation.rs, "+JS+"models/output.rs")],
 ["vertex listings, exported mesh, rendered buffers"])

prop("C07", "Triangle and edge incidence queries are mutually consistent",
 "Walking a triangle's inner edges visits its corners in order and its outer edges are exactly their reverses; the corner opposite an inner edge and the edge opposite a corner are inverse to each other, preserve orientation, and are absent exactly when the edge or corner does not belong to the triangle. Reversing an edge swaps its ends, and converting edges to vertex pairs and back preserves order and direction.",
 ["inputs"], "every triangle, edge and vertex, including shared and foreign ones",
 "tests check one triangle; a wrong corner in one branch is invisible for the other two",
 [EL+"triangle.rs", EL+"edge.rs"],
 [("explicit case analysis over the three corners", EL+"triangle.rs")],
 ["return values"])

prop("C08", "Polygon outline and point-in-polygon classification",
 "Closed outlines need at least three vertices and open ones at least two; the edges of an outline join consecutive vertices in order and close back to the first exactly when it is closed, and only open outlines have a head and a tail. A point is on the boundary of a closed outline exactly when some edge passes through it, otherwise it is inside exactly when the vertical-ray crossing count (half-weights at edge ends, signed by side) is non-zero; open outlines give no answer.",
 ["inputs"], "every vertex list and query point, including points aligned with vertices and vertical edges",
 "tests use a few squares and triangles; ray-through-vertex and vertical-edge combinations are combinatorially many",
 [EL+"polyline.rs"],
 [("vertex_pairs", EL+"polyline.rs"), ("signed crossing parity", EL+"polyline.rs contains")],
 ["outline edges, containment answer"])

prop("C09", "Relative position of an outline or segment against a polygon",
 "A polygon classifies another outline as wholly inside or wholly outside only when every vertex (including the last vertex of an open outline), every edge midpoint and the midpoint of every piece obtained by cutting both outlines at their mutual crossings agree; mixed answers and open reference polygons give no answer. The classification is 'closed' exactly when some examined point lies on the polygon's boundary, and 'boundary' when all of them do.",
 ["inputs"], "every polygon / outline pair, in either direction of the open segment",
 "tests probe a handful of configurations in one direction; the property quantifies over all positions of the segment",
 [EL+"polyline.rs"],
 [("critical vertex scan and split-piece scan", EL+"polyline.rs continence")],
 ["classification result"])

prop("C10", "Cutting, chaining and outlining edge sets preserves geometry",
 "Splitting a list of segments at crossings replaces two properly crossing, non-parallel segments by their four parts meeting at the crossing point and leaves every other segment as it is; listing the crossings of two outlines reports each crossing point, reusing an existing end vertex when it coincides. Decomposing an edge over a set follows same-direction overlapping parallel pieces head to tail and succeeds only when the chain ends at the edge's end; chaining colinear edges joins only colinear continuations in the same direction.",
 ["inputs"], "every finite edge set", "tests contain few configurations and no systematic coverage of direction and sharing of end points",
 [EL+"polyline.rs", EL+"edge.rs"],
 [("split_intersections / intersection_vertices", EL+"polyline.rs"), ("arrange / decompose / into_hashmap", EL+"edge.rs")],
 ["returned edge lists and vertex sets"])

prop("C11", "The outline of a triangle patch consists of its unmatched edges",
 "The hull of a set of triangles consists of exactly those directed edges whose reverse belongs to no other triangle of the set, chained head to tail into one closed outline; when they do not form a single closed chain no hull is returned. Dropping colinear vertices from an outline removes exactly the vertices whose neighbours are colinear with them, never an end of an open outline, and keeps an open outline open.",
 ["inputs"], "every finite triangle set and outline",
 "tests use two or three patches",
 [EL+"polyline.rs"], [("triangles_hull / arrange / minified_noncolinear", EL+"polyline.rs")], ["returned outline"])

prop("C12", "Triangle set and edge adjacency stay in step",
 "After any sequence of inclusions and removals every triangle of the triangulation is indexed under each of its three directed edges, removing a present triangle removes it and its three index entries, and including a present or removing an absent triangle changes nothing and reports false. A new triangulation over a segment holds exactly the two opposite ghost triangles, and only these two operations ever modify the triangle set or the index.",
 ["histories"], "every sequence of inclusions and removals by any caller",
 "tests include and remove single triangles; the invariant quantifies over all call sequences and over who may write",
 [PL+"triangulation.rs"], [("include_triangle / remove_triangle as only writers", PL+"triangulation.rs")],
 ["triangle set and adjacency index"], [("triangles", "set of triangles", PL+"triangulation.rs"), ("adjacency", "directed edge to triangle index", PL+"triangulation.rs")])

prop("C13", "Point insertion digs exactly the permitted conflict cavity and refills it",
 "When a pending point is inserted, a neighbouring triangle is removed exactly when its circumcircle strictly contains the point (or, for a ghost neighbour, the point lies on its solid edge), the shared edge is not constrained in either direction, and the domain permits reaching the point; otherwise the cavity edge is joined to the point by one counter-clockwise triangle, with any ghost vertex kept in last position. The step continues across the other two edges of every removed triangle, and reports every triangle it included and every one it removed.",
 ["inputs", "histories"], "every triangulation state, pending point set and constraint set",
 "tests run a few small meshes; hash iteration order and constraint/ghost combinations are sampled only by chance",
 [TP+"vertices.rs"], [("cavity worklist", TP+"vertices.rs solve_conflicts")], ["resulting triangulation, reported inclusion and removal sets"],
 [("conflict_map", "triangle to pending points it encircles", TP+"vertices.rs")])

prop("C14", "Pending points are never lost, duplicated or misassigned",
 "Distributing pending points over a triangle moves to that triangle's conflict list exactly the points strictly inside its circumcircle that the domain permits and leaves all others pending, without dropping or duplicating any; conflicts already recorded are kept. When a triangle is destroyed its unprocessed conflicting points become pending again, points already in the triangulation are not reinserted, and a point search over the mesh visits each reachable solid triangle once.",
 ["inputs", "histories"], "every list of pending points and every triangle",
 "tests check single-vertex lists",
 [TP+"vertices.rs"], [("distribute_conflicts queue rotation", TP+"vertices.rs"), ("reinclusion into pending list", TP+"vertices.rs solve_conflicts")],
 ["conflict lists and pending list"])

prop("C15", "No triangle reaches outside the boundary or into any hole",
 "A point may be connected to a triangle only if the connecting outline (triangle centre to point, or solid edge plus point for a ghost) is not outside the boundary and is inside none of the holes; an undetermined position counts as forbidden. The answer depends on every hole, regardless of how many there are or the order in which they are visited, and without boundary and holes everything is permitted.",
 ["inputs"], "every boundary, every number and order of holes, every triangle/point pair",
 "tests never use two holes with different answers, and set iteration order is random",
 [TP+"vertices.rs"], [("domain permission test", TP+"vertices.rs may_insert_triangle")], ["permission answer"])

prop("C16", "Boundary inclusion removes the exterior and fences every boundary edge",
 "Including a boundary inserts all its vertices, removes every triangle reachable from the outer side of a boundary edge without crossing another boundary edge, and afterwards adds for each boundary edge one ghost triangle on its outer side. Nothing on the inner side is removed.",
 ["inputs", "histories"], "every boundary polygon and triangulation state",
 "tests check a few convex and one concave polygon",
 [TP+"boundary.rs"], [("edge seeding, flood fill, fencing", TP+"boundary.rs")], ["triangulation after boundary inclusion"])

prop("C17", "Hole inclusion respects constraints, recovers edges and empties the hole",
 "Including a hole inserts its vertices under the existing constraints, recovers every missing hole edge with existing constraints and all hole edges protected, replaces the triangles on the inner side of each hole edge by one ghost triangle per hole edge, and removes every triangle reachable from there.",
 ["inputs", "histories"], "every hole polygon, constraint set and triangulation state",
 "tests use one square hole",
 [TP+"hole.rs"], [("vertex insertion, segment recovery, fencing, flood fill", TP+"hole.rs")], ["triangulation after hole inclusion"])

prop("C18", "Segment recovery retriangulates exactly the affected unprotected patch",
 "Recovering a constrained segment removes exactly the solid triangles that touch the segment or whose circumcircle meets one of its ends and that are not shielded from it by a constrained edge, retriangulates exactly the corners of that patch inside the patch outline with the segment present and protected, and puts back all resulting solid triangles and no ghost ones.",
 ["inputs", "histories"], "every triangulation, segment and constraint set",
 "tests check few segments in small meshes",
 [TP+"segment.rs"], [("conflict filter, patch hull, local retriangulation", TP+"segment.rs")], ["triangulation after segment recovery"])

prop("C19", "Constraint vertices are accepted all or nothing and never duplicate segments",
 "Registering constraint vertices fails without changing anything, reporting exactly the offending vertices, when any of them is not strictly inside the boundary or not strictly outside every hole. Otherwise a vertex that is already a segment end is ignored, a vertex lying on a registered segment splits it into two parts at that vertex, and every other vertex is registered.",
 ["inputs", "histories"], "every vertex set against every boundary, hole set and segment set",
 "tests insert a few vertices with at most one hole",
 [PL+"triangulator.rs"], [("validate-then-commit", PL+"triangulator.rs insert_vertices")], ["returned result, registered vertices and segments"])

prop("C20", "Constraint segments are accepted all or nothing and split where they meet",
 "Registering constraint segments fails without changing anything, reporting exactly the offending segments, when any of them is not strictly inside the boundary or not strictly outside every hole. Otherwise registered vertices that are ends of or lie on a new segment stop being free vertices, a vertex in the interior of a segment splits it there, no zero-length segment is ever registered, and new and existing segments are split at their crossings.",
 ["inputs", "histories"], "every segment set against every prior registration history",
 "tests insert one or two segments; end-vertex coincidences are not enumerated",
 [PL+"triangulator.rs"], [("validate-then-commit, vertex absorption, splitting", PL+"triangulator.rs insert_segments")], ["returned result, registered vertices and segments"])

prop("C21", "Holes are accepted only when disjoint from everything and clear their inside",
 "Registering a hole fails without changing anything, reporting the conflicting vertices, when it is not strictly inside the boundary, not strictly outside every existing hole, or not clear of every registered segment. On success the hole is registered and no registered free vertex remains inside it or on its outline.",
 ["inputs", "histories"], "every hole against every prior registration history",
 "tests register one or two holes and no vertices beforehand",
 [PL+"triangulator.rs"], [("validate-then-commit", PL+"triangulator.rs insert_hole")], ["returned result, registered holes and vertices"])

prop("C22", "Triangulation honours boundary, then holes, then segments, then vertices",
 "Triangulating starts from the first boundary edge, includes the boundary, then every hole, then every segment, then all free vertices, in that order. Each stage is protected by all boundary edges plus all hole and segment edges of the stages and items already done, and the final vertices are inserted under the boundary and all holes; the result replaces the stored triangulation.",
 ["inputs", "configurations"], "every combination of boundary, holes, segments and vertices",
 "tests triangulate few combinations, rarely with two holes and segments",
 [PL+"triangulator.rs"], [("staged pipeline with accumulating constraints", PL+"triangulator.rs triangulate")], ["stored triangulation"])

prop("C23", "Encroached constraints are split at their midpoints until clear",
 "A constrained edge is encroached exactly by the vertices strictly inside its diametral circle. Splitting replaces it by the two halves meeting at its midpoint, inserting that midpoint with every other constraint protected, boundary and holes respected; halves still encroached by one of the considered points are split again, and the reported pieces are exactly the unencroached halves, mapped to the edge they came from.",
 ["inputs", "histories"], "every constraint set, vertex set and triangulation",
 "tests split one or two edges; recursion and reporting sets are barely reached",
 [RP+"encroachment.rs"], [("split worklist", RP+"encroachment.rs")], ["returned pieces, split map, triangulation"])

prop("C24", "Reported triangle changes of refinement steps are accurate",
 "Each refinement step reports as included the triangles it added that were not removed again by a later split of that step, and as removed every triangle it took out. A rejected circumcentre leaves the triangulation as it was: everything it added is removed and everything it removed is put back, and the reported edges are exactly the constrained edges opposite the circumcentre whose diametral circle strictly contains it.",
 ["inputs", "histories"], "every triangulation, constraint set and irregular triangle",
 "tests only look at sizes after one insertion",
 [RP+"encroachment.rs", RP+"triangle_split.rs"], [("accumulation of inclusion/removal sets", RP+"encroachment.rs"), ("rollback", RP+"triangle_split.rs try_circumcenter_insertion")], ["reported sets, triangulation after rejection"])

prop("C25", "Refinement targets exactly the poor and oversized solid triangles",
 "A triangle is poor exactly when its radius-to-edge ratio is at least the requested one (within 1e-14) and oversized exactly when an area limit is given and its area is at least that limit (within 1e-14). Refinement processes all solid triangles that are poor or oversized, poor ones first, keeps both work lists up to date with every reported inclusion and removal, and updates the active constraints whenever an edge is split.",
 ["inputs", "histories"], "every triangulation and parameter set",
 "tests refine single squares and check counts",
 [RP+"triangle_split.rs"], [("two work lists", RP+"triangle_split.rs split_irregular")], ["work lists, constraint set, triangulation"])

prop("C26", "Refining uses every constraint and replaces split ones by their pieces",
 "Refinement first unencroaches, then splits triangles, against the boundary edges, all hole edges and all registered segments together with boundary and holes as domain. Before triangle splitting every constraint that was split, in either direction, is replaced by its pieces and all other constraints stay active.",
 ["inputs", "configurations"], "every combination of boundary, holes, segments and parameters",
 "tests refine domains with at most one kind of constraint",
 [PL+"triangulator.rs"], [("constraint assembly and replacement", PL+"triangulator.rs refine")], ["calls into refinement stages"])

prop("C27", "The exported mesh is self-consistent",
 "In the exported mesh every triangle index refers to the coordinates of the vertex that corner has in the triangulation, every solid triangle appears once with its orientation preserved, every coordinate entry is a triangulation vertex with z zero, and id, name and date are those of the input.",
 ["inputs"], "every triangulation and input description",
 "no test inspects the export; the mismatch depends on hash iteration order",
 [JS+"models/output.rs", JS+"models/point.rs", JS+"models/tesselations.rs"], [("vertex numbering shared by coordinates and indices", JS+"models/output.rs from_triangulator")], ["exported JSON structure"])

prop("C28", "Each input action is interpreted by its geometry and intent, or rejected",
 "Polylines and circles may be included or removed, segments and vertices may only be constraints, and any other geometry or intent is rejected as an error; every accepted action contributes its full geometry to the matching collection. Malformed geometry (too few points, self-crossing outlines, missing or out-of-range point references, odd point counts) is rejected as an error and never aborts.",
 ["inputs"], "every action list",
 "tests deserialize single actions and never run the interpreter",
 [TI+"interpreter/mod.rs", TI+"interpreter/polyline_parser.rs", TI+"interpreter/circle_parser.rs", TI+"interpreter/segments_parser.rs", TI+"interpreter/vertices_parser.rs", TI+"interpreter/refine_params_parser.rs"],
 [("dispatch over geometry and intent", TI+"interpreter/mod.rs")], ["interpreter result"])

prop("C29", "The domain is the union of inclusions minus removals, holes merged",
 "Without inclusions, with an inclusion that cannot be united with the rest, or with a removal that splits the domain, composing the domain is an error; otherwise the boundary is all inclusions united and each removal subtracted in turn, and removals that do not cut the boundary are the hole candidates. A hole candidate strictly inside the boundary becomes a hole; overlapping candidates are merged into one, so no hole is kept both merged and unmerged, and candidates outside are ignored.",
 ["inputs"], "every list of inclusions and removals in every order",
 "no test covers domain composition",
 [TI+"domain_evaluator.rs"], [("union/subtraction loops", TI+"domain_evaluator.rs")], ["boundary and holes handed to the triangulator"])

prop("C30", "The command assembles the whole problem or fails, and reports I/O errors",
 "Assembling a problem registers the composed boundary, every hole, then every constraint segment, then every constraint vertex, and any failing step makes the whole assembly fail. The command triangulates before refining with the requested parameters, exports the refined mesh to the requested file or to standard output, and unreadable input, malformed JSON, a failed assembly or an unwritable output are reported and never silently ignored.",
 ["inputs", "fault_sequences"], "every input file, option combination and I/O failure",
 "no test runs the command",
 [TI+"mod.rs", "src/main.rs", JS+"io.rs"], [("Result propagation", TI+"mod.rs, src/main.rs, "+JS+"io.rs")], ["process output and exit status"])

prop("C31", "Flat coordinate lists convert without loss",
 "Building vertices or edges from a flat coordinate list pairs coordinates as (x, y) in order, refuses lists of odd length, and connects each vertex to the next and the last to the first. Rendering buffers list both ends of each distinct solid edge once and the corners of each solid triangle.",
 ["inputs"], "every coordinate list", "tests convert lists of two or three points",
 [EL+"vertex.rs", EL+"edge.rs", "src/glium_interface/vertex.rs"], [("index arithmetic", EL+"vertex.rs, "+EL+"edge.rs")], ["returned lists"])

prop("C34", "The JSON documents keep their protocol",
 "Documents are read and written under the documented keys: a request has name, actions and params (quality, optionally max_area), and optionally id (a fresh one when missing) and date (now when missing); an action has intent and geometry, and optionally scalars, points and assemble (empty when missing); a point has x and y and optionally z (zero when missing); keys that are not known are ignored and a missing required key makes the document unreadable. Written documents always carry every field under its own key with its value unchanged: id, name, date, coordinates, triangles and tetrahedrons of a mesh, x, y, z of a point, v1 to v3 (v4) of an element; reading a written document gives it back.",
 ["inputs"], "every document: any combination of keys present, missing or unknown, any values",
 "tests parse six documents and never look at what is written",
 [JS+"models/input.rs", JS+"models/action.rs", JS+"models/point.rs", JS+"models/output.rs", JS+"models/tesselations.rs"],
 [("derived Deserialize/Serialize and their defaults", JS+"models/*.rs")], ["accepted documents", "written documents"])

# --- not claimed -----------------------------------------------------------
prop("C33", "Polygon boolean operations keep the right pieces and account for all others",
 "Union, intersection and subtraction cut the edges of both outlines at their mutual crossings. Intersection keeps the pieces whose midpoint is outside neither outline; union those whose midpoint is outside either; subtraction the pieces of the first outline and of the reversed second one whose midpoint is not outside the first and not inside the second. In intersection and subtraction, overlapping pieces of opposite direction cancel where one continues the other or reaches outside an outline. Kept pieces are joined end to start, taking the smallest turn angle (the largest for union) and never the way back; a closed chain of at least three pieces becomes a resulting polygon (for union the first counter-clockwise one is the result), and every piece that ends up in no resulting polygon is reported as unused. With an open outline, or with disjoint bounding boxes, no polygon results; subtraction also yields none when the second outline lies wholly within the first without touching it.",
 ["inputs"], "every pair of outlines: any number of vertices, any crossings, shared or overlapping edges, open or closed",
 "tests run a dozen pairs of small polygons; which piece is cancelled, kept or reported matters only for particular overlaps of edges, and the unused pieces (on which hole detection rests) are hardly asserted",
 [EL+"polyline.rs"],
 [("cancelling opposite pieces", EL+"polyline.rs intersection, subtraction"), ("filter by midpoint", EL+"polyline.rs"), ("turn-angle walk", EL+"polyline.rs")],
 ["resulting polygons", "set of unused pieces"])

prop("C35", "No operation borrows shared state it is still holding",
 "The triangulation and the edge-chaining tables are shared through run-time checked cells. On no path does an operation, directly or through what it calls, take such a cell for writing while it still holds it, or take it at all while it holds it for writing: no input makes the program panic on a second borrow.",
 ["inputs", "histories"], "every path of every operation that borrows shared state",
 "a second borrow panics only on the path that reaches it; tests run few of them",
 [PL+"triangulator.rs", EL+"edge.rs", JS+"models/output.rs", "src/main.rs"],
 [("borrow()/borrow_mut() of the triangulation and of the chaining sets", PL+"triangulator.rs, "+EL+"edge.rs")], ["normal termination"])

prop("C40", "The unconstrained triangulation is Delaunay",
 "Without constraints, after triangulating, no vertex lies strictly inside the circumcircle of any solid triangle.",
 ["inputs"], "every vertex set", "sampled on small sets", [TP+"vertices.rs"], [("Bowyer-Watson step", TP+"vertices.rs")], ["triangulation"])
prop("C41", "Refined meshes meet the requested quality and size",
 "After refinement no solid triangle is worse than the requested ratio or larger than the requested area, except next to small input angles.",
 ["inputs"], "every domain and parameter set", "sampled on squares", [RP+"triangle_split.rs"], [("Ruppert refinement", RP+"triangle_split.rs")], ["triangulation"])
prop("C42", "Insertion and refinement terminate",
 "Triangulating and refining terminate for every valid domain and every ratio bound above the theoretical limit.",
 ["inputs"], "every domain and parameter set", "tests that terminate say nothing about others", [RP+"triangle_split.rs", TP+"vertices.rs"], [("Ruppert's packing argument", RP+"triangle_split.rs")], ["process termination"])
prop("C43", "Polygon union, intersection and subtraction compute the set operation",
 "The union, intersection and subtraction of two closed outlines describe exactly the corresponding set operation on the regions they enclose.",
 ["inputs"], "every pair of simple polygons", "about twenty sampled pairs", [EL+"polyline.rs"], [("split, filter by midpoint, walk by turn angle", EL+"polyline.rs")], ["returned outlines"])
prop("C44", "The mesh covers the domain exactly",
 "The solid triangles of a finished triangulation tile the boundary interior minus the holes without gaps or overlaps.",
 ["inputs"], "every domain", "areas are not summed in tests", [PL+"triangulator.rs"], [("boundary and hole inclusion", TP+"*.rs")], ["triangulation"])
prop("C45", "Predicates are robust to rounding",
 "The signs reported by the predicates are those of exact arithmetic for all representable inputs outside the stated tolerance.",
 ["inputs"], "every f64 tuple", "tests use small integers", [PR+"orientation.rs", PR+"continence.rs"], [("none: plain f64 determinants", PR+"*.rs")], ["predicate results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

NOASSERT = "The repository's tests contain no assertion: they run a few fixed wheels, poses and meshes and only notice a crash, an exception or a hang. "

# ------------------------------------------------------------------ contact
p("C01", "Flat ground, geometric method: ribs get the closed-form disk/plane contact",
  "For every valid shell, every right-handed orthonormal pose and every flat ground, contact evaluation with the \"geometric\" method reports a rib as touching exactly when the ground plane cuts the rib's disk in a chord of positive length. A touching rib reports the chord midpoint as contact point, rib radius minus centre-to-midpoint distance as depth, chord length times rib width as area, circular-segment area times rib width as volume, the ground's friction, and as normal the ground's upward unit normal.",
  ["inputs"], "all shell shapes, rib counts, poses (any yaw/camber/spin, any position) and flat grounds (any slope, friction)",
  NOASSERT + "The formulas must hold for every pose and slope.",
  ["src/rib.cc", "src/shell.cc", "toolbox/src/intersection.cc", "toolbox/src/plane.cc"],
  [("rib/flat geometric enveloping", "src/rib.cc"), ("plane/disk intersection", "toolbox/src/intersection.cc")],
  ["shell::setup(flat)", "shell::contactPoint/Normal/Friction/Depth/Area/Volume(i, ...)"])
p("C02", "Flat ground, sampling method: four vertical probes decide each rib's contact",
  "For every valid shell, every pose whose z axis points up and every flat ground, the \"sampling\" method probes the ground along the world vertical through four points of the rib (plus/minus 10 % of its radius along the pose's x axis and plus/minus 30 % of its width along the pose's y axis, from the rib centre). The contact point is the mean of the four ground points, the normal the upward unit normal of the surface through them, the friction the mean friction, the depth the rib radius times the cosine of the normal's inclination out of the rib plane minus the centre-to-point distance, and area and volume are those of a circular segment of that depth times the rib width; the rib touches exactly when the depth is positive.",
  ["inputs"], "all shell shapes, rib counts, poses and flat grounds",
  NOASSERT + "Only the generated search reaches arbitrary slopes, cambers and yaw angles.",
  ["src/rib.cc", "src/shell.cc", "toolbox/src/intersection.cc"],
  [("rib/flat sampling enveloping", "src/rib.cc")],
  ["shell::setup(flat, sampling)", "per-rib contact getters"])
p("C03", "Mesh, geometric method: contact follows from the mesh's trace on the rib disk",
  "For every triangle mesh and pose, the \"geometric\" method takes, for each rib, all pieces of the mesh lying in the rib's disk: area is rib width times total piece length, volume is rib width times the area between the pieces and the rib's circumference (summed over the angular sectors of the pieces), and friction is the volume-weighted mean of the pieces' triangle frictions. The contact point is the volume-weighted mean of the pieces' points on their angle bisectors, the normal the normalised volume-weighted mean of the directions from those points to the rib centre tilted by each triangle's slope across the rib, and the depth is radius minus centre-to-point distance; a rib with no piece of the mesh in its disk does not touch.",
  ["inputs"], "all meshes (any triangle sizes, slopes, orientations, frictions, holes, order), shells and poses with an upright axle above the local ground",
  NOASSERT + "The result depends on candidate search, refinement, triangle/disk clipping and weighting for every triangle set.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc", "toolbox/src/intersection.cc", "toolbox/src/AABBtree.cc", "toolbox/src/aabb.cc", "toolbox/src/triangle.cc"],
  [("candidate search and per-rib refinement", "src/shell.cc"), ("rib/triangles geometric enveloping", "src/rib.cc"), ("triangle/disk clipping", "toolbox/src/intersection.cc")],
  ["shell::setup(mesh, geometric)", "per-rib contact getters"])
p("C04", "Mesh, sampling method: each probe takes the highest ground under the wheel",
  "For every triangle mesh and every pose whose z axis points up, the \"sampling\" method takes, on each of a rib's four vertical probes, the highest mesh point within the wheel's neighbourhood and that triangle's friction; point, normal, friction, depth, area and volume follow from the four samples exactly as on flat ground. If any probe finds no ground, or the depth is not positive, the rib does not touch.",
  ["inputs"], "all meshes (overlapping layers, holes, borders, any order), shells and poses",
  NOASSERT + "Overlapping layers, mesh borders and triangle order are quantified over, none of which the fixed runs check.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc", "toolbox/src/intersection.cc"],
  [("vertical probe selection of the highest hit", "src/rib.cc"), ("line/triangle intersection", "toolbox/src/intersection.cc")],
  ["shell::setup(mesh, sampling)", "per-rib contact getters"])
p("C05", "Contact does not depend on how the same ground is tessellated, ordered or padded",
  "Permuting the triangles of a mesh, permuting the vertices inside a triangle, or adding triangles the wheel cannot reach leaves every contact output unchanged (up to rounding). Replacing a triangle by smaller ones that cover exactly the same surface leaves touching state, area, volume and friction unchanged for the geometric method and, within the wheel's neighbourhood, every output for the sampling method; a mesh that tessellates a plane gives the same touching state, area, volume and friction as the equivalent flat ground (sampling: all outputs). The side of a vertical face follows its vertex order.",
  ["inputs", "configurations"], "all meshes, tessellations, orders, paddings, shells, poses, both methods",
  NOASSERT + "It is a relation between two runs, for every tessellation and order.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc", "toolbox/src/AABBtree.cc", "toolbox/src/intersection.cc"],
  [("accumulation over pieces", "src/rib.cc"), ("box-tree candidate search", "src/mesh.cc"), ("per-rib refinement", "src/shell.cc")],
  ["shell::setup", "per-rib contact getters"])
p("C06", "setup() is true exactly when some rib touches; free ribs report neutral contact",
  "For every shell, ground, pose and method, the value returned by contact evaluation is true if and only if at least one rib touches the ground. A rib that does not touch reports zero depth, area, volume and friction, the pose's z axis as normal, and as point the rib centre lowered by the rib radius along the pose's z axis; an unknown method name is rejected with an error whenever there is ground in reach.",
  ["inputs"], "all shells, grounds (flat, mesh, mesh that is missed entirely or partly), poses, both methods",
  NOASSERT + "Which ribs touch varies with the pose; the returned flag is printed, never compared.",
  ["src/shell.cc", "src/rib.cc"],
  [("flag accumulation over ribs", "src/shell.cc"), ("no-contact output", "src/rib.cc")],
  ["return value of shell::setup", "per-rib contact getters"])
p("C07", "Contact outputs are always well formed",
  "After any contact evaluation, on any ground and pose, every output of every rib and of the shell is finite, normals are unit vectors, 0 <= depth <= radius and area >= 0 and 0 <= volume for each rib, and a rib's friction is zero when free and otherwise within the range of frictions of the ground. A touching rib's contact point lies within the rib's radius of its centre and has positive volume or area.",
  ["inputs"], "all shells, grounds including degenerate slivers, vertical walls, steps, tiny and huge triangles, poses, both methods",
  NOASSERT + "A NaN in one unusual configuration is invisible to a test that only checks completion.",
  ["src/rib.cc", "src/shell.cc", "toolbox/src/intersection.cc"],
  [("guards on weights, clamps on radii", "src/rib.cc"), ("aggregation fallbacks", "src/shell.cc")],
  ["all contact getters"])
p("C08", "Shell-level results aggregate the ribs by contact volume",
  "Shell contact area and volume are the sums over ribs; shell contact point, friction and depth are the volume-weighted means over ribs and the shell normal is the normalised volume-weighted mean; when no rib has contact volume, point, normal and friction are plain means over the ribs and the depth is zero. The vector form of every getter returns exactly one entry per rib equal to the indexed form.",
  ["inputs"], "all shells, rib counts, grounds, poses, methods",
  NOASSERT + "Aggregates are printed but never compared with the rib values.",
  ["src/shell.cc"],
  [("volume-weighted aggregation", "src/shell.cc")],
  ["shell::contactPoint/Normal/Friction/Depth/Area/Volume in all three forms"])
p("C09", "Contact frames are orthonormal and relative angles reproduce the wheel attitude",
  "Every contact frame (per rib and for the shell) is a right-handed orthonormal frame with the contact normal as z axis, the contact point as origin and x perpendicular to the wheel axle and the normal. The relative angles are ZXY angles that rebuild the wheel's orientation relative to that contact frame; for a single rib the rib's own inclination is subtracted from the angle component the library subtracts it from, and the shell-level value is not offset.",
  ["inputs"], "all shells, grounds, poses, methods for which the normal is not parallel to the axle",
  NOASSERT + "Orthonormality and angle reconstruction must hold for every attitude.",
  ["src/shell.cc"],
  [("contactPointAffine and relativeAngles", "src/shell.cc")],
  ["shell::contactPointAffine", "shell::relativeAngles"])
p("C10", "Contact is equivariant: moving wheel and ground together moves the result along",
  "Moving the ground and the wheel by the same translation and rotation about the vertical moves every contact point and normal by that motion and leaves touching state, friction, depth, area, volume and relative angles unchanged, for both methods and both kinds of ground. For the geometric method this also holds for any common rotation that keeps the ground facing up, and spinning the wheel about its own axle changes neither touching state, contact point, normal, friction, depth, area nor volume of a rib.",
  ["inputs"], "all shells, grounds, poses, rigid motions, spin angles",
  NOASSERT + "It relates two runs for every rigid motion; spin angles near the wrap-around are never run.",
  ["src/rib.cc", "src/shell.cc", "toolbox/src/intersection.cc"],
  [("frame changes between wheel and ground", "src/rib.cc")],
  ["shell::setup", "contact getters"])
p("C11", "Each evaluation depends only on its own arguments, not on earlier calls",
  "After any history of evaluations, resizes, pose changes, queries and prints on one shell, evaluating a ground, pose and method gives exactly the results a freshly built shell of the same shape and rib count gives. Evaluations and queries change neither the ground nor other shells, and repeating a query returns the same value.",
  ["histories"], "all sequences of setup (flat/mesh, both methods), resize, transform, translate, rotate, box update, getters, print, interleaved over two shells and shared grounds",
  NOASSERT + "Only a handful of fixed call orders are ever run.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc"],
  [("candidate lists and outputs reset per evaluation", "src/shell.cc")],
  ["shell::setup then all getters"],
  [("stored outputs", "last contact results per rib", "src/shell.cc"), ("candidate lists", "triangles kept per rib", "src/shell.cc")])
# ------------------------------------------------------------------ shell
p("S01", "The tyre profile is the documented hyperellipse, inside its width only",
  "For every shape and every coordinate with |y| <= Ly, the surface radius equals Rx*(1-(|y|/Ry)^My)^(1/Mx), the surface derivative is its derivative with respect to y and the surface angle is the arctangent of that derivative; the radius is even in y and the derivative odd. Beyond the half width every one of the three is rejected with an error and the width check answers false.",
  ["inputs"], "all shapes with Ly < Ry and exponents >= 1, all coordinates in and out of range",
  NOASSERT + "Three fixed tyre shapes are built; the profile values are never compared.",
  ["src/shape.cc", "src/shell.cc"],
  [("hyperellipse evaluation", "src/shape.cc")],
  ["shape and shell surfaceRadius/surfaceDerivative/surfaceAngle/checkWidthBound"])
p("S02", "Ribs tile the tyre width: equal strips, each with the profile's radius and angle",
  "For every shell and every rib count n >= 1, given at construction or by resizing, rib i is centred at y = -Ly + (2i+1)*Ly/n on the axle, is 2*Ly/n wide, and its radius and inclination are the profile's at that coordinate. Resizing yields the same shell as constructing with that count, a count of zero is rejected, and results can be read for every rib index below the count.",
  ["inputs", "histories"], "all shapes, all rib counts (1 to several hundred), all resize sequences",
  NOASSERT + "Tests use 10 and 20 ribs.",
  ["src/shell.cc", "src/rib.cc", "src/shape.cc"],
  [("rib layout loop", "src/shell.cc")],
  ["shell::size, ribCenter, ribRadius, ribWidth, ribAngle"])
p("S03", "Shell pose operations follow the affine-frame algebra",
  "Setting a pose makes it the shell's transformation exactly; translating composes a translation and rotating composes a rotation about the given axis on the shell-frame side, and x, y, z, translation, linear and rotation always read back that same transformation. The ZXY Euler angles rebuild the rotation, and a transformation is accepted as valid exactly when its 4x4 determinant is one within tolerance.",
  ["inputs", "histories"], "all poses and all sequences of transform/translate/rotate, including poses set through contact evaluation",
  NOASSERT + "No test reads a pose back.",
  ["src/shell.cc"],
  [("affine member and accessors", "src/shell.cc")],
  ["shell::transformation, translation, rotation, linear, x, y, z, eulerAngles, checkTransformation"])
p("S04", "The shell's bounding box encloses the whole tyre in every pose",
  "After construction, after every contact evaluation and after an explicit box update, the shell's axis-aligned box contains every point of every rib disk at the current pose, whatever the camber, yaw and rib width. Consequently a triangle that a rib disk crosses is never left out of the contact evaluation.",
  ["inputs"], "all shapes (narrow, wide, barrel), rib counts, poses",
  NOASSERT + "No test inspects the box, and the fixed poses never put a shoulder of the tyre outside it.",
  ["src/shell.cc", "src/mesh.cc"],
  [("box update", "src/shell.cc")],
  ["shell::bbox", "shell::setup(mesh)"])
p("S05", "Ribs and shapes evaluated, copied or compared on their own agree with the shell",
  "A rib built with a shell rib's radius, coordinate, width and angle answers, for every ground, pose and method, what the shell answers for that rib, and so does a copy of it however made; without ground or candidate triangles it reports neutral contact, and an unknown method is rejected. Shapes and ribs read back their parameters, a copy equals its source and is independent of it, and comparison is true for equal objects and false when one parameter differs by more than the tolerance.",
  ["inputs"], "all shapes, ribs, grounds, poses, methods, parameter differences",
  NOASSERT + "Ribs are never evaluated, copied or compared outside a shell.",
  ["src/rib.cc", "src/shape.cc", "src/shell.cc"],
  [("rib enveloping entry points, copies, comparison", "src/rib.cc")],
  ["rib::envelop, rib::copy, rib::isApprox, shape::copy, shape::isApprox, accessors"])
p("P01", "Printed reports state the objects' current values",
  "For every shell after any evaluation, and every mesh, ground triangle and flat ground, the printed report names every quantity with the value the accessors return (to the printed digits): shape parameters, rib layout, pose and Euler angles, contact point, normal, friction, depth, area, volume, frames and relative angles for the shell and each rib, and vertices, normal, friction, identifier and box of triangles.",
  ["inputs"], "all shells, grounds, poses and methods",
  NOASSERT + "Reports are the tests' only output and nobody compares them with the objects.",
  ["src/shell.cc", "src/shape.cc", "src/mesh.cc", "src/triangleground.cc", "src/flat.cc"],
  [("report writers", "src/shell.cc")],
  ["shell::print, shape::print, mesh::print, triangleground::print, flat::print"])
p("P02", "Printed geometric objects and box trees state their current values",
  "For every point, vector, line, ray, plane, segment, bounding box, triangle, disk, ball and transformation, written to a stream in any formatting state, the text names each quantity of the object (origin, direction, normal, vertices, radius, centre, minimum, maximum, entries) followed by its current value to seven significant digits, in order, and holds no other number; an object never given a value prints NaN. A printed box tree shows the smallest box around all boxes first and each box it was built on; an empty one says so.",
  ["inputs"], "all entities, values of any magnitude, stream states and lists of boxes",
  "Printing is what the tests and users read to judge results, but nothing compares the text with the objects.",
  ["toolbox/src/utilities.cc", "toolbox/src/AABBtree.cc"],
  [("stream operators", "toolbox/src/utilities.cc"), ("tree report", "toolbox/src/AABBtree.cc")],
  ["operator<< of acme types, AABBtree::print"])
p("R01", "Valid use never corrupts memory, leaks, or relies on uninitialised values",
  "For every valid sequence of calls of the library's public interface (contact evaluation, poses, ribs, grounds, files, entities, collections, box trees, reports), including calls that are refused with an error, no memory outside a live object is read or written, no undefined arithmetic takes place, all memory obtained during the calls is released when the objects involved are destroyed, and no answer depends on a value that was never set.",
  ["inputs", "histories"], "all inputs and call sequences of the properties C, S, P, G, F and K, valid and refused",
  "The tests run each example once in a plain build, where a leak, a stale reference or an uninitialised member goes unnoticed; a simulation calls the library thousands of times per second.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc", "src/triangleground.cc", "src/shape.cc", "toolbox/src/intersection.cc", "toolbox/src/collection.cc", "toolbox/src/AABBtree.cc"],
  [("ownership of ribs, triangles and trees", "src/shell.cc"), ("entities created by generic queries", "toolbox/src/intersection.cc")],
  ["every public member of enve and acme"])
# ------------------------------------------------------------------ ground
p("G01", "A mesh box query returns exactly the triangles whose boxes meet the query box",
  "For every mesh, however built, and every query box, the query returns each triangle whose axis-aligned bounding box meets the query box exactly once, and no other; it returns true exactly when that set is not empty, and the previous content of the result list is discarded. This holds for any triangle identifiers, orders, duplicates, sizes and clusters.",
  ["inputs"], "all triangle lists (1 to thousands, duplicated, flat, clustered, arbitrary ids) and all boxes",
  NOASSERT + "The tree shape depends on the data; no test compares a query with exhaustive search.",
  ["src/mesh.cc", "toolbox/src/AABBtree.cc", "toolbox/src/aabb.cc", "toolbox/src/acme/AABBtree.hxx"],
  [("box tree build and traversal", "toolbox/src/AABBtree.cc"), ("mapping boxes to triangles", "src/mesh.cc")],
  ["mesh::intersection"])
p("G02", "Mesh copy, clear and reload always leave a consistent, independent mesh",
  "After any sequence of building from triangles, loading, copying from another mesh, clearing and rebuilding the tree, size, element access, box queries and contact evaluation all describe the same current set of triangles. A copy keeps working and is unaffected when its source is cleared or changed, a cleared or never-filled mesh answers every query with no triangle, and loading a file replaces the previous content; a failed load leaves the mesh as it was.",
  ["histories"], "all sequences of construct, load, copy, clear, build, query over several mesh objects",
  NOASSERT + "No test copies, clears or reloads a mesh.",
  ["src/mesh.cc", "toolbox/src/AABBtree.cc"],
  [("triangle list, boxes and tree kept in step", "src/mesh.cc")],
  ["mesh::size, operator[], ptrTriangleground, vecptrTriangleground, intersection, shell::setup"],
  [("triangles", "triangle list", "src/mesh.cc"), ("tree", "box tree over the triangles", "src/mesh.cc")])
p("G03", "Ground triangles carry an upward unit normal, a tight box and a valid friction",
  "Every ground triangle keeps its three vertices in order, its identifier and its friction as given by any constructor; its normal is the unit normal of the face with non-negative z component (a vertical face keeps the side its vertex order gives it), and its box is the smallest one containing the vertices and carries the identifier. A negative friction is rejected, and a copied triangle agrees with its source in geometry, friction, normal and box. Normal and box follow the vertices when the triangle is translated, rotated or transformed, alone, as an entity or as a member of a collection.",
  ["inputs"], "all non-degenerate triangles (any vertex order, slope, vertical faces), ids, frictions, constructors",
  NOASSERT + "Normals and boxes are never compared.",
  ["src/triangleground.cc", "toolbox/src/triangle.cc", "toolbox/src/aabb.cc"],
  [("normal and box update at construction", "src/triangleground.cc")],
  ["triangleground constructors and accessors"])
p("G04", "Flat grounds are valid upward planes with a unit normal",
  "Every flat ground built by any constructor has the given origin and friction and the given normal scaled to unit length; a negative friction or a normal that does not point upward is rejected with an error. Copies agree with their source, and the comparison of two flat grounds is true for equal and false for clearly different origin, normal or friction.",
  ["inputs"], "all origins, normals (any length and direction), frictions, constructors",
  NOASSERT + "Tests build horizontal unit planes only.",
  ["src/flat.cc", "toolbox/src/plane.cc"],
  [("constructor checks and normalisation", "src/flat.cc")],
  ["flat constructors, copy, isApprox, layingPlane"])
# ------------------------------------------------------------------ files
p("F01", "Loading an RDF file yields exactly the described ground",
  "For every well-formed RDF text (either section spelling, comment and blank lines, extra spaces, CRLF or LF line ends, node and element sections), loading produces one triangle per element, in file order and numbered from zero, with the vertices of the referenced nodes (nodes are referenced by position, counted from zero) transformed by the given pose and the element's friction. The loaded mesh is immediately usable for queries and contact evaluation, and holds nothing of what it held before.",
  ["inputs", "programs"], "all well-formed RDF texts and all poses",
  NOASSERT + "The repository holds one small RDF file; the loaded triangles are never compared with it.",
  ["src/mesh.cc"],
  [("line parser for nodes and elements", "src/mesh.cc")],
  ["mesh(path), mesh(path, pose), mesh::load, then mesh accessors"])
p("F02", "Loading an OBJ file yields exactly the described ground",
  "For every well-formed Wavefront OBJ text with triangular faces (comments, blank and unrelated lines such as vn, vt, o, g, s, usemtl; plain, v/vt, v//vn or v/vt/vn corners; extra spaces; CRLF or LF), loading produces one triangle per face, in file order and numbered from zero, with the 1-based referenced vertices transformed by the given pose and the friction passed by the caller; nothing the mesh held before remains.",
  ["inputs", "programs"], "all well-formed triangular OBJ texts, frictions and poses",
  NOASSERT + "Only a few OBJ files are loaded, without comparing any vertex.",
  ["src/mesh.cc"],
  [("line parser for v and f records", "src/mesh.cc")],
  ["mesh(path, friction), mesh(path, friction, pose), mesh::load, then mesh accessors"])
p("F03", "Malformed mesh files and paths are rejected cleanly",
  "Whatever bytes a mesh file contains and whatever the path, loading either succeeds with a mesh whose triangles only use vertices of the file, or fails with a C++ exception derived from std::exception; it never crashes, reads outside its data, or hangs. Files with an element referencing a node that does not exist, a negative friction, a wrong number of fields or no element at all, and paths that are missing, unreadable or have another extension, are rejected. A refused load leaves the mesh as it was.",
  ["inputs", "fault_sequences"], "all byte strings as file content, all path strings, both formats",
  NOASSERT + "No malformed file is ever loaded.",
  ["src/mesh.cc"],
  [("field, index and friction checks of the loaders", "src/mesh.cc")],
  ["mesh::load under address and undefined-behaviour sanitizers"])
# ------------------------------------------------------------------ s-function
p("I01", "The Simulink interface reports exactly what the library computes",
  "For every initialisation (mesh file named by the environment, wheel and back-up plane parameters) and every sequence of steps, the outputs equal what a shell evaluated directly gives for the same hub matrix: with the mesh selected, the mesh result when some rib touches it and otherwise the back-up plane's result with the in-mesh flag cleared; with the plane selected, the plane's result with the flag set. Rib slots beyond the rib count are NaN, and an unknown method or ground selector, a missing environment variable or an unsupported file type is rejected with an error.",
  ["inputs", "histories"], "all parameter sets, hub matrices, step sequences, both methods, both ground selectors",
  NOASSERT + "One fixed manoeuvre is stepped through and nothing is compared.",
  ["sfun/src_sfun/enve_sfun_interface.cc", "sfun/include_sfun/enve_sfun_types.h", "src/shell.cc"],
  [("init/out entry points", "sfun/src_sfun/enve_sfun_interface.cc")],
  ["enve_sfun_init, enve_sfun_out, output bus"])
# ------------------------------------------------------------------ kernel
p("K01", "Lines, rays, segments meet planes, triangles, disks exactly where they cross",
  "For every line, ray or segment crossing the plane of a plane, triangle or disk transversally, the point intersection query answers true exactly when the crossing point belongs to both objects (away from the tolerance band at their borders) and then returns that point. A line, ray or segment parallel to the plane yields no point.",
  ["inputs"], "all transversal and parallel configurations of the nine pairs",
  "The repository has no test of the geometry kernel; contact code reaches only some pairs.",
  ["toolbox/src/intersection.cc", "toolbox/src/disk.cc", "toolbox/src/triangle.cc", "toolbox/src/plane.cc"],
  [("point intersections", "toolbox/src/intersection.cc")],
  ["Intersection(line|ray|segment, plane|triangle|disk, point)"])
p("K02", "Planes, triangles, disks, balls intersect in the right line, chord or disk",
  "For every clearly transversal pair, with sizes, lengths and non-unit directions between about 1 cm and 100 m, plane/plane gives a line contained in both planes, plane/triangle, plane/disk and triangle/disk give exactly the segment common to both (and nothing when there is none), and plane/ball gives the section disk; line, ray and segment against a ball give exactly the part inside the ball, and three independent planes give their common point.",
  ["inputs"], "all transversal configurations, any scale of the objects within 1 mm to 100 m and any (non-unit) normals and directions",
  "The repository has no test of the geometry kernel; the traces on which every contact rests are never compared.",
  ["toolbox/src/intersection.cc", "toolbox/src/plane.cc", "toolbox/src/disk.cc"],
  [("segment intersections", "toolbox/src/intersection.cc")],
  ["Intersection(...) returning line, segment, disk, point"])
p("K03", "Generic entity queries agree with the typed ones, in either argument order",
  "For every pair of points, lines, rays, segments, planes, triangles, disks and balls whose section is defined, the query on generic entities returns the object the query on their own types gives for their mutual position (collinear, coplanar or neither), in either argument order, and an entity that is none when they do not meet, skew lines included. Relations agree with the typed ones likewise, the pairwise intersection of a collection lists those results for all pairs in order, and no result depends on earlier calls. Pairs without a defined section give no entity: none, or an error.",
  ["inputs"], "all supported type pairs and configurations",
  "The repository has no test of the geometry kernel.",
  ["toolbox/src/intersection.cc", "toolbox/src/parallel.cc", "toolbox/src/orthogonal.cc", "toolbox/src/collinear.cc", "toolbox/src/coplanar.cc"],
  [("dispatch on entity types", "toolbox/src/intersection.cc")],
  ["Intersection(entity*, entity*), IsParallel/IsOrthogonal/IsCollinear/IsCoplanar(entity*, entity*)"])
p("K04", "Parallel, orthogonal, collinear and coplanar mean what they say",
  "For every pair of vectors, lines, rays, segments, planes, triangles and disks, the relation queries answer according to the geometric definition whenever the configuration is exact or clearly off, whatever the positions, orientations and (within about 1 cm to 100 m) lengths, and symmetrically for objects of the same type.",
  ["inputs"], "all pairs of entity types, exact and clearly violated configurations, any scale",
  "The repository has no test of these predicates.",
  ["toolbox/src/parallel.cc", "toolbox/src/orthogonal.cc", "toolbox/src/collinear.cc", "toolbox/src/coplanar.cc"],
  [("predicates", "toolbox/src/parallel.cc")],
  ["IsParallel, IsOrthogonal, IsCollinear, IsCoplanar"])
p("K08", "Collinear and coplanar entities intersect in exactly their common part",
  "Collinear lines, rays and segments intersect in exactly their common line, ray or segment and in nothing when they are apart; coplanar, clearly non-parallel lines, rays and segments intersect in their crossing point exactly when it belongs to both. A line, ray or segment lying in the plane of a plane, triangle or disk yields exactly the part inside it, coplanar planes, triangles and disks yield the contained object, and a point intersects an object exactly when it belongs to it; objects of clearly different lines or planes yield nothing.",
  ["inputs"], "all collinear, coplanar and point configurations, sizes and non-unit directions from about 1 cm to 100 m",
  "The repository has no test of the geometry kernel; degenerate positions never occur in the fixed runs.",
  ["toolbox/src/intersection.cc", "toolbox/src/coplanar.cc", "toolbox/src/collinear.cc"],
  [("collinear and coplanar intersections", "toolbox/src/intersection.cc")],
  ["Intersection(...) typed queries for collinear, coplanar and point pairs"])
p("K09", "A query's tolerance is the tolerance it applies",
  "Every kernel query with an optional tolerance argument (parallel, orthogonal, coplanar, collinear; containment of a point; equality of entities and boxes; degeneration of entities and its counting and removal in collections; crossings and coincidences of curves and surfaces; by type or through entity pointers) accepts a deviation clearly below the tolerance it is given and refuses one clearly above it: angles in radians, distances for entities of unit size. Called without it, the query applies the documented default of about 1.5e-8.",
  ["inputs"], "tolerances from 1e-7 to 1e-2 and the default; deviations from a thousandth to a thousand times the tolerance; entities of about unit size near the origin",
  "No test ever passes a tolerance, and no fixed scene lies near one.",
  ["toolbox/src/parallel.cc", "toolbox/src/orthogonal.cc", "toolbox/src/collinear.cc", "toolbox/src/coplanar.cc", "toolbox/src/intersection.cc", "toolbox/src/collection.cc", "toolbox/src/acme.hh"],
  [("tolerance handling", "toolbox/src/intersection.cc")],
  ["every query with a tolerance argument"])
p("K05", "Entity measures are correct and rigid motions preserve them",
  "Length, perimeter, area, volume, centroid, normal, barycentric coordinates, distances, bounding values and containment of points, segments, lines, rays, planes, triangles, disks and balls equal their geometric definitions. Translating, rotating or rigidly transforming an entity moves exactly its points: measures are unchanged, directions rotate, containment is carried along, and reversing or swapping twice restores the entity.",
  ["inputs"], "all entities, points and rigid motions",
  "The repository has no test of the geometry kernel.",
  ["toolbox/src/point.cc", "toolbox/src/segment.cc", "toolbox/src/line.cc", "toolbox/src/ray.cc", "toolbox/src/plane.cc", "toolbox/src/triangle.cc", "toolbox/src/disk.cc", "toolbox/src/ball.cc", "toolbox/src/entity.cc"],
  [("measures and transforms", "toolbox/src/triangle.cc")],
  ["entity member functions"])
p("K06", "Bounding boxes and box trees answer like exhaustive search",
  "For every set of boxes, merging gives the smallest common box, box overlap is symmetric and true exactly when the boxes share a point (touching counts), containment and distances equal their definitions, repairing swapped bounds orders them, and a cleared box meets and contains nothing. A tree built over the boxes returns, against any other tree, exactly all overlapping pairs, each once, with the first element from the first tree.",
  ["inputs"], "all lists of boxes including degenerate, equal, nested and clustered ones",
  "The tree is only exercised through mesh loading, never compared with exhaustive search.",
  ["toolbox/src/aabb.cc", "toolbox/src/AABBtree.cc", "toolbox/src/acme/AABBtree.hxx"],
  [("box arithmetic", "toolbox/src/aabb.cc"), ("tree build and pair search", "toolbox/src/AABBtree.cc")],
  ["aabb members, AABBtree::build, intersection, collision"])
p("K07", "Entity collections count, filter, move and query consistently",
  "For every collection, the counts per type sum to its size and agree with the per-element type tests and the contain/are queries; removing a type removes exactly the elements of that type and keeps the order of the others; rigid motions apply to every element. Box and collection queries return exactly the elements whose bounding boxes meet the query; a cleared collection answers with none, and a copy keeps answering for its own elements whatever is done to the other afterwards. An element without a bounding box is refused.",
  ["inputs", "histories"], "all collections of mixed entities and sequences of push, remove, move and query",
  "The repository has no test of collections.",
  ["toolbox/src/collection.cc"],
  [("type filters and box-tree queries", "toolbox/src/collection.cc")],
  ["collection members"])
p("C12", "Shells working in several threads on a shared ground do not disturb each other",
  "When several threads evaluate contact at the same time, each with a shell of its own, on grounds that none of them changes, every thread gets exactly the results it would get alone, and there is no data race. Reading a shared shell or ground, copying a shared ground and building further grounds at the same time is equally safe.",
  ["schedules", "inputs", "histories"], "all numbers of threads, interleavings, grounds, shells, poses and sequences of evaluations, moves, resizes and queries per thread",
  "No test of the repository uses a thread; a vehicle model evaluates its wheels on one road at once, and which accesses meet depends on the schedule.",
  ["src/shell.cc", "src/rib.cc", "src/mesh.cc", "src/flat.cc", "toolbox/src/AABBtree.cc", "toolbox/src/intersection.cc"],
  [("grounds are read only during contact evaluation", "src/shell.cc"), ("no hidden shared state in the box tree and the geometry kernel", "toolbox/src/AABBtree.cc")],
  ["shell::setup and every getter", "mesh::copy, flat::copy"])
p("T01", "The library copy shipped with the MATLAB toolbox keeps the same guarantees",
  "The MATLAB toolbox compiles a copy of the library of its own. Built from that copy, shells, ribs, grounds and mesh files satisfy the properties stated for the library: contact on flat and mesh grounds with both methods, aggregates and frames, independence of history, wheel profile, rib layout, pose algebra, bounding boxes, ground queries and updates, independence of tessellation and common motions, reports, and both file formats with the rejection of malformed files.",
  ["inputs", "histories"], "as for the properties C01-C11, S01-S05, P01, G01-G04 and F01-F03",
  "The repository never builds or runs the copy's shell, rib, ground and file code in a test.",
  ["toolbox/src/shell.cc", "toolbox/src/rib.cc", "toolbox/src/mesh.cc", "toolbox/src/flat.cc", "toolbox/src/shape.cc", "toolbox/src/triangleground.cc"],
  [("the copy of src/ kept for the toolbox", "toolbox/src")],
  ["the same functions as for the library"])
p("M01", "MATLAB gateways act on the right object and refuse malformed calls",
  "Every command of the shell, flat, mesh and triangle gateways acts on exactly the object behind its handle, with its arguments taken in the documented order, 1-based indices and column-major matrices, and returns what the library returns for the same call; objects stay independent of each other until deleted. An unknown command, a missing or surplus argument or output, a handle of another kind, an array that is not of the documented size or an error in the library ends the call with an error and changes nothing. The gateway module stays locked exactly while objects live.",
  ["inputs", "histories"], "all sequences of commands over several live objects of the four kinds, with all argument values, integer classes and malformed variants",
  "The toolbox tests need MATLAB and are never run here; they plot a few fixed scenes.",
  ["toolbox/src_mex/mex_shell.cc", "toolbox/src_mex/mex_flat.cc", "toolbox/src_mex/mex_mesh.cc", "toolbox/src_mex/mex_triangleground.cc", "toolbox/src_mex/mex_utils.hh"],
  [("command tables and argument checks", "toolbox/src_mex"), ("handles carrying a signature and a type", "toolbox/src_mex/mex_utils.hh")],
  ["mexFunction of the four gateways"],
  [("handle", "owner of one library object, alive until 'delete'", "toolbox/src_mex/mex_utils.hh")])
p("M02", "MATLAB classes give every method the meaning it has in the library",
  "Every method of the MATLAB classes for shells, flats, meshes and ground triangles works on the object it belongs to and means what the library call of its name means: getters and per-rib vectors give the values the library gives, in rib order; setters, poses, copies and setups change exactly that object; constructors take the documented file kinds and arguments and refuse others; copying or comparing with an object of another kind is an error. Pictures show the true scene: the surface, ribs, slices, contact frames and triangles are drawn where the library has them, in the wheel's own frame or at its current pose. Deleting an object frees it and no other.",
  ["inputs", "histories"], "all sequences of method calls over several live objects of the four classes, all wheels, poses, grounds and mesh files",
  "The toolbox tests need MATLAB and are never run here; they plot a few fixed scenes without comparing a value.",
  ["toolbox/lib/enve_shell.m", "toolbox/lib/enve_flat.m", "toolbox/lib/enve_mesh.m", "toolbox/lib/enve_triangleground.m", "toolbox/src_mex/mex_shell.cc", "toolbox/src_mex/mex_mesh.cc", "toolbox/src_mex/mex_flat.cc", "toolbox/src_mex/mex_triangleground.cc"],
  [("one wrapper object owns one handle", "toolbox/lib/enve_shell.m"), ("commands of the gateways", "toolbox/src_mex")],
  ["the methods of enve_shell, enve_flat, enve_mesh and enve_triangleground", "the arguments of surf, patch, plot and quiver3"],
  [("objectHandle", "the library object this MATLAB object owns", "toolbox/lib/enve_flat.m")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")

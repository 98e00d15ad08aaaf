#!/usr/bin/env python3
"""Source of known_findings.json: recorded findings, and the repaired defects with their commits in /repo."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FINDINGS = [
    dict(property="K08", key="skew_pairs_meet", what="the typed point intersections of line/ray/segment pairs answer true for pairs that pass each other in space (reproduction: line x axis against line parallel to y through (0,0,1); toolbox/src/intersection.cc, section 'Generic')"),
    dict(property="C05", key="edge_in_rib_plane_counts_twice", what="geometric method: a mesh edge lying exactly in a rib's plane is counted for both triangles sharing it, doubling area and volume (reproduction: one rib at y=0, mesh edge along y=0; src/rib.cc envelopGeometric)"),
]
PROPS = {
    "mex": "M01",  # start of the commit's subject -> properties it repairs
    "shell::resize allocates": "S02", "shell::setup on flat": "C06", "mesh box queries map": "G01", "shell bounding box encloses": "S04",
    "chord of a disk is found": "C03 K02", "geometric enveloping of a chord": "C03 C10", "geometric enveloping never": "C07", "a degenerate piece no longer": "C05 C03",
    "line through a triangle vertex": "C03 K02", "flat contact normal": "C07", "shell contact area": "C08", "vector forms of contact": "C08", "intersecting an empty AABB": "G01 K06",
    "flat ground comparison": "G04", "ground triangle copy": "G03", "mesh copy rebuilds": "G02", "mesh clear drops": "G02", "loading a mesh replaces": "G02",
    "mesh files may hold": "F01 F02", "mesh files naming": "F03", "line common to two planes": "K02", "part of a segment inside": "K02", "lines and rays contain": "K08 K05",
    "distance to a plane whose": "K05", "coplanarity of objects": "K08 K04", "removing entities from": "K07", "collection counts its": "K07", "distance to a box": "K06",
    "collection contains a degenerated": "K07", "removing degenerated": "K07", "collection tests whether": "K07", "rays are collinear": "K04", "perimeter and area": "K05",
    "angle between parallel": "K04", "a line is orthogonal": "K04", "coplanar triangle and plane": "K03", "plane and disk section": "K03", "skew lines, rays": "K03",
    "diverging collinear rays": "K03", "ground triangles keep normal": "G03", "rib volume keeps": "C07 C08", "a flat ground which barely": "C07 C08", "rib copy keeps": "S05", "refused entity inter": "R01", "collection copies do not": "K07",
    "enve_shell.surfaceWidthBound": "M02", "enve_flat.copy copies": "M02", "mex_triangleground sets": "M02 M01",
}
EXTRA = os.path.join(V, "tools", "fix_props.json")
if os.path.exists(EXTRA):
    PROPS.update(json.load(open(EXTRA)))
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ps = [PROPS[k] for k in sorted((k for k in PROPS if s.startswith(k)), key=len)[-1:]]  # the longest prefix
    assert len(ps) == 1, (s, ps)
    for p in ps[0].split():
        fixed.append("fixed: property=%s %s %s" % (p, h, s))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), "findings,", len(fixed), "fixed")

#!/usr/bin/env python3
"""Rewrites known_findings.json from the fix commits of /repo (run by hand after adding a fix)."""
import json, subprocess
PROP = {  # first words of the commit message -> property
"surfaces can be intersected": "C47", "curve_point treats": "C01", "basis function derivatives": "C02", "derivatives of rational curves": "C02", "second_derivative_fdm": "C02",
"vector lengths": "C43", "unitize also": "C43", "batch dot": "C43", "mag2": "C43", "dist is": "C43", "cross product of homogeneous vectors": "C43",
"vec4::add": "C43", "vec4::dot": "C43", "vec4 equality": "C43", "printed vectors": "C43", "moving a curve": "C07", "the bounding box of a curve": "C07",
"derivative surfaces can": "C12", "aabb() of a surface": "C14", "extracted isocurves": "C13", "splitting and inserting next": "C04",
"derivative surfaces of surfaces": "C12", "free extract_isocurve": "C13", "knot removal": "C15", "surface_deriv_cpts": "C15", "ccx rebuilds": "C16",
"ccx does not": "C16", "closestPointOnSegm ": "C29", "closest point to the origin": "C29", "closestPointOnTriangle returns": "C29",
"the spatial convex hull": "C25", "convex_hull of": "C24", "planar separating": "C26", "GJK finds": "C26", "sets that GJK": "C27", "closest point of a triangle": "C29",
"infinity()": "C21", "copies of a hierarchy": "C22", "setRight": "C22", "a k-d tree": "C23", "spherical separability": "C27", "the wedges": "C27",
"a 2x2": "C31", "whether a matrix": "C31", "a column of": "C31", "binomial": "C32", "an assigned": "C33", "a patch converted": "C33",
"the derivative of a patch": "C34", "monomial results": "C33", "minimize_scalar": "C36", "the line search": "C37", "GJK does not": "C26",
"plane equations": "C30", "the origin of a plane": "C30", "a plane given": "C30", "planes that are": "C30", "intersections with a plane": "C30",
"isPtsCoplanar": "C30", "the signed distance": "C30", "the axes of": "C30", "size() of": "C39", "slices with": "C39", "reshaping": "C39",
"a copy of an array": "C39", "printing an array": "C39", "serialising a view": "C40", "array views are not": "C40", "a serialised curve": "C38",
"writing curves": "C38", "polyline end": "C41", "the parentheses": "C42", "the control points of a rational": "C42", "the edges of a face": "C42",
"scaling a plane": "C43", "the cross product of homogeneous points": "C43", "collinear vectors": "C43", "the distance of segments": "C44",
"the partial derivatives": "C12", "the second part": "C17", "a curve-surface": "C17", "curve-surface": "C17", "hashed vectors": "C46",
"boundary intersections": "C18", "a flat surface": "C19", "the inversion of a point on a curve": "C20", "the inversion of a point on a surface": "C20",
"a small pivot": "C31", "an open curve whose": "C08", "a step in": "C19", "a joined curve": "C45",
"small planar point sets": "C24", "the hull of points does not": "C25", "points on a line are": "C24", "matrices with small pivots": "C31", "curve intersections are not": "C16", "the normals of a polygon": "C28", "a part of a hierarchy": "C22",
}
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
try:
    from more_findings import PROP as P2
    PROP.update(P2)
except ImportError:
    pass
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split("|", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    fixed.append(f"fixed: property={p[0]} {h} the repaired behaviour: {s}")
f = "/verif/known_findings.json"
old = json.load(open(f)) if os.path.exists(f) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(f, "w"), indent=1)
print(len(fixed))

"""P02: membership tests (polygon, triangle, segment, bounding box) against exact arithmetic."""
import numpy as np

from building3d.geom.points import is_point_in_array, is_point_on_segment
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon
from building3d.geom.polygon.ispointinside import (
    is_point_inside,
    is_point_inside_margin,
    is_point_inside_ortho_projection,
    is_point_inside_projection,
)
from building3d.geom.triangles import is_point_inside as in_triangle
from building3d.geom.triangles import is_point_on_same_side

from vlib import gen, optional, ref
from vlib.polys import random_lp

bounding_box = optional.load("building3d.geom.bboxes:bounding_box")
is_point_inside_bbox = optional.load("building3d.geom.bboxes:is_point_inside_bbox")
is_point_at_boundary = optional.load("building3d.geom.polygon.ispointinside:is_point_at_boundary")

LEVEL = "exploration"
RULE = (
    "for every random polygon, query points on a lattice four times finer than its vertices (corners, edges, edge "
    "extensions, internal diagonals and their neighbourhood down to 1e-6, interior, exterior, off-plane); every answer "
    "is compared with exact integer classification. Distinct = different (polygon, query class, answer)."
)
ASSUMPTIONS = ["query points are exactly on the boundary or at least 1e-6 of the size away from it"]
PLAN = {"quick": (1600, 60), "thorough": (20000, 600)}
REQUIRE = {"q_in": 500, "q_on": 500, "q_out": 500, "q_offplane": 500, "q_diag": 200, "proj": 200, "tri": 200}


def case(ctx, i, rng):
    lp = random_lp(rng, start="convex", emb=gen.embedding(rng, far=rng.random() < 0.1))
    ctx.info(**lp.describe())
    P = Polygon(lp.pts.copy(), name="p")
    pts, tri = P.pts, P.tri
    keep = (pts.copy(), tri.copy())
    uv = lp.uv
    us = [p[0] for p in uv]
    vs = [p[1] for p in uv]
    emb = lp.emb
    size = float(max(pts.max(axis=0) - pts.min(axis=0)))
    frame = ref.plane_frame(lp.pts)
    poly2 = [ref.project2(frame, p)[0] for p in lp.pts]

    qs = []
    # boundary
    k = len(uv)
    for _ in range(5):
        a = int(rng.integers(k))
        b = (a + 1) % k
        f = int(rng.integers(0, 5))
        du, dv = uv[b][0] - uv[a][0], uv[b][1] - uv[a][1]
        if (f * du) % 4 == 0 and (f * dv) % 4 == 0:
            qs.append((uv[a][0] + f * du // 4, uv[a][1] + f * dv // 4))
        # extension of an edge beyond its end
        e = int(rng.integers(1, 5))
        if (e * du) % 4 == 0 and (e * dv) % 4 == 0:
            qs.append((uv[b][0] + e * du // 4, uv[b][1] + e * dv // 4))
    # box around
    for _ in range(14):
        qs.append((int(rng.integers(min(us) - 3, max(us) + 4)), int(rng.integers(min(vs) - 3, max(vs) + 4))))
    # aligned with vertices
    for _ in range(4):
        qs.append((uv[int(rng.integers(k))][0], uv[int(rng.integers(k))][1]))
    for q in qs:
        where = ref.locate(q, uv)
        pt = emb.pt(q)
        ctx.count("q_" + where)
        ctx.distinct(uv, q)
        monitor_point(ctx, P, pt, where, q)

    # just beyond the end of an edge, on its line
    for _ in range(4):
        a = int(rng.integers(k))
        b = (a + 1) % k
        if rng.random() < 0.5:
            a, b = b, a
        A, B = lp.pts[a], lp.pts[b]
        d = 10.0 ** float(rng.uniform(-3.5, -0.5))
        step = d * (B - A)
        if np.abs(step).max() < 1e-4 * (1 + np.abs(B).max()):
            continue
        pt = B + step
        inside, dist = ref.pip_float(ref.project2(frame, pt)[0], poly2)
        ctx.count("q_beyond")
        ctx.require(not is_point_on_segment(pt, A, B), "segment-beyond", "a point beyond the end of a segment is on it", a=A, b=B, by=d)
        ctx.require(not is_point_on_segment(pt, B, A), "segment-beyond", "a point beyond the end of a segment is on it", a=A, b=B, by=d)
        if dist > 1e-4 * max(size, float(np.linalg.norm(B - A))):
            monitor_point(ctx, P, pt, "in" if inside else "out", ("beyond", a, b, d))
        # next to the segment
        side = np.cross(rng.normal(size=3), B - A)
        side /= np.linalg.norm(side)
        off = 10.0 ** float(rng.uniform(-3, 0))
        pt = A + float(rng.uniform(0, 1)) * (B - A) + off * size * side
        if off * size > 3e-4 * (1 + np.abs(pt).max()):
            ctx.require(not is_point_on_segment(pt, A, B), "segment-beside", "a point beside a segment is on it", a=A, b=B, off=off)
    # internal diagonals and their neighbourhood
    for _ in range(6):
        t = tri[int(rng.integers(len(tri)))]
        j = int(rng.integers(3))
        a, b = pts[t[j]], pts[t[(j + 1) % 3]]
        s = float(rng.uniform(0.1, 0.9))
        side = np.cross(lp.n, b - a)
        side /= np.linalg.norm(side)
        off = float(rng.choice([0.0, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2])) * size * float(rng.choice([-1, 1]))
        pt = a + s * (b - a) + off * side
        inside, dist = ref.pip_float(ref.project2(frame, pt)[0], poly2)
        if dist < 0.9e-6 * size:
            continue
        if not inside and dist < 1e-4 * size:
            continue  # just outside the outline: within the collinearity tolerance of the library
        if inside and dist < 1e-4 * size:
            where = "in?"  # inside, boundary test may go either way
        else:
            where = "in" if inside else "out"
        ctx.count("q_diag")
        ctx.distinct(uv, "diag", j, off, where)
        monitor_point(ctx, P, pt, where, ("diagonal", s, off))

    # off the plane
    for _ in range(6):
        q = (int(rng.integers(min(us), max(us) + 1)), int(rng.integers(min(vs), max(vs) + 1)))
        h = float(rng.choice([1e-6, 1e-4, 1e-3, 0.01, 0.3, 2.0])) * float(rng.choice([-1, 1]))
        pt = emb.pt(q) + h * lp.n
        ctx.count("q_offplane")
        got = P.is_point_inside(pt)
        ctx.require(got is False or got == False, "off-plane", "a point off the plane is inside", q=q, h=h)  # noqa: E712
        ctx.require(
            not is_point_inside(pt, pts, tri, False), "off-plane", "a point off the plane is inside", q=q, h=h
        )
        if abs(h) > 3e-5 * (1 + np.abs(pt).max()):  # corners are compared with a relative tolerance of 1e-5
            ctx.require(not is_point_at_boundary(pt, pts), "off-plane-boundary", "a point off the plane is on the boundary", q=q, h=h)

    # projections and segments
    for _ in range(6):
        q = (int(rng.integers(min(us) - 3, max(us) + 4)), int(rng.integers(min(vs) - 3, max(vs) + 4)))
        where = ref.locate(q, uv)
        if where == "on":
            continue
        ctx.count("proj")
        target = emb.pt(q)
        while True:
            v = rng.normal(size=3)
            v /= np.linalg.norm(v)
            if abs(np.dot(v, lp.n)) > 0.15:
                break
        s = float(rng.uniform(0.05, 4.0))
        L = float(rng.uniform(0.3, 3.0))
        inside = where == "in"
        ctx.distinct(uv, "proj", q)
        got = is_point_inside_projection(target - s * v, v * L, pts, tri)
        ctx.require(bool(got) == inside, "projection-forward", "forward projection: wrong answer", q=q, v=v, s=s, expected=inside)
        got = is_point_inside_projection(target + s * v, v * L, pts, tri)
        ctx.require(not got, "projection-backward", "a surface behind the point was hit with a forward-only projection", q=q, v=v, s=s)
        got = is_point_inside_projection(target + s * v, v * L, pts, tri, fwd_only=False)
        ctx.require(bool(got) == inside, "projection-both", "two-way projection: wrong answer", q=q, v=v, s=s, expected=inside)
        h = float(rng.choice([-1, 1]) * rng.uniform(0.01, 3.0))
        got = is_point_inside_ortho_projection(target + h * lp.n, pts, tri)
        ctx.require(bool(got) == inside, "projection-ortho", "orthogonal projection: wrong answer", q=q, h=h, expected=inside)
        s2 = float(rng.uniform(0.05, 4.0))
        a, b = target - s * v, target + s2 * v
        if rng.random() < 0.3:  # segment ends before the plane
            b = target - 0.3 * s * v
            exp = False
        else:
            exp = inside
        got = is_line_segment_crossing_polygon(a, b, pts, tri)
        ctx.require(bool(got) == exp, "segment-crossing", "segment/polygon crossing: wrong answer", q=q, a=a, b=b, expected=exp)
        got = is_line_segment_crossing_polygon(b, a, pts, tri)
        ctx.require(bool(got) == exp, "segment-crossing", "segment/polygon crossing depends on direction", q=q, a=a, b=b, expected=exp)
        # margin
        pt = emb.pt(q)
        _, dist = ref.pip_float(ref.project2(frame, pt)[0], poly2)
        m = float(rng.uniform(0, 1.5)) * dist
        if abs(m - dist) > 1e-6:
            got = is_point_inside_margin(pt, m, pts, tri)
            ctx.require(bool(got) == (inside and m < dist), "margin", "inside-with-margin: wrong answer", q=q, margin=m, dist=dist)

    # triangles and segments of three lattice points
    for _ in range(6):
        ctx.count("tri")
        while True:
            t = [(int(x), int(y)) for x, y in rng.integers(-16, 17, (3, 2)) * 4]
            if ref.cross2(*t) != 0:
                break
        if rng.random() < 0.4:
            a, b = t[int(rng.integers(3))], t[int(rng.integers(3))]
            q = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        elif rng.random() < 0.3:
            # on the line of a side
            j = int(rng.integers(3))
            a, b = t[j], t[(j + 1) % 3]
            e = int(rng.integers(-6, 7))
            q = (a[0] + e * (b[0] - a[0]) // 4, a[1] + e * (b[1] - a[1]) // 4)
        else:
            q = tuple(int(x) for x in rng.integers(-70, 71, 2))
        where = ref.locate(q, t)
        T = [emb.pt(p) for p in t]
        got = in_triangle(emb.pt(q), *T)
        ctx.require(bool(got) == (where != "out"), "triangle", "point in triangle: wrong answer", tri=t, q=q, expected=where)
        ctx.distinct("tri", t, q)
        got = is_point_on_segment(emb.pt(q), T[0], T[1])
        ctx.require(
            bool(got) == ref.on_segment(q, t[0], t[1]), "segment", "point on segment: wrong answer", seg=t[:2], q=q
        )
        c = ref.cross2(t[0], t[1], q)
        if c != 0:
            got = is_point_on_same_side(T[0], T[1], emb.pt(q), T[2])
            ctx.require(
                bool(got) == (c * ref.cross2(*t) > 0), "same-side", "same side of a line: wrong answer", tri=t, q=q
            )
    # bounding box and array membership
    cloud = rng.integers(-8, 9, (int(rng.integers(1, 7)), 3)) / 4.0
    lo, hi = bounding_box(cloud)
    ctx.require(
        np.array_equal(lo, cloud.min(axis=0)) and np.array_equal(hi, cloud.max(axis=0)), "bbox", "wrong bounding box", pts=cloud
    )
    for _ in range(4):
        q = rng.integers(-9, 10, 3) / 4.0
        exp = bool((q >= lo).all() and (q <= hi).all())
        ctx.require(bool(is_point_inside_bbox(q, cloud)) == exp, "in-bbox", "point in bounding box: wrong answer", q=q, pts=cloud)
        exp = bool((cloud == q).all(axis=1).any())
        ctx.require(bool(is_point_in_array(q, cloud)) == exp, "in-array", "point in array: wrong answer", q=q, pts=cloud)
    ctx.require(
        np.array_equal(keep[0], pts) and np.array_equal(keep[1], tri), "mutated", "a membership test changed the polygon"
    )
    ctx.sample(dict(lp.describe(), queries=[[q, ref.locate(q, uv)] for q in qs[:6]]))


def monitor_point(ctx, P, pt, where, q):
    keep = pt.copy()
    got_in = bool(P.is_point_inside(pt))
    got_strict = bool(P.is_point_inside(pt, boundary_in=False))
    got_on = bool(is_point_at_boundary(pt, P.pts))
    ctx.require(
        got_in == (where != "out"), "inside-" + where, "inside (boundary included): wrong answer", q=q, expected=where, got=got_in
    )
    if where != "in?":
        ctx.require(
            got_strict == (where == "in"), "strict-" + where, "inside (boundary excluded): wrong answer", q=q, expected=where, got=got_strict
        )
        ctx.require(
            got_on == (where == "on"), "boundary-" + where, "on the boundary: wrong answer", q=q, expected=where, got=got_on
        )
    ctx.require(np.array_equal(keep, pt), "query-mutated", "a membership test changed the query point")

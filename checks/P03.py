"""P03: distances, intersections, visibility and closest pairs against Euclidean geometry."""
import math

import numpy as np

from building3d.geom.points.distance import distance_point_to_edge
from building3d.geom.points.find_close_pairs import find_close_pairs
from building3d.geom.points.intersections import line_intersection, line_segment_intersection
from building3d.geom.points.visibility import visibility_matrix
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.distance import distance_point_to_polygon
from building3d.geom.polygon.edges import polygon_edges

from vlib import gen, optional, ref
from vlib.polys import random_lp

are_points_visible = optional.load("building3d.geom.points.visibility:are_points_visible")

LEVEL = "exploration"
RULE = (
    "random points, edges, lines and polygons: generic, coplanar, skew, parallel, touching and degenerate, on "
    "axis-aligned, slanted and rotated planes; answers compared with closed-form distances and exact integer "
    "intersection tests. Distinct = different (routine, relative configuration)."
)
ASSUMPTIONS = ["skew lines pass each other at 5e-4 or more; lines that are not parallel differ by more than 1e-3 rad"]
PLAN = {"quick": (1400, 70), "thorough": (20000, 600)}
REQUIRE = {"edge": 1000, "poly": 1000, "seg_hit": 500, "seg_miss": 500, "skew": 300, "vis_blocked": 200, "vis_free": 200, "pairs": 100}


def close(a, b, scale):
    return abs(float(a) - float(b)) <= 1e-8 * (1.0 + scale)


def case(ctx, i, rng):
    # --- point to edge
    for _ in range(4):
        sc = float(rng.choice([0.1, 1.0, 10.0, 60.0]))
        a, b, p = rng.uniform(-sc, sc, (3, 3))
        mode = int(rng.integers(6))
        if mode == 1:
            p = a + float(rng.uniform(-1, 2)) * (b - a)  # on the line
        elif mode == 2:
            b = a.copy()
        elif mode == 3:
            p = a.copy()
        elif mode == 4:  # foot of the perpendicular on the edge
            w = np.cross(b - a, rng.normal(size=3))
            p = a + float(rng.uniform(0, 1)) * (b - a) + w / np.linalg.norm(w) * float(rng.uniform(0, sc))
        ctx.count("edge")
        d = distance_point_to_edge(p, a, b)
        e = ref.dist_point_segment(p, a, b)
        ctx.require(close(d, e, sc), "point-edge", "wrong distance from a point to an edge", p=p, a=a, b=b, got=d, expected=e)
        d2 = distance_point_to_edge(p, b, a)
        ctx.require(close(d, d2, sc), "point-edge-sym", "distance to an edge depends on its direction", p=p, a=a, b=b)
        ctx.distinct("edge", mode, round(e, 6))

    # --- point to polygon
    lp = random_lp(rng)
    ctx.info(**lp.describe())
    P = Polygon(lp.pts.copy())
    frame = ref.plane_frame(lp.pts)
    poly2 = [ref.project2(frame, q)[0] for q in lp.pts]
    size = float(max(lp.pts.max(axis=0) - lp.pts.min(axis=0)))
    us, vs = [q[0] for q in lp.uv], [q[1] for q in lp.uv]
    for _ in range(6):
        q = (int(rng.integers(min(us) - 8, max(us) + 9)), int(rng.integers(min(vs) - 8, max(vs) + 9)))
        h = float(rng.choice([0.0, 1e-3, 0.1, 1.0, 3.0])) * float(rng.choice([-1, 1]))
        if h != 0 and ref.locate(q, lp.uv) == "on":
            pass  # both branches of the definition give |h| here
        p = lp.emb.pt(q) + h * lp.n
        e = ref.dist_point_polygon(p, lp.pts, frame, poly2)
        ctx.count("poly")
        d = distance_point_to_polygon(p, P.pts, P.tri, P.vn)
        ctx.require(
            close(d, e, size), "point-polygon", "wrong distance from a point to a polygon", q=q, h=h, got=d, expected=e
        )
        F = P.flip() if rng.random() < 0.3 else None
        if F is not None:
            d2 = distance_point_to_polygon(p, F.pts, F.tri, F.vn)
            ctx.require(close(d2, e, size), "point-polygon-flip", "distance depends on the side the polygon faces", q=q, h=h, got=d2, expected=e)
        ctx.distinct("poly", lp.uv, q, h)

    # --- segments in one plane
    emb = lp.emb
    for _ in range(8):
        s = [(int(4 * x), int(4 * y)) for x, y in rng.integers(-12, 13, (4, 2))]
        if rng.random() < 0.3:
            f = int(rng.integers(0, 5))
            s[2] = (s[0][0] + f * (s[1][0] - s[0][0]) // 4, s[0][1] + f * (s[1][1] - s[0][1]) // 4)
        if rng.random() < 0.15:  # parallel
            k = int(rng.integers(-2, 3)) or 1
            s[3] = (s[2][0] + k * (s[1][0] - s[0][0]), s[2][1] + k * (s[1][1] - s[0][1]))
        if s[0] == s[1] or s[2] == s[3]:
            continue
        d1 = (s[1][0] - s[0][0], s[1][1] - s[0][1])
        d2 = (s[3][0] - s[2][0], s[3][1] - s[2][1])
        det = d1[0] * d2[1] - d1[1] * d2[0]
        pts = [emb.pt(q) for q in s]
        r = line_segment_intersection(*pts)
        l = line_intersection(pts[0], pts[1] - pts[0], pts[2], pts[3] - pts[2])
        if det == 0:
            ctx.count("parallel")
            ctx.require(
                np.isnan(r).any() and np.isnan(l).any(), "parallel", "parallel lines have an intersection point", seg=s, got=[r, l]
            )
            continue
        t = ((s[2][0] - s[0][0]) * d2[1] - (s[2][1] - s[0][1]) * d2[0]) / det
        x = emb.pt((s[0][0] + t * d1[0], s[0][1] + t * d1[1]))
        sc = float(np.max(np.abs(x))) + size
        ctx.require(
            np.allclose(l, x, atol=1e-7 * (1 + sc)), "lines", "wrong intersection point of two lines", seg=s, got=l, expected=x
        )
        exp = ref.segments_intersect(*s)
        ctx.count("seg_hit" if exp else "seg_miss")
        ctx.distinct("seg", s)
        if exp:
            ctx.require(
                np.allclose(r, x, atol=1e-7 * (1 + sc)), "segments-hit", "wrong or missing intersection of two segments", seg=s, got=r, expected=x
            )
        else:
            ctx.require(np.isnan(r).any(), "segments-miss", "segments that do not meet have an intersection", seg=s, got=r)

    # --- segments ending just short of, or just past, each other
    for _ in range(3):
        p, q, r = (emb.pt(tuple(int(x) for x in rng.integers(-24, 25, 2))) for _ in range(3))
        u, v = q - p, r - p
        area = np.linalg.norm(np.cross(u, v))
        if area < 0.2 * np.linalg.norm(u) * np.linalg.norm(v) or area == 0:
            continue
        x = p + float(rng.uniform(0.1, 0.9)) * u  # on p-q
        w = r - x
        w /= np.linalg.norm(w)
        d = float(10.0 ** rng.uniform(-3, -0.5))
        if d < 1e-4 * (1 + np.abs(x).max()):
            continue
        ctx.count("seg_short")
        past = bool(rng.random() < 0.4)
        end = x + (-d if past else d) * w
        for got in (line_segment_intersection(p, q, r, end), line_segment_intersection(end, r, q, p)):
            if past:
                ctx.require(np.allclose(got, x, atol=1e-6 * (1 + size)), "segments-past", "segments reaching past each other have no or a wrong intersection", seg=[p, q, r, end], got=got)
            else:
                ctx.require(np.isnan(got).any(), "segments-short", "segments ending short of each other have an intersection", seg=[p, q, r, end], gap=d, got=got)

    # --- skew lines
    for _ in range(3):
        a, d1, d2 = rng.uniform(-3, 3, 3), rng.normal(size=3), rng.normal(size=3)
        d1 /= np.linalg.norm(d1)
        d2 /= np.linalg.norm(d2)
        w = np.cross(d1, d2)
        if np.linalg.norm(w) < 0.05:
            continue
        w /= np.linalg.norm(w)
        gap = float(10.0 ** rng.uniform(-3.3, 0))
        b = a + gap * w
        p1, p2 = a - d1 * float(rng.uniform(0.5, 2)), b - d2 * float(rng.uniform(0.5, 2))
        e1, e2 = a + d1 * float(rng.uniform(0.5, 2)), b + d2 * float(rng.uniform(0.5, 2))
        ctx.count("skew")
        ctx.require(np.isnan(line_intersection(p1, d1, p2, d2)).any(), "skew-lines", "skew lines have an intersection point", p1=p1, d1=d1, p2=p2, d2=d2)
        ctx.require(
            np.isnan(line_segment_intersection(p1, e1, p2, e2)).any(), "skew-segments", "skew segments have an intersection point", seg=[p1, e1, p2, e2]
        )

    # --- visibility: lattice points and blocking edges of one or two outlines
    lq = random_lp(rng, emb=emb)
    off = (int(rng.integers(-12, 13)) * 4, int(rng.integers(-12, 13)) * 4)
    uv2 = [(p[0] + off[0], p[1] + off[1]) for p in lq.uv]
    e1 = polygon_edges(lp.pts)
    e2 = polygon_edges(emb.pts(uv2))
    edges = [(o[k], o[(k + 1) % len(o)]) for o in (lp.uv, uv2) for k in range(len(o))]
    corners = lp.uv + uv2

    def blocked(a, b):
        """True / False / None when a sight line runs along an edge."""
        hit = False
        for c, d in edges:
            if c in (a, b) or d in (a, b):
                continue
            det = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if det == 0:
                if ref.segments_intersect(a, b, c, d):
                    return None
                continue
            if ref.segments_intersect(a, b, c, d):
                hit = True
        return hit

    chosen = []
    for _ in range(6):
        if rng.random() < 0.6:
            chosen.append(corners[int(rng.integers(len(corners)))])
        else:
            chosen.append(tuple(int(x) for x in rng.integers(-60, 61, 2)))
    chosen = list(dict.fromkeys(chosen))
    M = visibility_matrix(emb.pts(chosen), e1, e2) if len(chosen) >= 3 else None
    for x in range(len(chosen)):
        for y in range(len(chosen)):
            if x == y:
                continue
            exp = blocked(chosen[x], chosen[y])
            if exp is None:
                continue
            ctx.count("vis_blocked" if exp else "vis_free")
            if x < y and are_points_visible is not None:
                got = are_points_visible(emb.pt(chosen[x]), emb.pt(chosen[y]), e1, e2)
                ctx.require(
                    bool(got) == (not exp), "visibility", "wrong visibility between two points", a=chosen[x], b=chosen[y], blocked=exp, other=uv2
                )
            if M is not None:
                ctx.require(
                    bool(M[x, y]) == (not exp), "visibility-matrix", "wrong entry of the visibility matrix", a=chosen[x], b=chosen[y], blocked=exp, other=uv2
                )
    if M is not None:
        ctx.require((np.diag(M) == 1).all(), "visibility-diagonal", "a point does not see itself")

    # --- closest pairs
    if i % 3 == 0:
        vis_only = bool(rng.random() < 0.5)
        pairs, ok = [], True
        for x, a in enumerate(lp.uv):
            for y, b in enumerate(uv2):
                d = float(np.linalg.norm(emb.pt(a) - emb.pt(b)))
                if vis_only:
                    bl = blocked(a, b)
                    if bl is None:
                        ok = False
                    elif bl:
                        continue
                pairs.append((d, x, y))
        pairs.sort()
        ds = [p[0] for p in pairs]
        if ok:
            u0, u1, exp = set(), set(), []
            for d, x, y in pairs:
                if x not in u0 and y not in u1:
                    exp.append((d, x, y))
                    u0.add(x)
                    u1.add(y)
            # the first pair is unambiguous in length; later ones only when all lengths differ
            distinct = all(ds[k + 1] - ds[k] > 1e-9 for k in range(len(ds) - 1))
            n = int(rng.integers(1, max(2, len(exp) + 1)))
            pts0, pts1 = lp.pts.copy(), emb.pts(uv2)
            if len(exp) >= n:
                got = np.asarray(find_close_pairs(pts0, pts1, n, vis_only))
                ctx.count("pairs")
                ctx.require(got.shape == (n, 2, 3), "pairs-shape", "wrong number of closest pairs", got=got.shape)
                gd = [float(np.linalg.norm(g[0] - g[1])) for g in got]
                ctx.require(
                    abs(gd[0] - exp[0][0]) < 1e-9 and all(gd[k] <= gd[k + 1] + 1e-12 for k in range(n - 1)),
                    "pairs-order",
                    "the closest pair is not first or pairs are not sorted",
                    got=gd,
                    expected=[e[0] for e in exp[:n]],
                )
                k0 = [int(np.argmin(np.linalg.norm(pts0 - g[0], axis=1))) for g in got]
                k1 = [int(np.argmin(np.linalg.norm(pts1 - g[1], axis=1))) for g in got]
                ctx.require(
                    len(set(k0)) == n
                    and len(set(k1)) == n
                    and all(np.array_equal(pts0[k0[k]], got[k, 0]) and np.array_equal(pts1[k1[k]], got[k, 1]) for k in range(n)),
                    "pairs-unique",
                    "a point is used twice or is not one of the given points",
                )
                if distinct:
                    ctx.count("pairs_exact")
                    ctx.require(
                        [(a, b) for a, b in zip(k0, k1)] == [(e[1], e[2]) for e in exp[:n]],
                        "pairs-exact",
                        "not the closest pairs",
                        got=list(zip(k0, k1)),
                        expected=[(e[1], e[2]) for e in exp[:n]],
                    )
            if len(exp) < len(pairs):
                try:
                    find_close_pairs(pts0, pts1, len(exp) + 1, vis_only)
                    ctx.require(not distinct, "pairs-too-many", "more pairs returned than exist", n=len(exp) + 1)
                except ValueError:
                    ctx.count("pairs_refused")
    ctx.sample(lp.describe())

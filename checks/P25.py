"""P25: crossings of segments and boxes with polygons are reported exactly."""
import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon
from building3d.geom.polygon.crossing import is_polygon_crossing_cube

from vlib import ref
from vlib.polys import random_lp

LEVEL = "exploration"
RULE = (
    "lattice polygons of every shape in axis-parallel, oblique and rotated planes against segments (through the inside, past corners, along the "
    "plane, ending before it, touching) and boxes (around, inside, piercing, beside, in notches); oracle: exact place of the crossing "
    "point, and clipping of the polygon's triangles by the box. Distinct = different polygon, segment or box."
)
ASSUMPTIONS = [
    "segments within 1e-6 of touching are only judged where the arithmetic is exact (lattice planes); boxes within 0.003 of touching are not judged",
]
PLAN = {"quick": (3000, 60), "thorough": (20000, 600)}
REQUIRE = {"crossing": 2000, "missing": 2000, "parallel": 300, "touching": 100, "box_hit": 500, "box_pierced": 100, "box_clear": 500, "box_notch": 50}
EPS = 1e-6


def segment(rng, lp, P):
    """A segment and how it was made."""
    k = int(rng.integers(6))
    size = float(np.ptp(P.pts, axis=0).max())
    t = P.pts[P.tri[int(rng.integers(len(P.tri)))]]
    inner = rng.dirichlet([1, 1, 1]) @ t
    d = P.vn * float(rng.choice([1, -1])) + rng.normal(size=3) * float(rng.choice([0.0, 0.3, 3.0]))
    if k == 0:
        return inner - d * rng.uniform(0.1, 2), inner + d * rng.uniform(0.1, 2), "through"
    if k == 1:
        return inner + d * rng.uniform(0.05, 0.5), inner + d * rng.uniform(0.6, 2), "short"
    if k == 2:
        lo, hi = P.pts.min(axis=0), P.pts.max(axis=0)
        q = lo + rng.random(3) * (hi - lo)
        q = q - P.vn * np.dot(q - P.pts[0], P.vn)
        return q - d, q + d, "plane"
    if k == 3:
        c = P.pts[int(rng.integers(len(P.pts)))]
        q = c + (inner - c) * float(rng.choice([-0.2, -0.01, 0.01, 0.2]))
        return q - d, q + d, "corner"
    if k == 4:
        e = P.pts[1] - P.pts[0]
        o = P.vn * float(rng.choice([0.0, 0.1, -1.0])) * size
        return inner + o - e * rng.uniform(0, 2), inner + o + e * rng.uniform(0, 2), "parallel"
    u = rng.integers(-2, 3, 2)  # beside or on the boundary
    uv = lp.uv[int(rng.integers(len(lp.uv)))]
    q = lp.emb.pt((uv[0] + int(u[0]), uv[1] + int(u[1])))
    n = lp.emb.n * lp.emb.unit
    return q + n * float(rng.integers(0, 3)), q - n * float(rng.integers(0, 3)), "touch"


def judge(frame, poly2, a, b):
    """True / False, or None if too close to call."""
    h1, h2 = ref.project2(frame, a)[1], ref.project2(frame, b)[1]
    if abs(h1 - h2) < 1e-13 or (abs(h1) > EPS and abs(h2) > EPS and (h1 > 0) == (h2 > 0)):
        return False
    if abs(h1) < EPS or abs(h2) < EPS or abs(h1 - h2) < EPS:
        return None
    q = a + (b - a) * (h1 / (h1 - h2))
    inside, d = ref.pip_float(ref.project2(frame, q)[0], poly2)
    if d < EPS * (1 + np.abs(b - a).max() / abs(h1 - h2)):
        return None
    return bool(inside)


def clipped(tri, lo, hi):
    """Whether a triangle meets the box lo..hi."""
    poly = [np.asarray(p, dtype=float) for p in tri]
    for ax in range(3):
        for sign, lim in ((1.0, lo[ax]), (-1.0, -hi[ax])):
            out = []
            for k in range(len(poly)):
                p, q = poly[k - 1], poly[k]
                dp, dq = sign * p[ax] - lim, sign * q[ax] - lim
                if (dp >= 0) != (dq >= 0):
                    out.append(p + (q - p) * (dp / (dp - dq)))
                if dq >= 0:
                    out.append(q)
            poly = out
            if not poly:
                return False
    return True


def meets(P, lo, hi, margin):
    lo, hi = lo - margin, hi + margin
    return bool((lo < hi).all()) and any(clipped(P.pts[list(t)], lo, hi) for t in P.tri)


def boxed(rng, P, frame, poly2):
    size = float(np.ptp(P.pts, axis=0).max())
    k = int(rng.integers(5))
    t = P.pts[P.tri[int(rng.integers(len(P.tri)))]]
    inner = rng.dirichlet([1, 1, 1]) @ t
    half = size * rng.uniform(0.02, 0.3, 3)
    if k == 0:  # small box somewhere on the surface, often without a corner inside
        d = ref.pip_float(ref.project2(frame, inner)[0], poly2)[1]
        half = np.maximum(rng.uniform(0.2, 0.5, 3) * d, 0.008)
        c = inner + P.vn * half.min() * rng.uniform(-0.4, 0.4)
    elif k == 1:
        lo, hi = P.pts.min(axis=0), P.pts.max(axis=0)
        c = lo + rng.random(3) * (hi - lo)
    elif k == 2:
        c = inner + P.vn * size * rng.uniform(-1, 1)
    elif k == 3:
        half = size * rng.uniform(0.5, 2, 3)
        c = inner + rng.uniform(-1.2, 1.2, 3) * half
    else:  # long thin box
        half[int(rng.integers(3))] = size * 3
        half = np.maximum(half * rng.choice([0.1, 1.0]), 0.008)
        c = inner + rng.uniform(-0.3, 0.3, 3) * size
    return c - half, c + half


def touch(ctx, rng):
    """Segments that touch the boundary, or end on the surface, where no rounding is involved."""
    from vlib import gen

    emb = gen.embedding(rng, "axis")
    emb = gen.Embedding(np.zeros(3), emb.A, emb.B, float(rng.choice([1 / 64, 1 / 16, 0.25])), "axis")
    lp = random_lp(rng, emb=emb, size=8)
    P = Polygon(lp.pts.copy())
    for _ in range(4):
        uv = lp.uv[int(rng.integers(len(lp.uv)))]
        uv = (uv[0] + int(rng.integers(-1, 2)), uv[1] + int(rng.integers(-1, 2)))
        q = emb.pt(uv)
        up, down = [(1, 1), (0, 1), (2, 0)][int(rng.integers(3))]
        n = emb.n * emb.unit
        a, b = q + n * up, q - n * down
        want = ref.locate(uv, lp.uv) != "out"
        got = bool(is_line_segment_crossing_polygon(a, b, P.pts, P.tri))
        ctx.count("touching")
        ctx.count("monitor_evaluations")
        ctx.require(got == want, "touch", "a segment that touches a polygon is judged wrongly", a=a, b=b, uv=uv, polygon=lp.describe(), got=got, expected=want)


def case(ctx, i, rng):
    lp = random_lp(rng)
    ctx.info(**lp.describe())
    P = Polygon(lp.pts.copy())
    frame = ref.plane_frame(lp.pts)
    poly2 = [ref.project2(frame, q)[0] for q in lp.pts]
    for _ in range(12):
        a, b, how = segment(rng, lp, P)
        want = judge(frame, poly2, a, b)
        if want is None:
            ctx.count("undecided")
            continue
        got = bool(is_line_segment_crossing_polygon(a, b, P.pts, P.tri))
        back = bool(is_line_segment_crossing_polygon(b, a, P.pts, P.tri))
        ctx.count("crossing" if want else "missing")
        ctx.count("parallel", int(how == "parallel"))
        ctx.count("monitor_evaluations", 2)
        ctx.distinct("segment", a, b, lp.uv)
        ctx.require(got == want, "segment", "the crossing of a segment and a polygon is misjudged", a=a, b=b, how=how, got=got, expected=want)
        ctx.require(back == want, "segment-back", "the answer depends on the direction of the segment", a=b, b=a, how=how, got=back, expected=want)
    touch(ctx, rng)
    for _ in range(4):
        lo, hi = boxed(rng, P, frame, poly2)
        if meets(P, lo, hi, -0.003):
            want = True
            ctx.count("box_hit")
            if not any(((p >= lo) & (p <= hi)).all() for p in P.pts):
                ctx.count("box_pierced")
        elif not meets(P, lo, hi, 0.003):
            want = False
            ctx.count("box_clear")
            if ((P.pts.min(axis=0) < hi) & (P.pts.max(axis=0) > lo)).all():
                ctx.count("box_notch")
        else:
            ctx.count("undecided")
            continue
        got = bool(is_polygon_crossing_cube(P.pts, P.tri, tuple(float(v) for v in lo), tuple(float(v) for v in hi)))
        ctx.count("monitor_evaluations")
        ctx.distinct("box", lo, hi, lp.uv)
        ctx.require(got == want, "box", "the crossing of a polygon and a box is misjudged", low=lo, high=hi, got=got, expected=want)
    ctx.sample(dict(polygon=lp.uv, plane=lp.emb.label))

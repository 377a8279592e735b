"""P01: what a polygon reports about itself is what its outline says."""
import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.edges import polygon_edges

from vlib import gen, ref
from vlib.polys import LP, monitor_polygon, random_lp, tol

LEVEL = "exploration"
RULE = (
    "random simple lattice polygons (rectangles, convex, L/T/U/Z/plus/comb/stairs, star-shaped, spiral; with and "
    "without collinear vertices) placed on axis-aligned, slanted and rotated planes, listed from any corner and in "
    "either direction; each object is observed after construction, flipping and reconstruction and compared with the "
    "exact shape. Distinct = different (shape, first corner, direction, plane) that is not an axis-aligned rectangle."
)
ASSUMPTIONS = ["coordinates up to about 100 and features of at least 1/64"]
PLAN = {"quick": (5000, 60), "thorough": (60000, 500)}
REQUIRE = {"polygons": 200, "flips": 100, "monitor_evaluations": 5000}


def case(ctx, i, rng):
    start = str(rng.choice(["convex", "reflex", "flat"], p=[0.5, 0.35, 0.15]))
    lp = random_lp(rng, start=start, emb=gen.embedding(rng, far=rng.random() < 0.15))
    start = lp.desc["start"]
    ctx.info(**lp.describe())
    vn_mode = "none" if start == "convex" and rng.random() < 0.7 else "given"
    if vn_mode == "given" and rng.random() < 0.3:
        vn_mode = "opposite"
    vn = {"none": None, "given": lp.n.copy(), "opposite": -lp.n}[vn_mode]
    ctx.info(vn_mode=vn_mode)
    given = lp.pts.copy()
    given_vn = None if vn is None else vn.copy()
    P = Polygon(given, name="p", vn=given_vn)
    ctx.count("polygons")
    ctx.count("start_" + start)
    ctx.count("vn_" + vn_mode)
    ctx.count("plane_" + lp.emb.label)
    if lp.desc["kind"] != "rect" or lp.emb.label != "axis":
        ctx.distinct(lp.uv, lp.emb.label, vn_mode, lp.emb.A.tolist(), lp.emb.B.tolist())
    ctx.sample(dict(lp.describe(), vn_mode=vn_mode))
    exp = lp.n if vn is None else vn
    monitor_polygon(ctx, P, lp, exp)
    ctx.require(P.name == "p" and P.path == "p" and isinstance(P.uid, str) and P.uid, "name", "name or identifier lost")

    # edges
    E = np.asarray(polygon_edges(P.pts))
    ctx.require(
        E.shape == (len(P.pts), 2, 3)
        and np.array_equal(E[:, 0], P.pts)
        and np.array_equal(E[:, 1], np.roll(P.pts, -1, axis=0)),
        "edges",
        "edges do not connect consecutive boundary points",
        got=E,
    )

    # flipping
    before = (P.pts.copy(), P.tri.copy(), P.vn.copy())
    Q = P.flip("q")
    ctx.count("flips")
    monitor_polygon(ctx, Q, lp, -exp, tag="-flipped")
    ctx.require(Q.name == "q" and Q.uid != P.uid, "flip-name", "flipped polygon does not carry the new name")
    R = Q.flip()
    monitor_polygon(ctx, R, lp, exp, tag="-flipped-twice")
    ctx.require(
        np.array_equal(before[0], P.pts) and np.array_equal(before[1], P.tri) and np.array_equal(before[2], P.vn),
        "flip-mutates",
        "flipping changed the original polygon",
    )

    # reconstruction from its own data
    C = Polygon(P.pts.copy(), name="c", uid="u-1", tri=P.tri.copy(), vn=P.vn.copy())
    monitor_polygon(ctx, C, lp, exp, tag="-copied")
    ctx.require(C.uid == "u-1", "uid", "given identifier lost")
    ctx.require((C == P) is True and (P == C) is True, "eq-copy", "a copy is not equal to the original")
    moved = LP(lp.uv, gen.Embedding(lp.emb.o + np.array([0.5, 0.25, 0.125]), lp.emb.A, lp.emb.B, lp.emb.unit, lp.emb.label), lp.desc)
    M = Polygon(moved.pts, vn=None if vn is None else vn.copy())
    ctx.require((M == P) is False and (P == M) is False, "eq-moved", "a moved polygon equals the original")
    # nearly the same outline
    d = 10.0 ** float(rng.uniform(-3, 0)) * (1.0 + float(np.abs(lp.pts).max()))
    w = rng.normal(size=3)
    M = perturbed(ctx, lp.pts + d * w / np.abs(w).max(), None if vn is None else vn.copy())
    if M is not None:
        ctx.require((M == P) is False and (P == M) is False, "eq-moved", "a moved polygon equals the original", by=d)
    ctx.require((Q == P) is False and (P == Q) is False, "eq-flipped", "a flipped polygon equals the original")
    k = [j for j in range(len(lp.uv)) if ref.cross2(lp.uv[j - 1], lp.uv[j], lp.uv[(j + 1) % len(lp.uv)]) != 0]
    k = int(rng.choice(k))
    f = 10.0 ** float(rng.uniform(-2, -1))
    pts2 = lp.pts.copy()
    pts2[k] = pts2[k] + f * (lp.ctr - pts2[k])
    if np.abs(pts2[k] - lp.pts[k]).max() > 1e-3 * (1.0 + np.abs(lp.pts).max()):
        frame = ref.plane_frame(lp.pts)
        flat = [tuple(ref.project2(frame, p)[0]) for p in pts2]
        if ref.is_simple(flat):
            M = perturbed(ctx, pts2, exp.copy())
            if M is not None:
                ctx.count("eq_corner_moved")
                ctx.require((M == P) is False and (P == M) is False, "eq-corner", "polygons differing in one corner are equal", corner=k, f=f)
    other = random_lp(rng)
    O = Polygon(other.pts)
    if len(other.pts) != len(lp.pts):
        ctx.require((O == P) is False and (P == O) is False, "eq-other", "polygons with different outlines are equal")
        ctx.count("eq_different_size")
    ctx.require(
        np.array_equal(given, lp.pts) and (given_vn is None or np.array_equal(given_vn, vn)),
        "input-mutated",
        "the arrays passed by the caller were changed",
    )


def perturbed(ctx, pts, vn):
    """A polygon of rounded points; None when the rounding put them off one plane."""
    try:
        return Polygon(pts, vn=vn)
    except AssertionError:
        ctx.count("not_coplanar")
        return None

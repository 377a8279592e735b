"""P04: facing / overlapping / touching / containing against exact set relations."""
import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import are_polygons_crossing
from building3d.geom.polygon.facing import are_polygons_facing
from building3d.geom.polygon.touching import are_polygons_touching

from vlib import gen, optional, ref
from vlib.polys import LP, random_lp, related, twins

are_bboxes_overlapping = optional.load("building3d.geom.bboxes:are_bboxes_overlapping")

LEVEL = "exploration"
RULE = (
    "pairs of coplanar lattice polygons: independent ones at random offsets and ones derived from the first (thin bars "
    "across, sub-polygons of its corners, mirror images over an edge, same outline listed differently, same corners connected "
    "in another order (also with equal areas), one corner moved, "
    "frames, shifted copies, corner contact, extra vertices), plus copies on parallel and crossing planes; exact overlap "
    "area by rational clipping. Distinct = different pair."
)
ASSUMPTIONS = ["one polygon inside another with boundary contact: only symmetry is required of the overlap answer"]
PLAN = {"quick": (900, 40), "thorough": (30000, 600)}
REQUIRE = {"partial": 80, "touch": 30, "same": 30, "in-strict": 10, "disjoint": 30, "facing": 10, "parallel": 80, "in-touch": 20}


def as_polygon(uv, emb, desc):
    up = ref.area2(uv) > 0
    st = gen.convex_starts(uv) if up else [len(uv) - 1 - k for k in gen.convex_starts(uv[::-1])]
    return LP(gen.roll(uv, st[0]), emb, desc)


def case(ctx, i, rng):
    emb = gen.embedding(rng)
    a = random_lp(rng, emb=emb, size=8)
    label = "independent"
    if i % 12 == 5:
        a, b = (as_polygon(q, emb, dict(kind="twin")) for q in twins(rng))
        label = "twins"
        ctx.count("twins")
    elif rng.random() < 0.85:
        r = None
        while r is None:
            r = related(rng, a.uv)
        b = as_polygon(r[0], emb, dict(kind=r[1]))
        label = r[1]
    else:
        b = random_lp(rng, emb=emb, size=int(rng.choice([5, 8])))
        off = [4 * int(x) for x in rng.integers(-9, 10, 2)]
        b = LP([(u + off[0], v + off[1]) for u, v in b.uv], emb, b.desc)
    ctx.info(a=a.describe(), b=b.uv, how=label)
    R = ref.relation(a.uv, b.uv)
    inside = R["p_in_q"] or R["q_in_p"]
    if R["same"]:
        cat = "same"
    elif not R["overlap"]:
        cat = "touch" if R["meet"] else "disjoint"
    elif inside:
        cat = "in-touch" if R["meet"] else "in-strict"
    else:
        cat = "partial"
    ctx.count(cat)
    ctx.distinct(a.uv, b.uv, emb.label)
    ctx.sample(dict(a=a.uv, b=b.uv, relation=cat, how=label))
    A = Polygon(a.pts.copy(), name="a")
    B = Polygon(b.pts.copy(), name="b")
    keep = [x.copy() for x in (A.pts, A.tri, A.vn, B.pts, B.tri, B.vn)]

    ab, ba = bool(A.is_crossing_polygon(B)), bool(B.is_crossing_polygon(A))
    ctx.require(ab == ba, "overlap-symmetry", "overlap depends on the order of arguments", relation=cat, got=[ab, ba])
    if cat != "in-touch":
        ctx.require(ab == (cat == "partial"), "overlap-" + cat, "wrong overlap answer", relation=cat, got=ab)
    ctx.require(
        bool(are_polygons_crossing(A.pts, A.tri, B.pts, B.tri)) == ab, "overlap-api", "method and function disagree"
    )
    ab, ba = bool(A.is_touching_polygon(B)), bool(B.is_touching_polygon(A))
    ctx.require(ab == ba, "touch-symmetry", "touching depends on the order of arguments", relation=cat, got=[ab, ba])
    ctx.require(ab == (cat == "touch"), "touch-" + cat, "wrong touching answer", relation=cat, got=ab)
    ctx.require(bool(are_polygons_touching(A.pts, A.tri, B.pts, B.tri)) == ab, "touch-api", "method and function disagree")
    ab, ba = bool(A.is_facing_polygon(B)), bool(B.is_facing_polygon(A))
    ctx.require(ab == ba, "facing-symmetry", "facing depends on the order of arguments", relation=cat, got=[ab, ba])
    opposite = np.dot(a.n, b.n) < 0
    same_outline = cat == "same" and set(a.uv) == set(b.uv)
    exp = same_outline and opposite
    if exp:
        ctx.count("facing")
    if cat != "same" or same_outline or not opposite:
        ctx.require(ab == exp, "facing-" + cat, "wrong facing answer", relation=cat, got=ab, expected=exp)
    ctx.require(bool(are_polygons_facing(A.pts, A.vn, B.pts, B.vn)) == ab, "facing-api", "method and function disagree")
    if exp:
        S = B.flip()
        ctx.require(
            not A.is_facing_polygon(S) and not S.is_facing_polygon(A), "facing-parallel-normals", "polygons with the same normal are facing"
        )
    # containment with a margin of zero distance (strict) and with the boundary
    p_strict = R["q_in_p"] and not R["meet"]
    q_strict = R["p_in_q"] and not R["meet"]
    if cat not in ("partial", "in-touch"):
        got = bool(A.contains_polygon(B)), bool(B.contains_polygon(A))
        ctx.require(got == (p_strict, q_strict), "contains", "wrong containment answer", relation=cat, got=got)
    lo1, hi1 = A.bbox()
    lo2, hi2 = B.bbox()
    exp = bool((hi1 >= lo2).all() and (hi2 >= lo1).all())
    ctx.require(bool(are_bboxes_overlapping((lo1, hi1), (lo2, hi2))) == exp, "bbox-overlap", "wrong bounding-box overlap answer")

    # parallel plane
    h = float(rng.choice([1e-3, 0.01, 0.1, 1.0])) * float(rng.choice([-1, 1]))
    ctx.count("parallel")
    B2 = Polygon(b.pts + h * emb.n, name="b2")
    for X, Y in ((A, B2), (B2, A)):
        ctx.require(not X.is_crossing_polygon(Y), "parallel-overlap", "polygons on parallel planes overlap", h=h)
        ctx.require(not X.is_touching_polygon(Y), "parallel-touch", "polygons on parallel planes touch", h=h)
        ctx.require(not X.is_facing_polygon(Y), "parallel-facing", "polygons on parallel planes are facing", h=h)
        ctx.require(not X.contains_polygon(Y), "parallel-contains", "a polygon contains one on a parallel plane", h=h)

    # hinged along a shared edge: touching, never overlapping or facing
    if i % 4 == 0:
        k = int(rng.integers(len(a.pts)))
        p0, p1 = a.pts[k], a.pts[(k + 1) % len(a.pts)]
        up = emb.n * float(rng.choice([-1, 1])) * float(rng.uniform(0.5, 2))
        H = Polygon(np.vstack([p0, p1, p1 + up, p0 + up]), name="h")
        for X, Y in ((A, H), (H, A)):
            ctx.require(not X.is_crossing_polygon(Y), "hinge-overlap", "polygons hinged on an edge overlap")
            ctx.require(X.is_touching_polygon(Y), "hinge-touch", "polygons sharing an edge do not touch")
            ctx.require(not X.is_facing_polygon(Y), "hinge-facing", "polygons hinged on an edge are facing")
        ctx.count("hinged")
    for x, y in zip(keep, (A.pts, A.tri, A.vn, B.pts, B.tri, B.vn)):
        ctx.require(np.array_equal(x, y), "mutated", "a relation test changed a polygon")

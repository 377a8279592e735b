"""P05: slicing against the exact two parts."""
import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.slice import slice_polygon

from vlib import cuts, gen, ref
from vlib.polys import LP, monitor_polygon, random_lp, related

LEVEL = "exploration"
RULE = (
    "lattice polygons (convex, concave, with collinear corners, any plane) cut by simple chains between any two boundary "
    "points (corner/edge, same edge, 0-3 bends, either direction, optionally overshooting the outline); the exact outlines of both "
    "parts are computed on the lattice. Also other polygons used as cutters (result must be a partition or a refusal) and "
    "chains that cannot cut (must be refused). Distinct = different polygon and chain."
)
ASSUMPTIONS = ["any exception counts as a refusal for chains that cannot cut"]
PLAN = {"quick": (4000, 80), "thorough": (40000, 600)}
REQUIRE = {
    "edge-edge": 30, "same-edge": 15, "corner-edge": 50, "corner-corner": 20, "overshoot": 30, "named": 50,
    "cutter-partition": 20, "refusals": 100, "cutter-once": 20,
}


def meets(uv, a, b):
    """True if the segment meets an edge that does not end or pass through `b`."""
    for k in range(len(uv)):
        e = uv[k - 1], uv[k]
        if not ref.on_segment(b, *e) and ref.segments_intersect(a, b, *e):
            return True
    return False


def refused(ctx, P, pts, what):
    keep = P.pts.copy()
    try:
        a, b = slice_polygon(P, pts)
    except Exception:
        ctx.count("refusals")
        ctx.count("monitor_evaluations")
    else:
        ctx.count("monitor_evaluations")
        if a is not None or b is not None:
            ctx.fail("not-refused-" + what, "a chain that cannot cut the polygon was accepted", chain=pts, parts=[a.pts, b.pts])
    ctx.require(np.array_equal(P.pts, keep), "mutated", "slicing changed the polygon")


def case(ctx, i, rng):
    lp = random_lp(rng, size=int(rng.choice([5, 8])), start="convex")
    uv, emb = lp.uv, lp.emb
    P = Polygon(lp.pts.copy(), vn=lp.n, name="whole")
    if i % 4 == 3:
        return cutter(ctx, rng, lp, P)
    got = cuts.random_chain(rng, uv)
    if got is None:
        ctx.count("no_chain")
        return
    c, l0, l1 = got
    if rng.random() < 0.5:
        c, l0, l1 = c[::-1], l1, l0
    A, B = cuts.parts(uv, c, l0, l1)
    kind = (
        "corner-corner" if l0[0] == l1[0] == "v" else "corner-edge" if l0[0] != l1[0] else "same-edge" if l0 == l1 else "edge-edge"
    )
    ctx.count(kind)
    chain = list(c)
    if rng.random() < 0.35:
        o0, o1 = cuts.overshoot(uv, c[0], c[1]), cuts.overshoot(uv, c[-1], c[-2])
        if o0 is not None and o1 is not None:
            chain = [o0] + ([c[0]] if l0[0] == "v" else []) + c[1:-1] + ([c[-1]] if l1[0] == "v" else []) + [o1]
            ctx.count("overshoot")
    ctx.info(polygon=lp.describe(), chain=chain, kind=kind)
    ctx.distinct(uv, chain, emb.label)
    ctx.sample(dict(uv=uv, chain=chain, kind=kind, plane=emb.label))

    cpts = emb.pts(chain)
    keep = cpts.copy(), P.pts.copy(), P.tri.copy(), P.vn.copy()
    kw, mode = {}, int(rng.integers(0, 5))
    pa, pb = cuts.point_in(rng, A), cuts.point_in(rng, B)
    first = None
    if mode == 1:
        kw = dict(name1="n1", name2="n2")
    elif mode >= 2 and pa is not None and pb is not None:
        first, second = (A, B) if rng.random() < 0.5 else (B, A)
        p1, p2 = (pa, pb) if first is A else (pb, pa)
        kw = dict(name1="n1", name2="n2")
        if mode in (2, 4):
            kw["pt1"] = emb.pt(p1)
        if mode in (3, 4):
            kw["pt2"] = emb.pt(p2)
        ctx.count("named")
    a, b = slice_polygon(P, cpts, **kw)
    if kw:
        ctx.require((a.name, b.name) == ("n1", "n2"), "names", "parts do not carry the requested names", got=[a.name, b.name])
    if first is not None:
        ctx.require(
            cuts.same_outline(a.pts, first, emb) and cuts.same_outline(b.pts, second, emb),
            "named-parts",
            "a name ended up on the part that does not contain its reference point",
            got=[a.pts, b.pts],
        )
    else:
        ok = (cuts.same_outline(a.pts, A, emb) and cuts.same_outline(b.pts, B, emb)) or (
            cuts.same_outline(a.pts, B, emb) and cuts.same_outline(b.pts, A, emb)
        )
        ctx.require(ok, "parts", "the parts are not the two sides of the cut", got=[a.pts, b.pts], expected=[emb.pts(A), emb.pts(B)])
        if not cuts.same_outline(a.pts, A, emb):
            A, B = B, A
        first, second = A, B
    for X, o in ((a, first), (b, second)):
        st = gen.convex_starts(o) if ref.area2(o) > 0 else [len(o) - 1 - k for k in gen.convex_starts(o[::-1])]
        monitor_polygon(ctx, X, LP(gen.roll(o, st[0]), emb, {}), vn=lp.n, tag="-part")
    ctx.require(a.name != b.name, "same-name", "both parts carry the same name")
    for x, y in zip(keep, (cpts, P.pts, P.tri, P.vn)):
        ctx.require(np.array_equal(x, y), "mutated", "slicing changed its input")

    # a reference point outside both parts
    if mode == 2:
        far = emb.pt((max(p[0] for p in uv) + 40, max(p[1] for p in uv) + 40))
        for key in ("pt1", "pt2"):
            try:
                slice_polygon(P, cpts, **{"name1": "n1", "name2": "n2", key: far})
            except Exception:
                ctx.count("monitor_evaluations")
            else:
                ctx.fail("bad-reference", "a reference point outside both parts was accepted")

    # chains that cannot cut
    mid = cuts.point_in(rng, uv)
    if mid is not None:
        m2 = cuts.point_in(rng, uv)
        if m2 is not None and m2 != mid and not meets(uv, mid, m2):
            refused(ctx, P, emb.pts([mid, m2]), "inside")
        if ref.locate((ref.F(mid[0] + c[0][0], 2), ref.F(mid[1] + c[0][1], 2)), uv) == "in" and not meets(uv, mid, c[0]):
            refused(ctx, P, emb.pts([c[0], mid]), "dangling")
        refused(ctx, P, emb.pts([mid]), "single")
    k = int(rng.integers(len(uv)))
    e0, e1 = uv[k], uv[(k + 1) % len(uv)]
    refused(ctx, P, emb.pts([e0, e1]), "along-edge")
    lo = (min(p[0] for p in uv) - 8, min(p[1] for p in uv) - 8)
    refused(ctx, P, emb.pts([lo, (lo[0] - 8, lo[1] - 4)]), "outside")
    if len(c) >= 2:
        off = cpts + emb.n * 0.1
        refused(ctx, P, off, "off-plane")


def cutter(ctx, rng, lp, P):
    """Another polygon as the cutter: the answer must be a partition along it, or a refusal."""
    uv, emb = lp.uv, lp.emb
    r = None
    while r is None:
        if rng.random() < 0.6:
            us, vs = [p[0] for p in uv], [p[1] for p in uv]
            x = sorted(int(v) for v in rng.choice(np.arange(min(us) // 4 - 2, max(us) // 4 + 3) * 4, 2, replace=False))
            y = sorted(int(v) for v in rng.choice(np.arange(min(vs) // 4 - 2, max(vs) // 4 + 3) * 4, 2, replace=False))
            q = gen.roll([(x[0], y[0]), (x[1], y[0]), (x[1], y[1]), (x[0], y[1])], int(rng.integers(4)))
            r = (q if rng.random() < 0.5 else q[::-1]), "rect"
        else:
            r = related(rng, uv)
    q = r[0]
    ctx.info(polygon=lp.describe(), cutter=q, how=r[1])
    ctx.distinct("cutter", uv, q, emb.label)
    qp = emb.pts(q)
    keep = qp.copy(), P.pts.copy()
    n, m = len(uv), len(q)
    proper = contact = 0
    for j in range(n):
        for k in range(m):
            s = uv[j], uv[(j + 1) % n], q[k], q[(k + 1) % m]
            if ref.segments_cross_properly(*s):
                proper += 1
            elif ref.segments_intersect(*s):
                contact += 1
    one_cut = proper == 2 and contact == 0  # the cutter's outline passes through exactly once
    a = None
    if one_cut:
        ctx.count("cutter-once")
        a, b = slice_polygon(P, qp)
        inter = float(ref.overlap_area2(uv, q)) / 2 * emb.jac
        ctx.require(
            min(abs(a.area - inter), abs(b.area - inter)) <= 1e-9 * (1 + lp.area), "cutter-overlap",
            "no part is the overlap with the cutter", got=[a.area, b.area], expected=inter,
        )
    else:
        try:
            a, b = slice_polygon(P, qp)
        except Exception:
            ctx.count("cutter-refused")
    for x, y in zip(keep, (qp, P.pts)):
        ctx.require(np.array_equal(x, y), "mutated", "slicing changed its input")
    if a is None:
        return
    ctx.count("cutter-partition")
    ctx.require(
        np.allclose(a.vn, lp.n, atol=1e-9) and np.allclose(b.vn, lp.n, atol=1e-9), "cutter-normal", "a part has another normal"
    )
    ctx.require(
        a.area > 0 and b.area > 0 and abs(a.area + b.area - lp.area) <= 1e-9 * (1 + lp.area),
        "cutter-area", "areas of the parts do not add up", got=[a.area, b.area], whole=lp.area,
    )
    frame = ref.plane_frame(lp.pts)
    A2, B2 = ([ref.project2(frame, p)[0] for p in X.pts] for X in (a, b))
    us, vs = [p[0] for p in uv], [p[1] for p in uv]
    for _ in range(40):
        p = (int(rng.integers(min(us), max(us) + 1)) + 0.37, int(rng.integers(min(vs), max(vs) + 1)) + 0.41)
        xy = ref.project2(frame, emb.pt(p))[0]
        whole = ref.locate(p, uv)
        ia, da = ref.pip_float(xy, A2)
        ib, db = ref.pip_float(xy, B2)
        if min(da, db) < 1e-6:
            continue
        ctx.require(
            (ia + ib) == (1 if whole == "in" else 0), "cutter-partition", "parts overlap, leave a gap or reach outside",
            point=emb.pt(p), got=[ia, ib], parts=[a.pts, b.pts],
        )

"""P23: compiled and interpreted geometry agree on every input."""
import numpy as np

from building3d.geom.polygon import Polygon

from vlib import calls, gen, ref
from vlib.common import Skip
from vlib.polys import random_lp
from vlib.server import Server, ServerDied

LEVEL = "exploration"
RULE = (
    "every numeric routine that can be compiled is called with generated lattice, slanted, rotated and degenerate arguments, interpreted "
    "in this process and compiled with the bounds-check sanitizer in a second one; results, refusals and arguments are compared. "
    "Distinct = different routine and arguments."
)
ASSUMPTIONS = [
    "results agree to 1e-9; where the interpreted answer itself changes under a perturbation of 1e-11 the answers are not compared",
]
PLAN = {"quick": (640, 75), "thorough": (20000, 660)}
REQUIRE = {"calls": 5000, "routines": 45, "refused": 20}
CASE_CPU_S = 120
SERVER = None
G = "building3d.geom."


def pt(rng):
    k = rng.random()
    if k < 0.5:
        return rng.integers(-8, 9, 3) / 4.0
    if k < 0.9:
        return rng.uniform(-3, 3, 3)
    return rng.choice([0.0, 1.0, -1.0], 3)


def vec(rng):
    if rng.random() < 0.05:
        return np.zeros(3)
    v = pt(rng)
    return v / np.linalg.norm(v) if rng.random() < 0.5 and v.any() else v


def near(rng, *ps):
    """A point related to the given ones."""
    k = int(rng.integers(5))
    if k == 0:
        return ps[int(rng.integers(len(ps)))].copy()
    if k == 1:
        w = rng.choice([0.25, 0.5, 0.75, -0.5, 1.5])
        a, b = ps[int(rng.integers(len(ps)))], ps[int(rng.integers(len(ps)))]
        return a + w * (b - a)
    if k == 2:
        w = rng.dirichlet(np.ones(len(ps)))
        return w @ np.array(ps)
    if k == 3:
        return ps[0] + rng.normal(size=3) * 1e-3
    return pt(rng)


def poly(rng):
    lp = random_lp(rng, size=6)
    P = Polygon(lp.pts.copy())
    return np.ascontiguousarray(P.pts), np.ascontiguousarray(P.tri), np.ascontiguousarray(P.vn)


def two(rng):
    """Two polygons, often in one plane."""
    lp = random_lp(rng, size=5)
    P = Polygon(lp.pts.copy())
    k = rng.random()
    if k < 0.3:
        uv, _ = gen.shape(rng, size=5)
        d = rng.integers(-3, 4, 2)
        Q = Polygon(lp.emb.pts([(u + int(d[0]), v + int(d[1])) for u, v in uv]))
    elif k < 0.6:
        Q = P.flip()
    elif k < 0.8:
        Q = Polygon(P.pts + (P.pts[1] - P.pts[0]) * float(rng.choice([0.5, 1.0, 0.25])))
    else:
        Q = Polygon(random_lp(rng, size=5).pts.copy())
    c = np.ascontiguousarray
    return (c(P.pts), c(P.tri), c(P.vn)), (c(Q.pts), c(Q.tri), c(Q.vn))


def query(rng, pts, vn):
    k = rng.random()
    p = near(rng, *[q for q in pts])
    if k < 0.7:
        return p
    return p + vn * float(rng.choice([0.5, -1.0, 1e-3]))


def collinear(rng):
    a, d = pt(rng), vec(rng)
    n = int(rng.integers(2, 6))
    ts = rng.integers(-4, 5, n) / 2.0
    out = np.array([a + t * d for t in ts])
    if rng.random() < 0.4:
        out[-1] += vec(rng) * float(rng.choice([1.0, 1e-3]))
    return out


def coplanar(rng):
    p = poly(rng)[0]
    if rng.random() < 0.4:
        p = p.copy()
        p[int(rng.integers(len(p)))] += vec(rng) * float(rng.choice([1.0, 1e-3]))
    return p


def box(rng):
    a, b = pt(rng), pt(rng)
    lo, hi = np.minimum(a, b), np.maximum(a, b) + 0.25
    return tuple(float(v) for v in lo), tuple(float(v) for v in hi)


def bb(rng):
    a, b = pt(rng), pt(rng)
    return np.minimum(a, b), np.maximum(a, b)


def segs(rng, n):
    return np.ascontiguousarray(np.array([[pt(rng), pt(rng)] for _ in range(n)]))


def with_poly(f):
    def g(rng):
        return f(rng, *poly(rng))
    return g


def chain(rng, pts):
    n = int(rng.integers(2, 5))
    return np.ascontiguousarray(np.array([near(rng, *[q for q in pts]) for _ in range(n)]))


def edges_of(pts):
    return np.ascontiguousarray(np.stack([pts, np.roll(pts, -1, axis=0)], axis=1))


def rot_plane(rng):
    pts, _, vn = poly(rng)
    u = vec(rng)
    if not u.any():
        u = np.array([0.0, 0.0, 1.0])
    u = u / np.linalg.norm(u)
    return pts, pts[0].copy(), (u if rng.random() < 0.7 else vn * float(rng.choice([1, -1]))), float(rng.choice([0.0, 1.0, -0.5]))


def facing(rng):
    a, b = two(rng)
    return a[0], a[2], b[0], b[2]


def four(rng):
    a, b = two(rng)
    return a[0], a[1], b[0], b[1]


def seg_pair(rng):
    a, b, c = pt(rng), pt(rng), pt(rng)
    return a, b, near(rng, a, b), near(rng, a, b, c)


def lines(rng):
    a, d = pt(rng), vec(rng)
    b, e = near(rng, a, a + d), vec(rng)
    if rng.random() < 0.2:
        e = d * float(rng.choice([1.0, -2.0]))
    return a, d, b, e


CALLS = {
    G + "polygon.plane:projection_coefficients": lambda r: (pt(r), vec(r)),
    G + "polygon.plane:plane_coefficients": with_poly(lambda r, p, t, n: (p,)),
    G + "polygon.facing:are_polygons_facing": facing,
    G + "polygon.centroid:polygon_centroid": with_poly(lambda r, p, t, n: (p, t)),
    G + "polygon.touching:are_polygons_touching": four,
    G + "polygon.crossing:are_polygons_crossing": four,
    G + "polygon.crossing:is_line_segment_crossing_polygon": with_poly(lambda r, p, t, n: (query(r, p, n), query(r, p, n), p, t)),
    G + "polygon.crossing:is_polygon_crossing_cube": with_poly(lambda r, p, t, n: (p, t) + box(r)),
    G + "polygon.edges:polygon_edges": with_poly(lambda r, p, t, n: (p,)),
    G + "polygon.ispointinside:is_point_at_boundary": with_poly(lambda r, p, t, n: (query(r, p, n), p)),
    G + "polygon.ispointinside:is_point_inside": with_poly(lambda r, p, t, n: (query(r, p, n), p, t, bool(r.random() < 0.5))),
    G + "polygon.ispointinside:is_point_inside_margin": with_poly(lambda r, p, t, n: (query(r, p, n), float(r.choice([0.0, 0.1, 0.5])), p, t)),
    G + "polygon.ispointinside:is_point_inside_ortho_projection": with_poly(lambda r, p, t, n: (query(r, p, n), p, t)),
    G + "polygon.ispointinside:is_point_inside_projection": with_poly(lambda r, p, t, n: (query(r, p, n), vec(r), p, t, bool(r.random() < 0.5))),
    G + "polygon.distance:distance_point_to_polygon": with_poly(lambda r, p, t, n: (query(r, p, n), p, t, n)),
    G + "polygon.slice.remove_redundant_points:remove_redundant_points": with_poly(lambda r, p, t, n: (chain(r, p), p, t)),
    G + "polygon.slice.locate_slicing_points:locate_slicing_points": with_poly(lambda r, p, t, n: (chain(r, p), p, t, edges_of(p))),
    G + "polygon.area:polygon_area": with_poly(lambda r, p, t, n: (p, n)),
    G + "bboxes:bounding_box": with_poly(lambda r, p, t, n: (p,)),
    G + "bboxes:is_point_inside_bbox": with_poly(lambda r, p, t, n: (query(r, p, n), p)),
    G + "bboxes:are_bboxes_overlapping": lambda r: (bb(r), bb(r)),
    G + "bboxes:cube_edges": lambda r: box(r),
    G + "bboxes:cube_polygons": lambda r: box(r),
    G + "triangles:triangle_area": lambda r: (lambda a, b: (a, b, near(r, a, b)))(pt(r), pt(r)),
    G + "triangles:triangle_centroid": lambda r: (pt(r), pt(r), pt(r)),
    G + "triangles:is_point_on_same_side": lambda r: (lambda a, b: (a, b, near(r, a, b), near(r, a, b)))(pt(r), pt(r)),
    G + "triangles:is_point_inside": lambda r: (lambda a, b, c: (near(r, a, b, c), a, b, c))(pt(r), pt(r), pt(r)),
    G + "triangles:is_corner_convex": with_poly(lambda r, p, t, n: (p[0], p[1], p[2], n) if r.random() < 0.5 else (p[-2], p[-1], p[0], n)),
    G + "triangles:triangulate": with_poly(lambda r, p, t, n: (p, n if r.random() < 0.85 else -n)),
    G + "points.visibility:visibility_matrix": lambda r: (lambda p: (p, edges_of(p)) if r.random() < 0.6 else (p, edges_of(p), segs(r, 2)))(poly(r)[0]),
    G + "points.visibility:are_points_visible": lambda r: (lambda p: (p[0], near(r, *[q for q in p]), edges_of(p)))(poly(r)[0]),
    G + "points.intersections:line_intersection": lines,
    G + "points.intersections:line_segment_intersection": seg_pair,
    G + "points:new_point": lambda r: tuple(float(v) for v in pt(r)),
    G + "points:is_valid_pt": lambda r: (pt(r),),
    G + "points:is_point_in_array": with_poly(lambda r, p, t, n: (query(r, p, n), p)),
    G + "points:roll_forward": with_poly(lambda r, p, t, n: (p,)),
    G + "points:points_equal": lambda r: (lambda a: (a, near(r, a, a) if r.random() < 0.7 else a + 1e-14))(pt(r)),
    G + "points:are_points_coplanar": lambda r: (coplanar(r),),
    G + "points:are_points_collinear": lambda r: (collinear(r),),
    G + "points:new_point_between_2_points": lambda r: (pt(r), pt(r), float(r.choice([0.0, 0.25, 1.0, -1.0, 1.5]))),
    G + "points:many_new_points_between_2_points": lambda r: (pt(r), pt(r), int(r.integers(0, 6))),
    G + "points:is_point_on_segment": lambda r: (lambda a, b: (near(r, a, b), a, b))(pt(r), pt(r)),
    G + "points.distance:distance_point_to_edge": lambda r: (lambda a, b: (near(r, a, b), a, b if r.random() < 0.9 else a.copy()))(pt(r), pt(r)),
    G + "points.find_close_pairs:find_close_pairs": lambda r: (lambda a, b: (a[0], b[0], int(r.integers(1, 5)), bool(r.random() < 0.6)))(*two(r)),
    G + "rotation:rotation_matrix": lambda r: (vec(r), float(r.uniform(-7, 7))),
    G + "rotation:rotate_points_around_vector": with_poly(lambda r, p, t, n: (p, vec(r), float(r.choice([0.0, np.pi / 2, 1.0, -3.0])))),
    G + "rotation:rotate_points_to_plane": rot_plane,
    G + "vectors:new_vector": lambda r: tuple(float(v) for v in pt(r)),
    G + "vectors:normal": lambda r: (lambda a, b: (a, b, near(r, a, b)))(pt(r), pt(r)),
    G + "vectors:angle": lambda r: (vec(r), vec(r)),
    G + "tetrahedrons:tetrahedron_volume": lambda r: (lambda a, b, c: (a, b, c, near(r, a, b, c)))(pt(r), pt(r), pt(r)),
    G + "tetrahedrons:tetrahedron_centroid": lambda r: (pt(r), pt(r), pt(r), pt(r)),
}
NAMES = sorted(CALLS, key=lambda n: (n.split(":")[1], n))
while len(NAMES) % 8:
    NAMES.append(NAMES[len(NAMES) % 8])  # a routine always belongs to the same worker


def setup(ctx):
    global SERVER
    SERVER = Server(NUMBA_NUM_THREADS=1, NUMBA_BOUNDSCHECK=1)
    ctx.routines = set()


def perturbed(rng, args):
    """Arguments with relative changes up to 1e-11."""
    size = float(rng.choice([1e-14, 1e-13, 1e-12, 1e-11]))

    def go(a):
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            return a + rng.uniform(-1, 1, a.shape) * size * (1 + np.abs(a))
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    return tuple(go(a) for a in args)


def stable(rng, f, args, res):
    """Whether the interpreted answer survives tiny perturbations."""
    for _ in range(60):
        r = calls.one(f, perturbed(rng, args))
        if r[0] != res[0] or (r[0] == "ok" and not calls.same(r[1], res[1], 1e-6, 1e-7)):
            return False
    return True


def case(ctx, i, rng):
    name = NAMES[i % len(NAMES)]
    f = calls.lookup(name)
    if f is None:
        ctx.count("unavailable")
        raise Skip("no such routine")
    batch = []
    while len(batch) < 25:
        batch.append(CALLS[name](rng))
    ctx.info(routine=name)
    here = [calls.one(f, a) for a in batch]
    try:
        res = SERVER.call("vlib.calls:many", name, batch)
    except ServerDied as e:
        setup(ctx)
        ctx.fail("crash", "compiled code crashed the interpreter", routine=name, status=str(e))
    if res[0] != "ok":
        raise RuntimeError("server: %s %s" % res[1:])
    if name not in ctx.routines:
        ctx.routines.add(name)
        ctx.count("routines")
    for a, x, y in zip(batch, here, res[1]):
        ctx.count("calls")
        ctx.distinct(name, str(a))
        short = name.split(":")[1]
        if x[0] == "error":
            ctx.count("refused")
        if x[0] != y[0]:
            if not stable(rng, f, a, x):
                ctx.count("unstable")
                continue
            ctx.fail("refusal-" + short, "one execution mode refuses an input that the other accepts", routine=name, arguments=list(a), interpreted=x[:2], compiled=y[:2])
        if x[0] == "error":
            ctx.count("monitor_evaluations")
            continue
        ctx.count("monitor_evaluations")
        if not calls.same(x[1], y[1]):
            if not stable(rng, f, a, x):
                ctx.count("unstable")
                continue
            ctx.fail("result-" + short, "compiled and interpreted results differ", routine=name, arguments=list(a), interpreted=x[1], compiled=y[1])
        ctx.require(x[2] and y[2], "argument-" + short, "a routine changed its arguments", routine=name, arguments=list(a), interpreted=x[2], compiled=y[2])
    ctx.sample(dict(routine=name, arguments=list(batch[0])))

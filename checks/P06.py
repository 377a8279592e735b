"""P06: rotations, vectors, point helpers, tetrahedra and boxes against their definitions."""
import math
from fractions import Fraction as F

import numpy as np

from building3d.geom.points import (
    are_points_collinear,
    are_points_coplanar,
    is_point_in_array,
    many_new_points_between_2_points,
    new_point,
    new_point_between_2_points,
    points_equal,
    roll_forward,
)
from building3d.geom.rotation import rotate_points_around_vector, rotate_points_to_plane
from building3d.geom.tetrahedrons import tetrahedron_centroid, tetrahedron_volume
from building3d.geom.triangles import triangle_area, triangle_centroid
from building3d.geom.vectors import angle, new_vector, normal

from vlib import optional

are_bboxes_overlapping = optional.load("building3d.geom.bboxes:are_bboxes_overlapping")
bounding_box = optional.load("building3d.geom.bboxes:bounding_box")
is_point_inside_bbox = optional.load("building3d.geom.bboxes:is_point_inside_bbox")

LEVEL = "exploration"
RULE = (
    "random point sets, axes, angles (also 0, right angles, full turns, tiny), planes (also parallel and anti-parallel), anchors; "
    "integer tetrahedra, triangles, lines and planes decided exactly; repeated points. Distinct = different drawn input."
)
ASSUMPTIONS = ["tests with a tolerance are queried only clearly inside or clearly outside it"]
PLAN = {"quick": (100000, 60), "thorough": (1500000, 500)}
REQUIRE = {"rotation": 500, "to_plane": 300, "parallel_plane": 100, "tetra": 500, "flat_tetra": 50, "collinear": 200, "coplanar": 200, "bbox": 300}


def unit(rng):
    v = rng.normal(size=3)
    if rng.random() < 0.3:
        v = np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1]))
    return v / np.linalg.norm(v)


def rigid(a, b):
    """max difference of mutual distances, and of signed volumes of point quadruples."""
    da = np.linalg.norm(a[:, None] - a[None], axis=2)
    db = np.linalg.norm(b[:, None] - b[None], axis=2)
    w = 0.0
    for k in range(len(a) - 3):
        va = np.dot(a[k + 1] - a[k], np.cross(a[k + 2] - a[k], a[k + 3] - a[k]))
        vb = np.dot(b[k + 1] - b[k], np.cross(b[k + 2] - b[k], b[k + 3] - b[k]))
        w = max(w, abs(va - vb))
    return float(np.max(np.abs(da - db))), w


def rodrigues(p, u, phi):
    return p * math.cos(phi) + np.cross(u, p) * math.sin(phi) + np.outer(p @ u, u) * (1 - math.cos(phi))


def rotation(ctx, rng):
    n = int(rng.integers(4, 9))
    pts = rng.uniform(-10, 10, (n, 3))
    u = unit(rng)
    phi = float(rng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi, 2 * math.pi, 1e-6, rng.uniform(-7, 7), rng.uniform(-7, 7)]))
    ctx.info(pts=pts, u=u, phi=phi)
    ctx.distinct("rot", pts.tobytes(), phi)
    ctx.count("rotation")
    keep = pts.copy(), u.copy()
    out, R = rotate_points_around_vector(pts, u, phi)
    out, R = np.array(out), np.array(R)
    ctx.require(np.array_equal(pts, keep[0]) and np.array_equal(u, keep[1]), "rot-mutated", "rotation changed its input")
    ctx.require(np.allclose(out, rodrigues(pts, u, phi), atol=1e-9), "rot-value", "rotated points are wrong", got=out)
    d, w = rigid(pts, out)
    ctx.require(d < 1e-9 and w < 1e-6, "rot-rigid", "rotation changes distances or handedness", got=[d, w])
    ctx.require(np.allclose(pts @ R.T, out, atol=1e-9), "rot-matrix", "the returned matrix is not the rotation applied", got=R, phi=phi)
    ax = np.vstack([u * t for t in (-2.0, 0.0, 3.0)])
    ctx.require(np.allclose(rotate_points_around_vector(ax, u, phi)[0], ax, atol=1e-9), "rot-axis", "points on the axis move")
    back, _ = rotate_points_around_vector(out, u, -phi)
    ctx.require(np.allclose(back, pts, atol=1e-9), "rot-inverse", "turning back does not restore the points")
    psi = float(rng.uniform(-3, 3))
    ctx.require(
        np.allclose(rotate_points_around_vector(out, u, psi)[0], rotate_points_around_vector(pts, u, phi + psi)[0], atol=1e-9),
        "rot-compose", "rotations about one axis do not add up",
    )


def to_plane(ctx, rng):
    n = int(rng.integers(3, 8))
    # planar points with a well-defined first corner
    a, b = unit(rng), unit(rng)
    while np.linalg.norm(np.cross(a, b)) < 0.2:
        b = unit(rng)
    k = np.cross(a, b)
    k /= np.linalg.norm(k)
    b = np.cross(k, a)
    ang = np.sort(rng.uniform(0, 2 * math.pi, n))
    while np.min(np.diff(np.append(ang, ang[0] + 2 * math.pi))) < 0.15:
        ang = np.sort(rng.uniform(0, 2 * math.pi, n))
    rad = rng.uniform(1, 5)
    pts = rng.uniform(-5, 5, 3) + rad * (np.outer(np.cos(ang), a) + np.outer(np.sin(ang), b))
    pn = k  # normal of the first corner of a convex counter-clockwise outline
    mode = int(rng.integers(0, 4))
    u = unit(rng)
    if mode == 0:
        u = pn.copy()
        ctx.count("parallel_plane")
    elif mode == 1:
        u = -pn
        ctx.count("parallel_plane")
    anchor = np.zeros(3) if rng.random() < 0.4 else rng.uniform(-4, 4, 3)
    if rng.random() < 0.2:
        anchor = pts[int(rng.integers(n))].copy()
    d = float(rng.choice([0.0, rng.uniform(-3, 3)]))
    ctx.info(pts=pts, anchor=anchor, u=u, d=d, normal=pn)
    ctx.distinct("plane", pts.tobytes(), mode, d)
    ctx.count("to_plane")
    keep = pts.copy(), anchor.copy(), u.copy()
    out, axis, phi = rotate_points_to_plane(pts, anchor, u, d)
    ctx.require(
        all(np.array_equal(x, y) for x, y in zip(keep, (pts, anchor, u))), "plane-mutated", "moving points to a plane changed the input"
    )
    dd, _ = rigid(pts, out)
    ctx.require(dd < 1e-7, "plane-rigid", "moving points to a plane distorts them", got=dd)
    h = (out - anchor) @ u
    # the rotated set is planar with normal u: constant height over the plane through the anchor
    ctx.require(np.ptp(h) < 1e-6, "plane-normal", "points are not on a plane with the requested normal", got=h)
    ctx.require(
        abs(abs(h[0] - d) - abs(float((pts[0] - anchor) @ pn))) < 1e-6, "plane-distance",
        "the plane is not at the requested distance", got=float(h[0]), d=d,
    )
    if float(u @ pn) > -0.999999:
        q = ref_normal(out)
        ctx.require(np.allclose(q, u, atol=1e-6), "plane-side", "outline does not face along the requested normal", got=q)
    if mode == 0:
        ctx.require(np.allclose(out, pts + u * d, atol=1e-6), "plane-parallel", "points already parallel to the plane were moved", got=out, expected=pts + u * d)
    # consistent with the reported axis and angle
    if np.linalg.norm(axis) > 0.5:
        ctx.require(
            np.allclose(out, rodrigues(pts - anchor, axis, phi) + anchor + u * d, atol=1e-6), "plane-axis",
            "reported axis and angle do not describe the move",
        )
    else:
        ctx.require(abs(phi) < 1e-6, "plane-angle", "angle reported without an axis", got=phi)


def ref_normal(p):
    s = sum((np.cross(p[i] - p[0], p[i + 1] - p[0]) for i in range(1, len(p) - 1)), np.zeros(3))
    return s / np.linalg.norm(s)


def tetra(ctx, rng):
    p = rng.integers(-8, 9, (4, 3))
    flat = rng.random() < 0.2
    if flat:
        a, b = (int(v) for v in rng.integers(-2, 3, 2))
        p[3] = p[0] + a * (p[1] - p[0]) + b * (p[2] - p[0])
        ctx.count("flat_tetra")
    s = float(rng.choice([1.0, 0.25, 0.1]))
    off = rng.uniform(-5, 5, 3) if rng.random() < 0.5 else np.zeros(3)
    q = p * s + off
    exact = abs(int(round(np.linalg.det((p[1:] - p[0]).astype(float))))) / 6.0
    e = [[int(x) for x in r] for r in (p[1:] - p[0])]
    det = (
        e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1])
        - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0])
        + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0])
    )
    exact = abs(det) / 6.0 * s**3
    ctx.info(points=q)
    ctx.distinct("tetra", p.tobytes(), s)
    ctx.count("tetra")
    keep = q.copy()
    for perm in ((0, 1, 2, 3), tuple(int(x) for x in rng.permutation(4))):
        v = float(tetrahedron_volume(*(q[k] for k in perm)))
        # a nearly flat tetrahedron may lose half the digits
        ctx.require(abs(v - exact) <= 1e-8 * max(1.0, exact) * 10, "tetra-volume", "wrong tetrahedron volume", got=v, expected=exact)
    ctx.require(np.allclose(tetrahedron_centroid(*q), q.mean(axis=0), atol=1e-12), "tetra-centre", "wrong tetrahedron centre")
    # triangle
    cr = np.cross(p[1] - p[0], p[2] - p[0])
    area = math.sqrt(int(cr @ cr)) / 2 * s * s
    a = float(triangle_area(q[0], q[1], q[2]))
    ctx.require(abs(a - area) <= 1e-8 * max(1.0, area) * 10, "triangle-area", "wrong triangle area", got=a, expected=area)
    ctx.require(np.allclose(triangle_centroid(q[0], q[1], q[2]), q[:3].mean(axis=0), atol=1e-12), "triangle-centre", "wrong triangle centre")
    n = np.array(normal(q[0], q[1], q[2]))
    if int(cr @ cr) == 0:
        ctx.count("normal_undefined")
        ctx.require(np.isnan(n).all(), "normal-collinear", "normal reported for collinear points", got=n)
    else:
        ctx.require(np.allclose(n, cr / np.linalg.norm(cr), atol=1e-9), "normal", "wrong normal", got=n)
        v1, v2 = (q[1] - q[0]), (q[2] - q[0])
        exp = math.atan2(float(np.linalg.norm(np.cross(v1, v2))), float(v1 @ v2))
        g = float(angle(v1, v2))
        ctx.require(abs(g - exp) < 1e-6 and abs(float(angle(v2, v1)) - g) < 1e-12, "angle", "wrong angle", got=g, expected=exp)
    v = rng.normal(size=3)
    ctx.require(float(angle(v, 3 * v)) < 1e-6, "angle-parallel", "angle between parallel vectors is not zero")
    ctx.require(abs(float(angle(v, -2 * v)) - math.pi) < 1e-6, "angle-opposite", "angle between opposite vectors is not a half turn")
    ctx.require(np.array_equal(q, keep), "tetra-mutated", "input changed")


def lines(ctx, rng):
    n = int(rng.integers(3, 8))
    o = rng.integers(-6, 7, 3)
    d = rng.integers(-3, 4, 3)
    while not d.any():
        d = rng.integers(-3, 4, 3)
    t = rng.integers(-4, 5, n)
    p = (o + np.outer(t, d)).astype(float)
    rep = len(set(t.tolist())) < n
    if rep:
        ctx.count("repeated_points")
    if rng.random() < 0.5:
        k = int(rng.integers(n))
        w = rng.integers(-3, 4, 3)
        p[k] += w
    sc = float(rng.choice([1.0, 0.5, 0.125]))
    p = p * sc
    rank = exact_rank(p)
    ctx.info(points=p, rank=rank)
    ctx.distinct("line", p.tobytes())
    ctx.count("collinear")
    keep = p.copy()
    ctx.require(bool(are_points_collinear(p)) == (rank <= 1), "collinear", "wrong collinearity answer", rank=rank, got=bool(are_points_collinear(p)))
    # many points on a line or a plane, at most one of them off it
    m = int(rng.integers(4, 41))
    e = rng.integers(-3, 4, 3)
    w = np.cross(d, e)
    if w.any():
        dev = 2.0 ** -int(rng.integers(0, 18))
        ts = rng.permutation(np.arange(-m, m + 1))[:m]
        L = (o + np.outer(ts, d)).astype(float)
        off = rng.random() < 0.6
        if off:
            L[int(rng.integers(m))] += (w if rng.random() < 0.5 else e) * dev
        ctx.info(many=L)
        aside = float(np.linalg.norm(w) / np.linalg.norm(d)) * dev  # distance of the moved point from the line, or more
        if not off or aside > 1e-3 * np.ptp(L, axis=0).max():
            ctx.require(
                bool(are_points_collinear(L)) == (exact_rank(L) <= 1), "collinear-many", "wrong collinearity answer", num=m, off=off, deviation=dev
            )
        st = np.column_stack([rng.permutation(np.arange(-m, m + 1))[:m], rng.integers(-6, 7, m)])
        Q = (o + np.outer(st[:, 0], d) + np.outer(st[:, 1], e)).astype(float)
        if off:
            Q[int(rng.integers(m))] += w * dev
        ctx.info(many=Q)
        rk = exact_rank(Q)
        if max(exact_rank(Q[k : k + 3]) for k in range(m - 2)) == 2:
            ctx.count("coplanar_many")
            ctx.require(
                bool(are_points_coplanar(Q)) == (rk <= 2), "coplanar-many", "wrong coplanarity answer", num=m, off=off, deviation=dev, rank=rk
            )
        # corners and the middles of the sides of a quadrilateral or pentagon, flat or skew
        m = int(rng.integers(4, 6))
        C = 2 * (o + np.outer(rng.permutation(np.arange(-5, 6))[:m], d) + np.outer(rng.permutation(np.arange(-5, 6))[:m], e))
        if off:
            C[int(rng.integers(m))] += 2 * w
        Q = np.array([x for k in range(m) for x in (C[k], (C[k] + C[(k + 1) % m]) // 2)], dtype=float)
        if rng.random() < 0.5:
            Q = np.roll(Q, 1, axis=0)
        ctx.info(many=Q)
        if max(exact_rank(Q[k : k + 3]) for k in range(len(Q) - 2)) == 2:
            ctx.require(bool(are_points_coplanar(Q)) == (exact_rank(Q) <= 2), "coplanar-sides", "wrong coplanarity answer", off=off)
    # planes, without repeated points
    m = int(rng.integers(4, 9))
    e = rng.integers(-3, 4, 3)
    st = rng.integers(-4, 5, (m, 2))
    if len({tuple(r) for r in st.tolist()}) == m and np.cross(d, e).any():
        P = (o + np.outer(st[:, 0], d) + np.outer(st[:, 1], e)).astype(float)
        if rng.random() < 0.5:
            P[int(rng.integers(m))] += np.cross(d, e) * float(rng.choice([1, -1]))
        P = P * sc
        rk = exact_rank(P)
        trip = [exact_rank(P[k : k + 3]) for k in range(m - 2)]
        if max(trip) == 2:
            ctx.count("coplanar")
            ctx.info(plane_points=P)
            g = bool(are_points_coplanar(P))
            ctx.require(g == (rk <= 2), "coplanar", "wrong coplanarity answer", rank=rk, got=g)
    ctx.require(bool(are_points_coplanar(p[:3])), "coplanar-3", "three points not coplanar")
    ctx.require(np.array_equal(p, keep), "line-mutated", "input changed")
    # subdivision
    a, b = rng.uniform(-5, 5, (2, 3))
    r = float(rng.choice([0.0, 1.0, 0.5, rng.uniform()]))
    ctx.require(np.allclose(new_point_between_2_points(a, b, r), a + r * (b - a), atol=1e-12), "between", "wrong intermediate point")
    num = int(rng.integers(0, 7))
    s = np.array(many_new_points_between_2_points(a, b, num))
    ctx.require(
        s.shape == (num + 2, 3) and np.allclose(s, a + np.linspace(0, 1, num + 2)[:, None] * (b - a), atol=1e-12)
        and np.array_equal(s[0], a) and np.array_equal(s[-1], b),
        "subdivide", "wrong subdivision of a segment", got=s,
    )
    # lists of points
    n = int(rng.integers(1, 40))
    arr = rng.uniform(-5, 5, (n, 3))
    keep = arr.copy()
    ctx.require(np.array_equal(roll_forward(arr), np.roll(keep, 1, axis=0)) and np.array_equal(arr, keep), "roll", "wrong rolled list")
    k = int(rng.integers(n))
    ctx.require(bool(is_point_in_array(arr[k].copy(), arr)), "in-array", "listed point not found", index=k)
    z = arr[k] + np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1])) * 0.01
    if np.min(np.linalg.norm(arr - z, axis=1)) > 5e-3:
        ctx.require(not is_point_in_array(z, arr), "not-in-array", "point found that is not listed")
        ctx.require(not points_equal(z, arr[k]), "points-equal", "different points reported equal")
    ctx.require(bool(points_equal(arr[k], arr[k].copy())), "points-equal-same", "equal points reported different")
    keys(ctx, rng, arr[k])
    x, y, zz = (float(v) for v in rng.uniform(-5, 5, 3))
    ctx.require(np.array_equal(new_point(x, y, zz), [x, y, zz]) and np.array_equal(new_vector(x, y, zz), [x, y, zz]), "new", "wrong coordinates")


def keys(ctx, rng, p):
    """Rounded coordinates and hashes of points."""
    to_tuple, to_hash = optional.get("building3d.geom.points:point_to_tuple"), optional.get("building3d.geom.points:point_to_hash")
    if to_tuple is None or to_hash is None:
        return
    dec = int(rng.integers(1, 9))
    q = np.round(p, dec) if rng.random() < 0.5 else p.copy()
    keep = q.copy()
    t = to_tuple(q, decimals=dec)
    ctx.require(len(t) == 3 and np.allclose(t, np.round(keep, dec), atol=1e-12), "tuple", "wrong rounded coordinates", got=t, point=keep, decimals=dec)
    near = np.round(p, dec) + rng.uniform(-0.3, 0.3, 3) * 10.0**-dec
    ctx.require(to_hash(near, decimals=dec) == to_hash(np.round(p, dec), decimals=dec), "hash", "points with equal rounded coordinates have different hashes", point=near, decimals=dec)
    far = np.round(p, dec) + np.eye(3)[int(rng.integers(3))] * 10.0**-dec
    ctx.require(to_hash(far, decimals=dec) != to_hash(np.round(p, dec), decimals=dec), "hash", "different points have the same hash", point=far, decimals=dec)
    ctx.require(np.array_equal(q, keep), "tuple-input", "rounding changed the point itself")


def exact_rank(p):
    """Dimension of the affine hull (coordinates are dyadic, so this is exact)."""
    rows = [[F(float(a)) - F(float(b)) for a, b in zip(r, p[0])] for r in p[1:]]
    rank, col = 0, 0
    while rows and col < 3:
        piv = next((r for r in rows if r[col] != 0), None)
        if piv is not None:
            rank += 1
            rows = [[x - r[col] / piv[col] * y for x, y in zip(r, piv)] for r in rows if r is not piv]
        col += 1
    return rank


def boxes(ctx, rng):
    n = int(rng.integers(1, 9))
    p = rng.integers(-6, 7, (n, 3)).astype(float) * float(rng.choice([1.0, 0.1]))
    q = rng.integers(-6, 7, (int(rng.integers(1, 9)), 3)).astype(float) * float(rng.choice([1.0, 0.1]))
    ctx.info(p=p, q=q)
    ctx.distinct("box", p.tobytes(), q.tobytes())
    ctx.count("bbox")
    lo, hi = bounding_box(p)
    ctx.require(np.array_equal(lo, p.min(axis=0)) and np.array_equal(hi, p.max(axis=0)), "bbox", "wrong bounding box", got=[lo, hi])
    L, H = bounding_box(q)
    exp = bool((p.max(0) >= q.min(0)).all() and (q.max(0) >= p.min(0)).all())
    ctx.require(
        bool(are_bboxes_overlapping((lo, hi), (L, H))) == exp and bool(are_bboxes_overlapping((L, H), (lo, hi))) == exp,
        "bbox-overlap", "wrong bounding-box overlap answer", expected=exp,
    )
    for _ in range(6):
        t = np.array([float(rng.choice([lo[k], hi[k], 0.5 * (lo[k] + hi[k]), lo[k] - 1e-3, hi[k] + 1e-3])) for k in range(3)])
        exp = bool((t >= lo).all() and (t <= hi).all())
        ctx.require(bool(is_point_inside_bbox(t, p)) == exp, "in-bbox", "wrong answer whether a point is in the bounding box", point=t)


def case(ctx, i, rng):
    (rotation, to_plane, tetra, lines, boxes)[i % 5](ctx, rng)

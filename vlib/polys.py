"""Polygon workloads shared by several checks, and the polygon monitor."""

from collections import Counter

import numpy as np

from . import gen, ref


class LP:
    """A lattice polygon placed in space: exact description + float points."""

    def __init__(self, uv, emb, desc):
        self.uv = list(uv)
        self.emb = emb
        self.desc = desc
        self.pts = emb.pts(self.uv)
        self.n = emb.n if ref.area2(self.uv) > 0 else -emb.n
        self.area = abs(ref.area2(self.uv)) / 2.0 * emb.jac
        c = ref.centroid2(self.uv)
        self.ctr = emb.pt((float(c[0]), float(c[1])))

    def describe(self):
        return dict(self.desc, plane=self.emb.label, uv=self.uv, o=self.emb.o, A=self.emb.A, B=self.emb.B, unit=self.emb.unit)


def random_lp(rng, kind=None, emb=None, start="convex", collinear=None, reverse=None, size=12):
    uv, d = gen.shape(rng, kind=kind, collinear=collinear, size=size)
    emb = emb or gen.embedding(rng)
    pick = {"convex": gen.convex_starts, "reflex": gen.reflex_starts, "flat": gen.flat_starts}
    ix = pick[start](uv)
    if not ix:
        start = "convex"
        ix = gen.convex_starts(uv)
    uv = gen.roll(uv, int(rng.choice(ix)))
    if reverse is None:
        reverse = rng.random() < 0.4
    if reverse:
        uv = [uv[0]] + uv[:0:-1]
    d = dict(d, start=start, reverse=bool(reverse))
    return LP(uv, emb, d)


def tol(pts):
    """Rounding allowance for metric quantities of a polygon."""
    return 1e-9 * (1.0 + float(np.max(np.abs(pts))))


def to_lattice(lp, pts):
    """Index of every point of `pts` in lp.uv (None if it is not one of them)."""
    out = []
    for p in pts:
        d = np.linalg.norm(lp.pts - p, axis=1)
        k = int(np.argmin(d))
        out.append(k if d[k] <= tol(lp.pts) else None)
    return out


def monitor_polygon(ctx, P, lp, vn=None, tag=""):
    """Compare everything a polygon object reports with the exact shape.

    `vn` is the expected unit normal (default: right-hand rule of lp's outline).
    """
    vn = lp.n if vn is None else vn
    same_dir = float(np.dot(vn, lp.n)) > 0
    t = tol(lp.pts)
    pts = np.asarray(P.pts)
    n = len(lp.uv)

    idx = to_lattice(lp, pts)
    ctx.require(
        len(pts) == n and None not in idx,
        "points" + tag,
        "boundary points of the polygon differ from the ones given",
        got=pts,
        expected=lp.pts,
    )
    step = 1 if same_dir else -1
    ctx.require(
        all((idx[(k + 1) % n] - idx[k]) % n == step % n for k in range(n)),
        "outline" + tag,
        "boundary points are not a rotation of the given outline in the direction of the normal",
        got=idx,
    )
    ctx.require(
        np.allclose(P.vn, vn, atol=1e-9), "normal" + tag, "wrong normal vector", got=P.vn, expected=vn
    )
    ctx.require(
        abs(P.area - lp.area) <= 1e-9 * lp.area + 1e-12 + 1e-12 * lp.area * float(np.max(np.abs(lp.pts))),
        "area" + tag,
        "wrong area",
        got=P.area,
        expected=lp.area,
    )
    ctx.require(
        np.allclose(P.ctr, lp.ctr, atol=1e-8 * (1 + np.max(np.abs(lp.pts)))),
        "centroid" + tag,
        "wrong centre of mass",
        got=P.ctr,
        expected=lp.ctr,
    )
    a, b, c, d = (float(v) for v in P.plane_coefficients)
    ctx.require(
        np.allclose([a, b, c], vn, atol=1e-9)
        and np.max(np.abs(lp.pts @ np.array([a, b, c]) + d)) <= 1e-9 * (1 + np.max(np.abs(lp.pts))),
        "plane" + tag,
        "plane equation does not describe the polygon's plane along its normal",
        got=[a, b, c, d],
        normal=vn,
    )
    lo, hi = P.bbox()
    ctx.require(
        np.allclose(lo, lp.pts.min(axis=0), rtol=0, atol=1e-12) and np.allclose(hi, lp.pts.max(axis=0), rtol=0, atol=1e-12),
        "bbox" + tag,
        "bounding box is not tight",
        got=[lo, hi],
    )
    monitor_tiling(ctx, pts, np.asarray(P.tri), idx, lp, vn, same_dir, tag)
    q = np.asarray(P.get_some_interior_point())
    frame = ref.plane_frame(lp.pts)
    xy, h = ref.project2(frame, q)
    inside, dist = ref.pip_float(xy, [ref.project2(frame, p)[0] for p in lp.pts])
    ctx.require(
        inside and dist > 0 and abs(h) < 1e-9 * (1 + np.max(np.abs(lp.pts))),
        "interior-point" + tag,
        "the interior point is not inside the polygon",
        got=q,
    )


def monitor_tiling(ctx, pts, tri, idx, lp, vn, same_dir, tag=""):
    n = len(pts)
    ctx.require(
        tri.ndim == 2 and tri.shape[1] == 3 and len(tri) > 0 and tri.min() >= 0 and tri.max() < n,
        "tri-index" + tag,
        "triangle indices out of range",
        got=tri,
    )
    uv = lp.uv
    tot = 0
    edges = Counter()
    s = 1 if same_dir else -1
    orient = 1 if ref.area2(uv) > 0 else -1
    for t in tri:
        a, b, c = (uv[idx[int(k)]] for k in t)
        ar = ref.cross2(a, b, c) * orient * s
        ctx.require(ar > 0, "tri-orientation" + tag, "triangle is degenerate or faces away from the normal", got=t)
        tot += ar
        for i, j in ((0, 1), (1, 2), (2, 0)):
            edges[(int(t[i]), int(t[j]))] += 1
    ctx.require(
        tot == abs(ref.area2(uv)),
        "tri-area" + tag,
        "triangles do not add up to the area of the polygon",
        got=float(tot),
        expected=float(abs(ref.area2(uv))),
    )
    rest = Counter()
    for (i, j), k in edges.items():
        m = k - edges.get((j, i), 0)
        if m > 0:
            rest[(i, j)] = m
    expected = Counter({(i, (i + 1) % n): 1 for i in range(n)})
    ctx.require(
        rest == expected,
        "tri-tiling" + tag,
        "triangles do not tile the polygon (their outer edges are not the outline)",
        got=sorted(rest.items()),
    )


def related(rng, uv):
    """A second outline related to `uv` in some special way; returns (outline, label) or None."""
    mode = int(rng.integers(0, 13))
    n = len(uv)
    us, vs = [p[0] for p in uv], [p[1] for p in uv]
    lo, hi = (min(us), min(vs)), (max(us), max(vs))
    if mode == 0:  # thin bar across
        w = int(rng.integers(1, 4))
        if rng.random() < 0.5:
            y = int(rng.integers(lo[1] - 4, hi[1] + 4))
            q = [(lo[0] - 9, y), (hi[0] + 9, y), (hi[0] + 9, y + w), (lo[0] - 9, y + w)]
        else:
            x = int(rng.integers(lo[0] - 4, hi[0] + 4))
            q = [(x, lo[1] - 9), (x + w, lo[1] - 9), (x + w, hi[1] + 9), (x, hi[1] + 9)]
        label = "bar"
    elif mode == 1:  # triangle of its own corners
        ix = sorted(int(k) for k in rng.choice(n, 3, replace=False))
        q = [uv[k] for k in ix]
        label = "corner-triangle"
    elif mode == 2:  # subset of its corners
        k = int(rng.integers(3, n + 1))
        ix = sorted(int(v) for v in rng.choice(n, k, replace=False))
        q = [uv[j] for j in ix]
        label = "corner-subset"
    elif mode == 3:  # mirrored across the line of one of its edges (shares the edge)
        k = int(rng.integers(n))
        a, b = uv[k], uv[(k + 1) % n]
        if a[0] == b[0]:
            q = [(2 * a[0] - x, y) for x, y in uv][::-1]
        elif a[1] == b[1]:
            q = [(x, 2 * a[1] - y) for x, y in uv][::-1]
        else:
            # point reflection through the middle of the edge
            q = [(a[0] + b[0] - x, a[1] + b[1] - y) for x, y in uv]
        label = "mirror"
    elif mode == 4:  # same outline, other listing
        q = gen.roll(uv, int(rng.integers(n)))
        if rng.random() < 0.6:
            q = q[::-1]
        label = "same"
    elif mode == 5:  # one corner moved
        q = list(uv)
        k = int(rng.integers(n))
        q[k] = (q[k][0] + 4 * int(rng.integers(-2, 3)), q[k][1] + 4 * int(rng.integers(-2, 3)))
        label = "moved-corner"
    elif mode == 6:  # bounding rectangle or larger
        m = 4 * int(rng.integers(0, 3))
        q = [(lo[0] - m, lo[1] - m), (hi[0] + m, lo[1] - m), (hi[0] + m, hi[1] + m), (lo[0] - m, hi[1] + m)]
        label = "frame"
    elif mode == 7:  # half-size copy somewhere inside the bounding box
        f = [(x // 2, y // 2) for x, y in uv]
        q = [(x + int(rng.integers(-8, 9)) * 0 + lo[0] // 2 + 2 * int(0), y + lo[1] // 2) for x, y in f]
        label = "half"
    elif mode == 8:  # shifted copy
        d = (4 * int(rng.integers(-3, 4)), 4 * int(rng.integers(-3, 4)))
        q = [(x + d[0], y + d[1]) for x, y in uv]
        label = "shifted"
    elif mode == 9:  # touches one corner
        a = uv[int(rng.integers(n))]
        s = (int(rng.choice([-1, 1])), int(rng.choice([-1, 1])))
        w, h = 4 * int(rng.integers(1, 5)), 4 * int(rng.integers(1, 5))
        q = [a, (a[0] + s[0] * w, a[1]), (a[0] + s[0] * w, a[1] + s[1] * h), (a[0], a[1] + s[1] * h)]
        label = "corner-rect"
    elif mode == 10:  # extra vertex on an edge
        k = int(rng.integers(n))
        a, b = uv[k], uv[(k + 1) % n]
        m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        q = uv[: k + 1] + [m] + uv[k + 1 :]
        if rng.random() < 0.5:
            q = q[::-1]
        label = "extra-vertex"
    elif mode == 11:  # the same corners connected in another order
        q, label = reconnected(rng, uv), "reconnected"
        if q is None:
            return None
    else:  # convex-ish triangle crossing at random
        q = [(int(rng.integers(lo[0] - 6, hi[0] + 7)), int(rng.integers(lo[1] - 6, hi[1] + 7))) for _ in range(3)]
        label = "triangle"
    q = [(int(x), int(y)) for x, y in q]
    if len(q) < 3 or not ref.is_simple(q):
        return None
    return q, label


def reconnected(rng, uv):
    """Another simple outline through exactly the same corners (None if none was found)."""
    n = len(uv)
    for _ in range(30):
        q = list(uv)
        if rng.random() < 0.6:  # one corner visited at another time
            p = q.pop(int(rng.integers(n)))
            q.insert(int(rng.integers(n)), p)
        else:  # a stretch visited backwards
            i, j = sorted(int(v) for v in rng.choice(n + 1, 2, replace=False))
            q[i:j] = q[i:j][::-1]
        if not ref.is_simple(q):
            continue
        k = q.index(uv[0])
        r = gen.roll(q, k)
        if r != list(uv) and [r[0]] + r[:0:-1] != list(uv):
            return q if rng.random() < 0.5 else q[::-1]
    return None


def twins(rng):
    """Two different outlines through the same points, enclosing the same area."""
    from itertools import permutations

    while True:
        n = int(rng.integers(5, 7))
        pts = {tuple(4 * int(v) for v in rng.integers(0, 4, 2)) for _ in range(n)}
        if len(pts) != n:
            continue
        pts = sorted(pts)
        by = {}
        for p in permutations(pts[1:]):
            if p[0] < p[-1]:
                q = [pts[0]] + list(p)
                if ref.is_simple(q):
                    by.setdefault(abs(ref.area2(q)), []).append(q)
        groups = [g for g in by.values() if len(g) > 1]
        if groups:
            g = groups[int(rng.integers(len(groups)))]
            i, j = rng.choice(len(g), 2, replace=False)
            a, b = g[int(i)], g[int(j)]
            if ref.area2(a) < 0:
                a = [a[0]] + a[:0:-1]
            if ref.area2(b) > 0:
                b = [b[0]] + b[:0:-1]
            return (a, b) if rng.random() < 0.5 else (b, a)

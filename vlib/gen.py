"""Seeded workload generators (integer lattice shapes and their embeddings in space)."""

import math

import numpy as np

from . import ref

# --------------------------------------------------------------------------
# Integer lattice polygons
# --------------------------------------------------------------------------


def convex(rng, size=12):
    while True:
        n = int(rng.integers(5, 14))
        pts = sorted({tuple(int(v) for v in rng.integers(0, size + 1, 2)) for _ in range(n)})
        if len(pts) < 3:
            continue

        def half(seq):
            h = []
            for p in seq:
                while len(h) >= 2 and ref.cross2(h[-2], h[-1], p) <= 0:
                    h.pop()
                h.append(p)
            return h

        lo, up = half(pts), half(pts[::-1])
        poly = lo[:-1] + up[:-1]
        if len(poly) >= 3 and ref.is_simple(poly):
            return poly


def rect(rng, size=12):
    w, h = (int(v) for v in rng.integers(1, size + 1, 2))
    return [(0, 0), (w, 0), (w, h), (0, h)]


def rectilinear(rng, size=12):
    """L, T, U, Z, plus, comb and stair shapes."""
    k = int(rng.integers(0, 7))
    a = [int(v) for v in np.sort(rng.choice(np.arange(1, size), 4, replace=False))]
    b = [int(v) for v in np.sort(rng.choice(np.arange(1, size), 4, replace=False))]
    S = size
    if k == 0:  # L
        return [(0, 0), (S, 0), (S, b[1]), (a[1], b[1]), (a[1], S), (0, S)]
    if k == 1:  # U
        return [(0, 0), (S, 0), (S, S), (a[2], S), (a[2], b[0]), (a[0], b[0]), (a[0], S), (0, S)]
    if k == 2:  # T
        return [(a[0], 0), (a[2], 0), (a[2], b[1]), (S, b[1]), (S, S), (0, S), (0, b[1]), (a[0], b[1])]
    if k == 3:  # Z
        return [(0, 0), (a[2], 0), (a[2], b[0]), (S, b[0]), (S, S), (a[0], S), (a[0], b[2]), (0, b[2])]
    if k == 4:  # plus
        x0, x1, y0, y1 = a[0], a[2], b[0], b[2]
        return [
            (x0, 0), (x1, 0), (x1, y0), (S, y0), (S, y1), (x1, y1),
            (x1, S), (x0, S), (x0, y1), (0, y1), (0, y0), (x0, y0),
        ]
    if k == 5:  # comb
        n = int(rng.integers(2, 4))
        p = [(0, 0), ((2 * n + 1) * 2, 0)]
        for i in range(n, -1, -1):
            x1, x0 = (2 * i + 1) * 2, 2 * i * 2
            h = int(rng.integers(5, size + 1))
            p += [(x1, h), (x0, h)]
            if i > 0:
                p += [(x0, b[0] % 3 + 1), (x0 - 2, b[0] % 3 + 1)]
        out = []
        for q in p:
            if not out or out[-1] != q:
                out.append(q)
        # the first tooth ends at x = 0; close it
        return out
    # stairs
    n = int(rng.integers(2, 5))
    p = [(0, 0), (3 * n, 0)]
    for i in range(n):
        p += [(3 * (n - i), 2 * (i + 1)), (3 * (n - i - 1), 2 * (i + 1))]
    return p


def star(rng, size=12):
    while True:
        n = int(rng.integers(5, 11))
        ang = np.sort(rng.uniform(0, 2 * math.pi, n))
        if np.max(np.diff(np.append(ang, ang[0] + 2 * math.pi))) > 2.6:
            continue
        r = rng.uniform(0.35, 1.0, n) * size
        pts = [(int(round(r[i] * math.cos(ang[i]))), int(round(r[i] * math.sin(ang[i])))) for i in range(n)]
        if ref.is_simple(pts) and len(ref.strip_collinear(pts)) == len(pts):
            return pts


def spiral(rng, size=12):
    """A rectangular spiral corridor: long boundary, deep concavities."""
    w = int(rng.integers(1, 3))
    s = 4 * w + 4
    L = 5 * w + 4
    p = [
        (0, 0), (L, 0), (L, L), (w, L), (w, 2 * w + 1), (L - 2 * w, 2 * w + 1),
        (L - 2 * w, 3 * w + 1), (2 * w, 3 * w + 1), (2 * w, L - w), (L - w, L - w), (L - w, w), (0, w),
    ]
    return p if ref.is_simple(p) else rectilinear(rng, size)


KINDS = ("rect", "convex", "rectilinear", "star", "spiral")


def shape(rng, kind=None, size=12, collinear=None):
    """A simple lattice polygon (counter-clockwise) and a description of it."""
    if kind is None:
        kind = KINDS[int(rng.choice(len(KINDS), p=[0.15, 0.2, 0.35, 0.25, 0.05]))]
    for _ in range(200):
        p = {"rect": rect, "convex": convex, "rectilinear": rectilinear, "star": star, "spiral": spiral}[
            kind
        ](rng, size)
        p = [(int(x), int(y)) for x, y in p]
        if ref.is_simple(p):
            break
    else:
        raise RuntimeError("generator failed: " + kind)
    if ref.area2(p) < 0:
        p = p[::-1]
    # Symmetries of the square keep the lattice
    k = int(rng.integers(0, 4))
    for _ in range(k):
        p = [(-y, x) for x, y in p]
    if rng.random() < 0.5:
        p = [(-x, y) for x, y in p][::-1]
    # Lattice is refined by 4 so that midpoints and near-boundary queries stay integers
    p = [(4 * x, 4 * y) for x, y in p]
    ncol = 0
    if collinear is None:
        collinear = rng.random() < 0.25
    if collinear:
        q = []
        for i in range(len(p)):
            a, b = p[i], p[(i + 1) % len(p)]
            q.append(a)
            if rng.random() < 0.35:
                q.append(((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
                ncol += 1
        p = q
    return p, {"kind": kind, "n": len(p), "collinear": ncol}


def roll(p, k):
    k %= len(p)
    return p[k:] + p[:k]


def convex_starts(p):
    """Indices of strictly convex corners of a counter-clockwise polygon."""
    n = len(p)
    return [i for i in range(n) if ref.cross2(p[i - 1], p[i], p[(i + 1) % n]) > 0]


def reflex_starts(p):
    n = len(p)
    return [i for i in range(n) if ref.cross2(p[i - 1], p[i], p[(i + 1) % n]) < 0]


def flat_starts(p):
    n = len(p)
    return [i for i in range(n) if ref.cross2(p[i - 1], p[i], p[(i + 1) % n]) == 0]


# --------------------------------------------------------------------------
# Embeddings: lattice plane -> space
# --------------------------------------------------------------------------


class Embedding:
    """P(u, v) = o + unit * (u * A + v * B)."""

    def __init__(self, o, A, B, unit, label):
        self.o = np.array(o, dtype=float)
        self.A = np.array(A, dtype=float)
        self.B = np.array(B, dtype=float)
        self.unit = float(unit)
        self.label = label
        n = np.cross(self.A, self.B)
        self.jac = float(np.linalg.norm(n)) * self.unit**2
        self.n = n / np.linalg.norm(n)

    def pt(self, uv):
        return self.o + self.unit * (float(uv[0]) * self.A + float(uv[1]) * self.B)

    def pts(self, poly):
        return np.array([self.pt(p) for p in poly], dtype=float)


AXES = np.eye(3)

OBLIQUE = [
    ((1, 0, 1), (0, 1, 0)),
    ((1, 0, 0), (0, 1, 1)),
    ((1, 0, 1), (0, 1, 1)),
    ((2, 0, 1), (0, 1, 0)),
    ((1, 0, 2), (0, 1, -1)),
    ((1, 1, 0), (0, 0, 1)),
    ((1, -1, 0), (1, 1, 1)),
    ((1, 2, 2), (2, 1, -2)),
    ((3, 4, 0), (0, 0, 5)),
]


def embedding(rng, kind=None, far=False):
    """Random placement of the lattice plane.

    'axis'    axis-aligned plane, any of the six orientations
    'oblique' slanted plane with dyadic coordinates (exactly coplanar)
    'rotated' arbitrary rotation (coordinates carry rounding errors)
    """
    if kind is None:
        kind = ("axis", "oblique", "rotated")[int(rng.choice(3, p=[0.5, 0.35, 0.15]))]
    if kind == "axis":
        i, j = (int(v) for v in rng.choice(3, 2, replace=False))
        A, B = AXES[i] * rng.choice([-1, 1]), AXES[j] * rng.choice([-1, 1])
        unit = float(rng.choice([1 / 64, 1 / 16, 1 / 8, 0.1, 0.025, 0.07]))
        o = np.round(rng.uniform(-5, 5, 3), 2)
        if rng.random() < 0.3:
            o = np.zeros(3)
        if far:
            o = o + rng.choice([-1, 1], 3) * 50.0
    elif kind == "oblique":
        A, B = OBLIQUE[int(rng.integers(len(OBLIQUE)))]
        A, B = np.array(A, float), np.array(B, float)
        perm = rng.permutation(3)
        sg = rng.choice([-1, 1], 3)
        A, B = A[perm] * sg, B[perm] * sg
        unit = float(rng.choice([1 / 64, 1 / 32, 1 / 16]))
        o = np.round(rng.uniform(-4, 4, 3) * 8) / 8
    else:
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        w, x, y, z = q
        R = np.array(
            [
                [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
            ]
        )
        A, B = R[:, 0], R[:, 1]
        unit = float(rng.choice([1 / 64, 1 / 16]))
        o = rng.uniform(-1, 1, 3)
    return Embedding(o, A, B, unit, kind)

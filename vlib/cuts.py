"""Slicing workloads: chains that cut a lattice polygon and the exact parts they leave."""

import math

import numpy as np

from . import ref
from .ref import F


def boundary_point(rng, uv):
    n = len(uv)
    k = int(rng.integers(n))
    if rng.random() < 0.45:
        return uv[k], ("v", k)
    a, b = uv[k], uv[(k + 1) % n]
    g = math.gcd(abs(b[0] - a[0]), abs(b[1] - a[1]))
    if g < 2:
        return uv[k], ("v", k)
    t = int(rng.integers(1, g))
    return (a[0] + (b[0] - a[0]) // g * t, a[1] + (b[1] - a[1]) // g * t), ("e", k)


def chain_ok(c, uv):
    """The chain is simple, starts and ends on the boundary and runs strictly inside."""
    n = len(uv)
    if len(set(c)) != len(c) or any(ref.locate(p, uv) != "in" for p in c[1:-1]):
        return False
    for i in range(len(c) - 1):
        a, b = c[i], c[i + 1]
        if ref.locate((F(a[0] + b[0], 2), F(a[1] + b[1], 2)), uv) != "in":
            return False
        if any(v not in (a, b) and ref.on_segment(v, a, b) for v in uv):
            return False
        if any(ref.segments_cross_properly(a, b, uv[j], uv[(j + 1) % n]) for j in range(n)):
            return False
        for j in range(i + 1, len(c) - 1):
            p, q = c[j], c[j + 1]
            if j == i + 1:
                if ref.cross2(a, b, q) == 0 and (b[0] - a[0]) * (q[0] - b[0]) + (b[1] - a[1]) * (q[1] - b[1]) < 0:
                    return False
            elif ref.segments_intersect(a, b, p, q):
                return False
    return True


def random_chain(rng, uv, tries=120, bends=(0, 1, 2, 3)):
    """(chain, where it starts, where it ends) or None."""
    us, vs = [p[0] for p in uv], [p[1] for p in uv]
    force_same = rng.random() < 0.15
    for _ in range(tries):
        p, l0 = boundary_point(rng, uv)
        q, l1 = boundary_point(rng, uv)
        if force_same and (l0 != l1 or l0[0] != "e"):
            continue
        k = int(rng.choice(bends))
        mid = [(int(rng.integers(min(us), max(us) + 1)), int(rng.integers(min(vs), max(vs) + 1))) for _ in range(k)]
        c = [p] + mid + [q]
        if p != q and chain_ok(c, uv):
            return c, l0, l1
    return None


def parts(uv, c, l0, l1):
    """Exact outlines of the two parts, listed in the direction of `uv`."""
    ring = []
    for k in range(len(uv)):
        ring.append(uv[k])
        e = [p for p, l in ((c[0], l0), (c[-1], l1)) if l == ("e", k)]
        e.sort(key=lambda p: (p[0] - uv[k][0]) ** 2 + (p[1] - uv[k][1]) ** 2)
        ring += e
    i, j, m = ring.index(c[0]), ring.index(c[-1]), len(ring)

    def walk(s, t):
        return [ring[(s + q) % m] for q in range((t - s) % m + 1)]

    return walk(j, i)[:-1] + list(c[:-1]), walk(i, j)[:-1] + list(c[::-1][:-1])


def overshoot(uv, p, nxt):
    """A point outside on the extension of nxt -> p with free sight to p, or None."""
    o = (2 * p[0] - nxt[0], 2 * p[1] - nxt[1])
    if ref.locate(o, uv) != "out":
        return None
    for j in range(len(uv)):
        a, b = uv[j], uv[(j + 1) % len(uv)]
        if not ref.on_segment(p, a, b) and ref.segments_intersect(p, o, a, b):
            return None
    return o


def same_outline(pts, uv, emb, atol=1e-9):
    """`pts` is a rotation of the embedded outline, in the same direction."""
    exp = emb.pts(uv)
    if len(exp) != len(pts):
        return False
    return any(np.allclose(np.roll(exp, -s, axis=0), pts, rtol=0, atol=atol) for s in range(len(exp)))


def point_in(rng, uv, tries=60):
    """A lattice point strictly inside, not too close to the boundary; or None."""
    us, vs = [p[0] for p in uv], [p[1] for p in uv]
    for _ in range(tries):
        p = (int(rng.integers(min(us), max(us) + 1)), int(rng.integers(min(vs), max(vs) + 1)))
        if ref.locate(p, uv) == "in":
            return p
    return None

"""Solid and building workloads with exact descriptions, and the closed-surface monitor."""

import math
from collections import Counter

import numpy as np

from . import gen, ref


class Plan:
    """An extruded lattice outline: exact plan (ccw), scale, height, rotation, translation."""

    def __init__(self, uv, unit, height, rot=0.0, move=(0.0, 0.0, 0.0)):
        self.uv = list(uv)
        self.unit = float(unit)
        self.h = float(height)
        self.rot = float(rot)
        self.move = np.array(move, dtype=float)
        c, s = math.cos(rot), math.sin(rot)
        self.R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        self.ccw = ref.area2(self.uv) > 0
        self.area = abs(ref.area2(self.uv)) / 2.0 * self.unit**2
        self.volume = self.area * self.h

    @property
    def plan(self):
        return [(u * self.unit, v * self.unit) for u, v in self.uv]

    def place(self, xyz):
        p = np.asarray(xyz, dtype=float)
        if self.rot != 0.0:
            p = p @ self.R.T
        return p + self.move

    def corner(self, k, top):
        u, v = self.uv[k % len(self.uv)]
        return self.place((u * self.unit, v * self.unit, self.h if top else 0.0))

    def at(self, u, v, f):
        """Point over lattice position (u, v) at relative height f."""
        return self.place((u * self.unit, v * self.unit, self.h * f))

    def describe(self):
        return dict(uv=self.uv, unit=self.unit, height=self.h, rot=self.rot, move=self.move)


def random_plan(rng, kind=None, size=6, rot=None, start=None, reverse=None, collinear=None, far=False):
    uv, d = gen.shape(rng, kind=kind, size=size, collinear=collinear)
    k = int(rng.integers(len(uv)))
    uv = gen.roll(uv, k)
    if reverse is None:
        reverse = rng.random() < 0.4
    if reverse:
        uv = uv[::-1]
    unit = float(rng.choice([1 / 16, 1 / 8, 0.1, 0.07]))
    h = float(rng.choice([1.0, 2.5, 3.0, 0.3, 1 / 3]))
    if rot is None:
        rot = 0.0 if rng.random() < 0.6 else float(rng.choice([math.pi / 2, math.pi, -math.pi / 6, rng.uniform(-4, 4)]))
    move = np.zeros(3) if rng.random() < 0.3 else np.round(rng.uniform(-6, 6, 3), 2)
    if far:
        move = move + rng.choice([-1, 1], 3) * 40.0
    return Plan(uv, unit, h, rot, move)


def polygons(solid):
    """[(wall name, polygon name, polygon)] in order."""
    return [(wn, pn, p) for wn, w in solid.walls.items() for pn, p in w.polygons.items()]


def rounded(p, nd=7):
    return tuple(round(float(x), nd) + 0.0 for x in p)


def directed_edges(polys):
    e = Counter()
    for pts in polys:
        k = [rounded(p) for p in pts]
        for i in range(len(k)):
            e[(k[i], k[(i + 1) % len(k)])] += 1
    return e


def triangles(solid):
    out = []
    for _, _, p in polygons(solid):
        pts, tri = np.asarray(p.pts), np.asarray(p.tri)
        out.append(pts[tri])
    return np.concatenate(out)


def monitor_surface(ctx, solid, volume, tag=""):
    """Faces form a closed outward surface enclosing `volume` (independent of the solid's own volume)."""
    polys = [np.asarray(p.pts) for _, _, p in polygons(solid)]
    for (wn, pn, p), pts in zip(polygons(solid), polys):
        n = ref.unit_normal(pts)
        ctx.require(
            np.allclose(n, p.vn, atol=1e-7), "face-normal" + tag, "a face's normal disagrees with its outline", face=[wn, pn], got=p.vn, outline=n
        )
    # divergence theorem with unit fields: the area vectors cancel on a closed surface
    s = sum((ref.newell(p) for p in polys), np.zeros(3))
    scale = sum(ref.poly_area(p) for p in polys)
    ctx.require(np.linalg.norm(s) < 1e-9 * (1 + scale), "open" + tag, "faces do not form a closed surface", got=s)
    v = ref.signed_volume(polys)
    ctx.require(
        abs(v - volume) <= 1e-9 * (1 + volume) * (1 + max(float(np.max(np.abs(p))) for p in polys)),
        "enclosed-volume" + tag, "faces do not enclose the expected volume outward", got=v, expected=volume,
    )


def monitor_edges(ctx, solid, tag=""):
    """Every edge is shared by exactly two faces in opposite directions."""
    e = directed_edges([np.asarray(p.pts) for _, _, p in polygons(solid)])
    bad = [k for k, n in e.items() if n != 1 or e.get((k[1], k[0]), 0) != 1]
    ctx.require(not bad, "edge-pairing" + tag, "an edge is not shared by exactly two faces in opposite directions", got=bad[:4])

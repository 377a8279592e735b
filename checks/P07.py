"""P07: boxes and extruded plans are closed outward solids with the right names and volume."""
import math

import numpy as np

from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan

from vlib import ref
from vlib.polys import tol
from vlib.solids import monitor_edges, monitor_surface, polygons, random_plan, rounded

LEVEL = "exploration"
RULE = (
    "floor plans (rectangles, convex, rectilinear, star, spiral, with collinear corners) listed from any corner in either "
    "direction, several heights, rotations, translations and name options; boxes of any size and position. Every face, name, "
    "normal, edge pairing, volume and box is compared with the exact extrusion. Distinct = different solid."
)
PLAN = {"quick": (8000, 70), "thorough": (100000, 600)}
REQUIRE = {"plans": 300, "boxes": 200, "rotated": 100, "concave": 100, "named": 100, "refused": 50, "flat_start": 20}


def check_faces(ctx, s, expected, tag):
    """expected: [(wall name, polygon name, corner set, outward normal, area)] in order."""
    got = polygons(s)
    ctx.require(
        [(w, p) for w, p, _ in got] == [(e[0], e[1]) for e in expected], "names" + tag, "walls or polygons are not named as requested",
        got=[(w, p) for w, p, _ in got], expected=[(e[0], e[1]) for e in expected],
    )
    for (wn, pn, p), (_, _, corners, n, area) in zip(got, expected):
        ctx.require(p.name == pn and s.walls[wn].name == wn, "own-name" + tag, "an object's name differs from its key")
        ctx.require(
            len(p.pts) == len(corners) and {rounded(x) for x in p.pts} == {rounded(x) for x in corners},
            "corners" + tag, "a face has the wrong corners", face=[wn, pn], got=p.pts, expected=corners,
        )
        ctx.require(np.allclose(p.vn, n, atol=1e-7), "outward" + tag, "a face does not point outward", face=[wn, pn], got=p.vn, expected=n)
        ctx.require(abs(p.area - area) < 1e-9 * (1 + area), "face-area" + tag, "a face has the wrong area", face=[wn, pn], got=p.area, expected=area)
        ctx.require(p.parent is s.walls[wn] and s.walls[wn].parent is s, "parent" + tag, "parent links are broken")


def check_solid(ctx, s, volume, lo, hi, tag):
    monitor_surface(ctx, s, volume, tag)
    monitor_edges(ctx, s, tag)
    ctx.require(
        abs(s.volume - volume) <= 1e-9 * (1 + volume) * (1 + float(np.max(np.abs([lo, hi])))), "volume" + tag, "wrong volume", got=s.volume, expected=volume
    )
    b = s.bbox()
    ctx.require(np.allclose(b[0], lo, atol=1e-9) and np.allclose(b[1], hi, atol=1e-9), "bbox" + tag, "bounding box is not tight", got=b, expected=[lo, hi])


def plan_case(ctx, rng):
    pl = random_plan(rng, size=int(rng.choice([5, 8])), far=rng.random() < 0.1)
    n = len(pl.uv)
    names, fl, ce = None, None, None
    kw = {}
    if rng.random() < 0.5:
        names = ["w%d-%s" % (k, "abcdefg"[int(rng.integers(7))]) for k in rng.permutation(n)]
        kw["wall_names"] = list(names)
        ctx.count("named")
    if rng.random() < 0.4:
        fl = kw["floor_name"] = "ground"
    if rng.random() < 0.4:
        ce = kw["ceiling_name"] = "roof"
    if rng.random() < 0.5:
        kw["name"] = "room"
    if pl.rot != 0.0 or rng.random() < 0.3:
        kw["rot_angle"] = pl.rot
    if pl.move.any() or rng.random() < 0.3:
        kw["translate"] = tuple(float(v) for v in pl.move)
    ctx.info(plan=pl.describe(), options=kw)
    ctx.distinct(pl.uv, pl.h, pl.rot, tuple(pl.move), sorted(kw))
    ctx.sample(dict(pl.describe(), options=sorted(kw)))
    ctx.count("plans")
    if pl.rot:
        ctx.count("rotated")
    conc = any(
        (ref.cross2(pl.uv[k - 1], pl.uv[k], pl.uv[(k + 1) % n]) > 0) != pl.ccw and ref.cross2(pl.uv[k - 1], pl.uv[k], pl.uv[(k + 1) % n]) != 0
        for k in range(n)
    )
    if conc:
        ctx.count("concave")
    if ref.cross2(pl.uv[-1], pl.uv[0], pl.uv[1]) == 0:
        ctx.count("flat_start")
    plan = pl.plan
    keep = list(plan)
    s = floor_plan(plan, pl.h, **kw)
    ctx.require(plan == keep and kw.get("wall_names", names) == names, "mutated", "the caller's lists were changed")
    if "name" in kw:
        ctx.require(s.name == "room", "solid-name", "wrong solid name", got=s.name)
    names = names or ["wall-%d" % k for k in range(n)]
    exp = []
    for k in range(n):
        c = [pl.corner(k, False), pl.corner(k + 1, False), pl.corner(k + 1, True), pl.corner(k, True)]
        e = c[1] - c[0]
        L = float(np.linalg.norm(e))
        out = np.array([e[1], -e[0], 0.0]) / L * (1 if pl.ccw else -1)
        exp.append((names[k], names[k], c, out, L * pl.h))
    fl, ce = fl or "floor", ce or "ceiling"
    exp.append((fl, fl, [pl.corner(k, False) for k in range(n)], np.array([0, 0, -1.0]), pl.area))
    exp.append((ce, ce, [pl.corner(k, True) for k in range(n)], np.array([0, 0, 1.0]), pl.area))
    check_faces(ctx, s, exp, "-plan")
    allp = np.array([pl.corner(k, t) for k in range(n) for t in (False, True)])
    check_solid(ctx, s, pl.volume, allp.min(0), allp.max(0), "-plan")

    if rng.random() < 0.15:
        for bad in (["x"] * n, ["w%d" % k for k in range(n + 1)], ["w%d" % k for k in range(n - 1)]):
            try:
                floor_plan(plan, pl.h, wall_names=bad)
            except ValueError:
                ctx.count("refused")
                ctx.count("monitor_evaluations")
            else:
                ctx.fail("bad-names", "wall names that do not fit the plan were accepted", names=bad)


def box_case(ctx, rng):
    d = [float(v) for v in (rng.choice([1.0, 0.5, 2.0, 3.0, 0.1], 3) if rng.random() < 0.5 else rng.uniform(0.1, 8, 3))]
    kw = {}
    m = np.zeros(3)
    if rng.random() < 0.8:
        m = np.round(rng.uniform(-6, 6, 3), 3) if rng.random() < 0.6 else -np.array(d) / 2
        kw["move"] = tuple(float(v) for v in m)
    if rng.random() < 0.5:
        kw["name"] = "bx"
    ctx.info(dims=d, options=kw)
    ctx.distinct("box", d, tuple(m))
    ctx.count("boxes")
    s = box(*d, **kw)
    if "name" in kw:
        ctx.require(s.name == "bx", "solid-name", "wrong solid name", got=s.name)
    lo, hi = m, m + np.array(d)

    def face(axis, side):
        o = [k for k in range(3) if k != axis]
        out = []
        for a in (lo, hi):
            for b in (lo, hi):
                p = np.zeros(3)
                p[axis] = (lo, hi)[side][axis]
                p[o[0]], p[o[1]] = a[o[0]], b[o[1]]
                out.append(p)
        n = np.zeros(3)
        n[axis] = 1.0 if side else -1.0
        return out, n, d[o[0]] * d[o[1]]

    exp = [
        (w, p) + face(ax, sd)
        for w, p, ax, sd in (
            ("floor", "floor", 2, 0), ("wall_0", "poly_0", 1, 0), ("wall_1", "poly_1", 0, 1),
            ("wall_2", "poly_2", 1, 1), ("wall_3", "poly_3", 0, 0), ("ceiling", "ceiling", 2, 1),
        )
    ]
    check_faces(ctx, s, exp, "-box")
    check_solid(ctx, s, d[0] * d[1] * d[2], lo, hi, "-box")


def case(ctx, i, rng):
    box_case(ctx, rng) if i % 3 == 2 else plan_case(ctx, rng)

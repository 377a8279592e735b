"""P22: the acceleration grid never hides a surface."""
import math

import numpy as np

from building3d.sim.rays.find_target import find_target_surface
from building3d.sim.rays.voxel_grid import make_voxel_grid

from vlib import buildings as bl, optional
from vlib import sim

find_nearby_polygons = optional.load("building3d.sim.rays.find_nearby_polygons:find_nearby_polygons")

LEVEL = "exploration"
RULE = (
    "surfaces of boxes, groups of touching boxes, concave extrusions and storeys in any orientation, moved to positive, negative and "
    "cell-aligned coordinates, with grid steps from a third to a twelfth of the size, some with 35-89 surfaces in a few cells; queried at random points, cell corners and "
    "borders, points near surfaces, their edges and corners, and outside; compared with distances to all surfaces. Rays compared "
    "with exhaustive search. Distinct = different surfaces and grid."
)
ASSUMPTIONS = ["rays within 5e-3 of an outline and surfaces at equal distance are not judged"]
PLAN = {"quick": (900, 45), "thorough": (15000, 600)}
REQUIRE = {"grids": 150, "points": 5000, "near_pairs": 10000, "outside": 500, "corners": 500, "aligned": 40, "negative": 60, "rays": 2000, "targets": 500, "no_target": 50, "ignored": 100, "crowded": 15}


def case(ctx, i, rng):
    sc = sim.random_scene(rng)
    polys = bl.all_polygons(sc.building)
    size = float((sc.hi - sc.lo).max())
    step = float(rng.choice([size / rng.uniform(3, 12), 0.1 * max(1, round(size)), 0.25 * max(1, round(size / 2)), size / 8]))
    how = int(rng.integers(4))
    if how == 0:
        shift = np.zeros(3)
    elif how == 1:
        shift = rng.uniform(-10, 10, 3)
    else:  # lower bounds at, or a small distance from, a cell border
        k = rng.integers(-8, 9, 3)
        off = float(rng.choice([0.0, 1e-4, -1e-4, 1e-9]))
        shift = k * step + off - sc.lo
        ctx.count("aligned")
    pts = [np.ascontiguousarray(np.asarray(p.pts) + shift) for p in polys]
    tri = [np.asarray(p.tri) for p in polys]
    if rng.random() < 0.08:
        # many surfaces in few cells
        ctx.count("crowded")
        step = size * float(rng.uniform(0.3, 1.5))
        want = int(rng.integers(35, 90))
        pick = [(int(rng.integers(len(pts))), rng.uniform(-0.3, 0.3, 3) * size) for _ in range(max(0, want - len(pts)))]
        pts += [np.ascontiguousarray(pts[k] + d) for k, d in pick]
        tri += [tri[k] for k, _ in pick]
    surfs = [sim.Surf("", "", str(k), q) for k, q in enumerate(pts)]
    allp = np.vstack(pts)
    lo, hi = allp.min(0), allp.max(0)
    ctx.info(scene=sc.desc, step=step, shift=shift)
    ctx.distinct(str(sc.desc), step, tuple(shift))
    ctx.count("grids")
    if (lo < 0).any():
        ctx.count("negative")
    keep = [q.copy() for q in pts]
    grid = make_voxel_grid(tuple(float(v) for v in lo), tuple(float(v) for v in hi), pts, step, verbose=False)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(keep, pts)), "input", "making the grid changed the surfaces")
    n = len(pts)

    def nearby(p):
        key = [int(math.floor(v / step)) for v in p]
        out = find_nearby_polygons(*key, grid)
        ids = [int(v) for v in out]
        ctx.require(all(0 <= v < n for v in ids), "index", "an entry is not a surface number", got=sorted(ids)[:5], surfaces=n)
        ctx.require(len(set(ids)) == len(ids), "duplicate", "a surface is listed twice")
        return ids

    for cell in grid.values():
        c = [int(v) for v in cell]
        if len(set(c)) != len(c) or any(not 0 <= v < n for v in c):
            ctx.fail("cell", "a grid cell lists a surface twice or an unknown one", got=c)
    for _ in range(60):
        kind = int(rng.integers(6))
        if kind == 0:
            p = rng.uniform(lo, hi)
        elif kind == 1:
            p = np.floor(rng.uniform(lo, hi) / step) * step
            mask = rng.random(3) < 0.4
            p[mask] += rng.uniform(0, step, 3)[mask]
            ctx.count("corners")
        elif kind == 2:
            q = pts[int(rng.integers(n))]
            p = q[int(rng.integers(len(q)))] + rng.uniform(-1.2, 1.2, 3) * step * rng.choice([1.0, 1e-3, 0.5])
        elif kind == 3:
            q = pts[int(rng.integers(n))]
            w = rng.dirichlet(np.ones(3))
            p = w @ q[rng.choice(len(q), 3, replace=False)] + rng.uniform(-1, 1, 3) * step
        elif kind == 4:
            q = pts[int(rng.integers(n))]
            a, b = q[int(rng.integers(len(q)))], q[int(rng.integers(len(q)))]
            p = a + rng.random() * (b - a) + rng.uniform(-0.6, 0.6, 3) * step
        else:
            p = rng.uniform(lo - 4 * step, hi + 4 * step)
        if ((p < lo) | (p > hi)).any():
            ctx.count("outside")
        ctx.count("points")
        ids = nearby(p)
        have = set(ids)
        dist = [s.dist(p) for s in surfs]
        for k, d in enumerate(dist):
            if d < step * (1 - 1e-9):
                ctx.count("near_pairs")
                ctx.count("monitor_evaluations")
                if k not in have:
                    ctx.fail("hidden", "a surface within one cell is not offered", point=p, distance=d, step=step, surface=surfs[k].pts)
        # next surface along a ray
        if rng.random() < 0.6:
            d = rng.normal(size=3)
            d /= np.linalg.norm(d)
            ignore = {int(v) for v in range(n) if rng.random() < 0.15} if rng.random() < 0.4 else set()
            if ignore:
                ctx.count("ignored")
            hits = [(surfs[k].hit(p, d)[0], dist[k], k) for k in range(n) if k not in ignore]
            sure = sorted((h, k) for c, h, k in hits if c == 1)
            maybe = [h for c, h, k in hits if c == 0]
            if maybe and (not sure or min(maybe) <= sure[0][0] + 1e-6):
                ctx.count("unclear_rays")
                continue
            if len(sure) > 1 and sure[1][0] - sure[0][0] < 1e-6:
                ctx.count("unclear_rays")
                continue
            ctx.count("rays")
            args = (p, d * float(rng.choice([1.0, 343.0, 0.01])), pts, tri, ignore or {-1})
            best = int(find_target_surface(*args, set(range(n)), atol=1e-3))
            want = sure[0][1] if sure else -1
            ctx.require(best == want, "target", "the next surface ahead is not the nearest one hit", point=p, direction=d, got=best, expected=want, hits=sure[:3])
            if want < 0:
                ctx.count("no_target")
            elif sure[0][0] < step * (1 - 1e-9):
                ctx.count("targets")
                got = int(find_target_surface(*args, have or {-1}, atol=1e-3))
                ctx.require(got == want, "grid-target", "the next surface found with the grid is another one", point=p, direction=d, got=got, expected=want)
    ctx.sample(dict(kind=sc.desc["kind"], surfaces=n, cells=len(grid)))

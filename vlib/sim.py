"""Ray simulation workloads with exact room layouts, and the step-by-step reference monitor."""

import math
import os
import shutil

import numpy as np

from . import buildings as bl
from . import gen, ref
from .solids import Plan, random_plan

REACH = 1.01  # the simulation looks one step ahead with this margin
EPS = 1e-6  # energy below which a ray is dead


def rotation(rng):
    """A random rotation matrix."""
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


class BoxCell:
    def __init__(self, blk, fr):
        self.lo, self.hi = fr.pt(blk.lo), fr.pt(blk.hi)
        self.zone, self.name = blk.zone, blk.name

    def depth(self, p):
        """Distance to the boundary, negative outside (lower bound)."""
        return float(min((p - self.lo).min(), (self.hi - p).min()))

    def random_point(self, rng, margin):
        return rng.uniform(self.lo + margin, self.hi - margin)

    @property
    def feature(self):
        return float((self.hi - self.lo).min())


class PlanCell:
    def __init__(self, plan, zone, name):
        self.plan, self.zone, self.name = plan, zone, name
        self.poly2 = [(u * plan.unit, v * plan.unit) for u, v in plan.uv]

    def local(self, p):
        q = np.asarray(p) - self.plan.move
        return q @ self.plan.R if self.plan.rot else q

    def depth(self, p):
        q = self.local(p)
        inside, d = ref.pip_float(q[:2], self.poly2)
        h = min(q[2], self.plan.h - q[2])
        return float(min(d if inside else -d, h))

    def random_point(self, rng, margin):
        us, vs = [p[0] for p in self.plan.uv], [p[1] for p in self.plan.uv]
        for _ in range(300):
            u, v = rng.uniform(min(us), max(us)), rng.uniform(min(vs), max(vs))
            p = self.plan.at(u, v, rng.uniform(0.02, 0.98))
            if self.depth(p) > margin:
                return p
        return None

    @property
    def feature(self):
        """Smallest distance between parts of the outline that do not meet, edge length or height."""
        uv = self.poly2
        n = len(uv)
        best = self.plan.h
        for i in range(n):
            a, b = np.array(uv[i]), np.array(uv[(i + 1) % n])
            best = min(best, float(np.linalg.norm(b - a)))
            for j in range(n):
                if j in (i, (i + 1) % n):
                    continue
                best = min(best, ref.dist_point_segment(np.array(uv[j]), a, b))
        return best


class Scene:
    """A building with its cells; `turn` maps space to the frame of the cells."""

    def __init__(self, building, cells, R, desc):
        self.building, self.cells, self.R, self.desc = building, cells, R, desc
        self.read()

    def read(self):
        self.polys = []
        for z in self.building.zones.values():
            for s in z.solids.values():
                for w in s.walls.values():
                    for p in w.polygons.values():
                        self.polys.append(Surf(z.name, s.name, "/".join([self.building.name, z.name, s.name, w.name, p.name]), np.array(p.pts, dtype=float)))
        pair(self.polys)
        self.feature = min(c.feature for c in self.cells)
        allp = np.vstack([s.pts for s in self.polys])
        self.lo, self.hi = allp.min(0), allp.max(0)

    def back(self, p):
        return np.asarray(p, dtype=float) @ self.R if self.R is not None else np.asarray(p, dtype=float)

    def out(self, p):
        return np.asarray(p, dtype=float) @ self.R.T if self.R is not None else np.asarray(p, dtype=float)

    def locate(self, p, tol):
        """Cells whose closed region contains p up to tol."""
        q = self.back(p)
        return [k for k, c in enumerate(self.cells) if c.depth(q) >= -tol]

    def component(self, k):
        """Cells reachable from cell k through matching surfaces of one zone."""
        ids = {(c.zone, c.name): j for j, c in enumerate(self.cells)}
        link = {}
        for s in self.polys:
            if s.partner is not None:
                link.setdefault(ids[(s.zone, s.solid)], set()).add(ids[(s.partner.zone, s.partner.solid)])
        seen, todo = {k}, [k]
        while todo:
            for j in link.get(todo.pop(), ()):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def clearance(self, p):
        return min(s.dist(p) for s in self.polys)

    def source(self, rng, margin):
        for _ in range(60):
            c = self.cells[int(rng.integers(len(self.cells)))]
            p = c.random_point(rng, margin)
            if p is not None:
                p = self.out(p)
                return p
        return None


class Surf:
    def __init__(self, zone, solid, path, pts):
        self.zone, self.solid, self.path, self.pts = zone, solid, path, pts
        self.frame = ref.plane_frame(pts)
        self.n = self.frame[3]
        self.d = float(self.n @ pts[0])
        self.poly2 = [ref.project2(self.frame, q)[0] for q in pts]
        self.lo, self.hi = pts.min(0), pts.max(0)
        self.centre = pts.mean(0)
        self.partner = None
        self.match = None
        self.absorption = None

    def dist(self, p):
        return ref.dist_point_polygon(p, self.pts, self.frame, self.poly2)

    def hit(self, p, d):
        """(how surely, distance along the ray): 1 crosses, 0 too close to call, -1 misses."""
        den = float(self.n @ d)
        num = self.d - float(self.n @ p)
        if abs(den) < 1e-9:
            return -1 if abs(num) > 1e-6 else 0, math.inf
        t = num / den
        if t < -5e-3:
            return -1, t
        q = p + t * d
        inside, m = ref.pip_float(ref.project2(self.frame, q)[0], self.poly2)
        slack = 5e-3 + 1e-9 * abs(t)
        if t < 1e-7:
            return (0 if inside or m < slack else -1), t
        if inside:
            # at very flat angles the crossing point is far away and imprecise
            return (1 if m > slack and abs(den) > 1e-6 else 0), t
        return (0 if m < slack else -1), t


def pair(surfs):
    """Mark surfaces that match a surface of another solid; `partner` if both are in one zone."""
    for a in surfs:
        a.partner = a.match = None
    for i, a in enumerate(surfs):
        for b in surfs[i + 1:]:
            if (a.zone, a.solid) == (b.zone, b.solid) or len(a.pts) != len(b.pts):
                continue
            if not np.allclose(a.centre, b.centre, atol=1e-6):
                continue
            d = np.abs(a.pts[:, None] - b.pts[None]).max(axis=2) <= 1e-6
            if d.any(axis=0).all() and d.any(axis=1).all() and float(a.n @ b.n) < -0.99:
                a.match, b.match = b, a
                if a.zone == b.zone:
                    a.partner, b.partner = b, a


def rotated_building(B, R):
    """The same building with all points rotated."""
    from building3d.geom.building import Building
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    zones = []
    for z in B.zones.values():
        solids = []
        for s in z.solids.values():
            walls = []
            for w in s.walls.values():
                walls.append(Wall([Polygon(np.asarray(p.pts) @ R.T, name=p.name) for p in w.polygons.values()], name=w.name))
            solids.append(Solid(walls, name=s.name))
        zones.append(Zone(solids, name=z.name))
    return Building(zones, name=B.name)


def random_scene(rng, kinds=("box", "blocks", "grid", "plan", "stack", "nested"), turn=0.3):
    from building3d.geom.building import Building
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.zone import Zone

    kind = str(rng.choice(kinds))
    R = rotation(rng) if rng.random() < turn else None
    if kind in ("box", "blocks", "grid", "nested"):
        if kind == "box":
            bs = [bl.Block((0, 0, 0), [int(v) for v in rng.integers(1, 6, 3)])]
        elif kind == "blocks":
            bs = bl.scatter(rng, int(rng.integers(2, 5)), touch=0.95, maxsize=4)
        elif kind == "grid":
            bs = bl.grid(rng, nmax=5)
        else:
            big = bl.Block((0, 0, 0), [int(v) for v in rng.integers(3, 6, 3)])
            ax, side = int(rng.integers(3)), int(rng.integers(2))
            lo, hi = [0] * 3, [0] * 3
            for k in range(3):
                if k == ax:
                    d = int(rng.integers(1, 4))
                    lo[k] = big.hi[k] if side else -d
                    hi[k] = lo[k] + d
                else:
                    lo[k], hi[k] = sorted(int(v) for v in rng.choice(np.arange(0, big.hi[k] + 1), 2, replace=False))
            bs = [big, bl.Block(lo, hi)]
        zn = bl.assign(rng, bs, nzones=1 if rng.random() < 0.6 else None)
        fr = bl.Frame(rng)
        B = bl.make_building(bs, zn, fr)
        stitched = len(bs) > 1 and rng.random() < 0.8
        if stitched:
            B.stitch_solids()
        cells = [BoxCell(b, fr) for b in bs]
        desc = dict(kind=kind, blocks=[b.describe() for b in bs], unit=fr.unit, off=fr.off, stitched=stitched)
    else:
        for _ in range(50):
            pl = random_plan(rng, size=5, kind=None)
            pl.h = float(rng.choice([1.0, 0.5, 0.3, 2.0])) * max(1.0, pl.unit * 16)
            c = PlanCell(pl, "z", "s")
            if c.feature > 0.02 * max(np.ptp([p[0] for p in c.poly2]), np.ptp([p[1] for p in c.poly2])):
                break
        solids = [floor_plan(pl.plan, pl.h, translate=tuple(float(v) for v in pl.move), rot_angle=pl.rot, name="s")]
        cells = [c]
        zones = ["z"]
        if kind == "stack":
            up = Plan(pl.uv, pl.unit, float(rng.choice([0.5, 1.0])) * pl.h, pl.rot, pl.move + np.array([0, 0, pl.h]))
            z2 = "z" if rng.random() < 0.6 else "z2"
            solids.append(floor_plan(up.plan, up.h, translate=tuple(float(v) for v in up.move), rot_angle=up.rot, name="t"))
            cells.append(PlanCell(up, z2, "t"))
            zones.append(z2)
        names = list(dict.fromkeys(zones))
        B = Building([Zone([s for s, z in zip(solids, zones) if z == nm], name=nm) for nm in names], name="b")
        desc = dict(kind=kind, plan=pl.describe(), zones=zones)
    if R is not None:
        B = rotated_building(B, R)
        desc["R"] = R
    return Scene(B, cells, R, desc)


class Run:
    """Configuration of one simulation."""

    def __init__(self, rng, scene, rays=(2, 7), steps=(40, 120), absorb=None, source_margin=1.1, quickest=0.45):
        self.scene = scene
        f = scene.feature
        self.step = f * float(rng.uniform(0.08, quickest))
        size = float((scene.hi - scene.lo).max())
        # enough steps to cross the building a few times
        self.step = max(self.step, min(f * quickest, size / 40))
        self.speed = float(rng.choice([343.0, 1.0, 10.0, 1000.0, 0.01, 1e-4]))
        self.dt = self.step / self.speed
        self.voxel = max(self.step * float(rng.uniform(1.02, 5.0)), size / float(rng.uniform(6, 12)))
        self.num_rays = int(rng.integers(*rays))
        n = int(rng.integers(*steps))
        self.batch = int(rng.choice([1, 2, 5, 7, 20, n])) if n > 20 else n
        self.num_steps = max(self.batch, n - n % self.batch)
        self.seed = int(rng.integers(2**31))
        self.src = scene.source(rng, source_margin * self.step)
        self.default_abs = float(rng.choice([0.0, 0.01, 0.05, 0.2, 0.01234567])) if absorb is None else absorb
        self.own = []  # (path, value) in the order of setting
        self.absorbers = []
        self.radius = 0.1
        self.opaque = False

    def describe(self):
        return dict(
            scene=self.scene.desc, step=self.step, speed=self.speed, voxel=self.voxel, rays=self.num_rays, steps=self.num_steps,
            batch=self.batch, seed=self.seed, source=self.src, absorption=self.default_abs, own=self.own, sinks=self.absorbers, radius=self.radius,
        )

    def config(self, out_dir, batch=None):
        from building3d.sim.rays.simulation_config import SimulationConfig

        cfg = SimulationConfig(self.scene.building)
        cfg.verbose = False
        cfg.engine["time_step"] = self.dt
        cfg.engine["num_steps"] = self.num_steps
        cfg.engine["batch_size"] = batch or self.batch
        cfg.engine["voxel_size"] = self.voxel
        cfg.engine["search_transparent"] = not self.opaque
        cfg.rays["num_rays"] = self.num_rays
        cfg.rays["ray_speed"] = self.speed
        cfg.rays["source"] = tuple(float(v) for v in self.src)
        if self.absorbers:
            cfg.rays["absorbers"] = [tuple(float(v) for v in a) for a in self.absorbers]
        else:
            cfg.rays["absorbers"] = [tuple(float(v) for v in self.scene.hi + 1000.0)]
        cfg.rays["absorber_radius"] = self.radius
        cfg.surfaces["absorption"]["default"] = self.default_abs
        for path, v in self.own:
            cfg.set_surface_param("absorption", path, v, self.scene.building)
        cfg.paths["project_dir"] = out_dir
        cfg.paths["buffer_dir"] = os.path.join(out_dir, "states")
        return cfg

    def absorption_of(self, path):
        value = self.default_abs
        for p, v in self.own:
            if path == p or path.startswith(p + "/"):
                value = v
        return value

    def reflecting(self):
        """Surfaces that reflect, with their absorption."""
        for s in self.scene.polys:
            s.absorption = self.absorption_of(s.path)
        return [s for s in self.scene.polys if self.opaque or s.partner is None]

    def execute(self, scratch, batch=None, name="sim"):
        """Returns (positions, energies, hits) of all steps."""
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.simulation import Simulation

        out = os.path.join(scratch, name)
        shutil.rmtree(out, ignore_errors=True)
        cfg = self.config(out, batch)
        np.random.seed(self.seed)
        try:
            sim = Simulation(self.scene.building, cfg)
            last = sim.run()
            pos, enr, hit = read_buffers(cfg.paths["buffer_dir"], cfg)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        return pos, enr, hit, last


def outcomes(surfs, p, d, energy, step, absorb=True, depth=14):
    """All admissible results (direction, energy, moved, turns) of one step of a live ray at p going along d.

    A ray turns at the nearest reflecting surface ahead as long as that surface is within reach.
    Situations that rounding decides give several results.
    """
    near = []
    for s in surfs:
        if abs(float(s.n @ p) - s.d) > REACH * step * 1.001:
            continue
        if ((s.lo - p) > REACH * step * 1.001).any() or ((p - s.hi) > REACH * step * 1.001).any():
            continue
        h = s.dist(p)
        if h <= REACH * step * (1 + 1e-6) + 1e-9:
            near.append((h, s))
    res = []
    todo = [(d, energy, ())]
    steps = 0
    while todo:
        steps += 1
        if steps > 4000:
            return None
        d, e, turns = todo.pop()
        sure, cands = math.inf, []
        for h, s in near:
            k, _ = s.hit(p, d)
            if k < 0:
                continue
            cands.append((h, s))
            if k == 1:
                sure = min(sure, h)
        if sure > step * (1 + 1e-9):
            res.append((d, e, True, turns))
        if len(turns) >= depth:
            return None
        for h, s in cands:
            if h > sure + 1e-6 * step + 1e-9:
                continue
            e2 = e - s.absorption if absorb else e
            if absorb and e2 <= EPS:
                res.append((d, 0.0, False, turns + (s,)))
                if e2 < EPS - 1e-9:
                    continue
            todo.append((d - 2 * float(s.n @ d) * s.n, e2, turns + (s,)))
    return res


def freeze(building, cfg):
    """Everything a run is not allowed to change."""
    def plain(o):
        if isinstance(o, dict):
            return {str(k): plain(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [plain(v) for v in o]
        if isinstance(o, np.ndarray):
            return o.tolist()
        return o

    polys = [(p.path, p.pts.tolist(), p.tri.tolist(), p.vn.tolist()) for p in bl.all_polygons(building)]
    return polys, plain(cfg.engine), plain(cfg.rays), plain(cfg.surfaces), plain(cfg.paths), plain(cfg.visualization)


def simulate(run, scratch, batch=None, threads=None, twice=False):
    """Run (the second time of two, if `twice`) and report (positions, energies, hits, last rows, inputs unchanged)."""
    from building3d.sim.rays.dump_buffers import read_buffers
    from building3d.sim.rays.simulation import Simulation

    if threads:
        import numba

        numba.set_num_threads(threads)
    out = os.path.join(scratch, "sim%d" % os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    cfg = run.config(out, batch)
    before = freeze(run.scene.building, cfg)
    np.random.seed(run.seed)
    try:
        s = Simulation(run.scene.building, cfg)
        last = s.run()
        if twice:
            np.random.seed(run.seed)
            last = s.run()
        pos, enr, hit = read_buffers(cfg.paths["buffer_dir"], cfg)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return pos, enr, hit, last, freeze(run.scene.building, cfg) == before

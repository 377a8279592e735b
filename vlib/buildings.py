"""Multi-solid building workloads described by integer boxes and plans."""

import numpy as np

from . import gen, ref
from .solids import Plan


class Block:
    """An axis-aligned integer box [lo, hi) and where it lives in the building."""

    def __init__(self, lo, hi, name=None, zone=None):
        self.lo = tuple(int(v) for v in lo)
        self.hi = tuple(int(v) for v in hi)
        self.name = name
        self.zone = zone

    def overlaps(self, o):
        return all(self.lo[k] < o.hi[k] and o.lo[k] < self.hi[k] for k in range(3))

    def locate(self, p):
        if any(p[k] < self.lo[k] or p[k] > self.hi[k] for k in range(3)):
            return "out"
        if any(p[k] in (self.lo[k], self.hi[k]) for k in range(3)):
            return "on"
        return "in"

    def volume(self):
        return int(np.prod([self.hi[k] - self.lo[k] for k in range(3)]))

    def contact(self, o):
        """(axis, my side, rectangle) of the shared face region with positive area, or None."""
        for ax in range(3):
            for side, a, b in ((1, self.hi[ax], o.lo[ax]), (0, self.lo[ax], o.hi[ax])):
                if a != b:
                    continue
                r = [(max(self.lo[k], o.lo[k]), min(self.hi[k], o.hi[k])) for k in range(3) if k != ax]
                if all(x < y for x, y in r):
                    return ax, side, r
        return None

    def face(self, ax, side):
        """Rectangle ((lo, hi), (lo, hi)) of a face in the two other axes."""
        return [(self.lo[k], self.hi[k]) for k in range(3) if k != ax]

    def describe(self):
        return [list(self.lo), list(self.hi), self.name, self.zone]


def scatter(rng, n, span=(8, 8, 6), minsize=1, maxsize=5, touch=0.7):
    """Non-overlapping integer boxes, most of them in contact with an earlier one."""
    out = []
    tries = 0
    while len(out) < n and tries < 400:
        tries += 1
        size = [int(v) for v in rng.integers(minsize, maxsize + 1, 3)]
        if out and rng.random() < touch:
            b = out[int(rng.integers(len(out)))]
            ax, side = int(rng.integers(3)), int(rng.integers(2))
            lo = [0, 0, 0]
            for k in range(3):
                if k == ax:
                    lo[k] = b.hi[k] if side else b.lo[k] - size[k]
                else:
                    how = int(rng.integers(0, 4))
                    if how == 0:  # same extent
                        lo[k], size[k] = b.lo[k], b.hi[k] - b.lo[k]
                    elif how == 1:  # aligned on one side
                        lo[k] = b.lo[k] if rng.random() < 0.5 else b.hi[k] - size[k]
                    else:
                        lo[k] = int(rng.integers(b.lo[k] - size[k] + 1, b.hi[k]))
        else:
            lo = [int(rng.integers(-2, s)) for s in span]
        c = Block(lo, [lo[k] + size[k] for k in range(3)])
        if not any(c.overlaps(o) for o in out):
            out.append(c)
    return out


def grid(rng, nmax=8):
    """Cells of an irregular grid: every contact is a full face on both sides."""
    cuts = []
    for _ in range(3):
        k = int(rng.choice([1, 2, 3], p=[0.4, 0.4, 0.2]))
        cuts.append(np.concatenate([[0], np.cumsum(rng.integers(1, 4, k))]))
    cells = [
        Block((cuts[0][a], cuts[1][b], cuts[2][c]), (cuts[0][a + 1], cuts[1][b + 1], cuts[2][c + 1]))
        for a in range(len(cuts[0]) - 1)
        for b in range(len(cuts[1]) - 1)
        for c in range(len(cuts[2]) - 1)
    ]
    keep = [c for c in cells if rng.random() < 0.85] or cells[:1]
    rng.shuffle(keep)
    return keep[:nmax]


def assign(rng, blocks, nzones=None, shared_names=False):
    """Give every block a name and a zone; returns zone names in order."""
    nz = nzones or int(rng.integers(1, min(3, len(blocks)) + 1))
    zn = ["z%d" % k for k in range(nz)]
    used = {}
    sn = None
    if rng.random() < 0.4:
        # names that begin with, or equal, other names in the building
        pool = [["z", "z1", "z10", "b"], ["zone 1", "zone 10", "zone 1a", "Zone 1"], ["north wing", "north wing ", "north win", "north-wing"]]
        zn = [str(v) for v in rng.permutation(pool[int(rng.integers(3))])[:nz]] if nz <= 4 else zn
        sn = [str(v) for v in rng.permutation(["s", "s1", "s10", "s1 ", "b", "z", "z1", "wall_0", "floor", "S1"])]
    for k, b in enumerate(blocks):
        b.zone = zn[k] if k < nz else zn[int(rng.integers(nz))]
        n = used.setdefault(b.zone, 0) if shared_names else k
        b.name = sn[n] if sn and n < len(sn) else "s%d" % n
        used[b.zone] = used.get(b.zone, 0) + 1
    return zn


class Frame:
    """Scale and shift from lattice to space."""

    def __init__(self, rng=None, unit=None, off=None):
        if unit is None:
            unit = float(rng.choice([1.0, 0.5, 0.25, 0.7, 0.1]))
        if off is None:
            off = np.zeros(3) if rng.random() < 0.4 else np.round(rng.uniform(-5, 5, 3), 2)
        self.unit, self.off = unit, np.array(off, dtype=float)

    def pt(self, p):
        return np.array([float(v) for v in p]) * self.unit + self.off


def make_box(b, fr, name=None):
    from building3d.geom.solid.box import box

    d = [(b.hi[k] - b.lo[k]) * fr.unit for k in range(3)]
    return box(*d, move=tuple(float(v) for v in fr.pt(b.lo)), name=name or b.name)


def make_building(blocks, zones, fr, name="b"):
    from building3d.geom.building import Building
    from building3d.geom.zone import Zone

    return Building(
        [Zone([make_box(b, fr) for b in blocks if b.zone == z], name=z) for z in zones], name=name
    )


NAMES = [
    "a", "b", "c", "room", "room 1", "Room", "0", "1.5", "x.y", "a-b", "a_b", "zażółć", "日本", "'q'", '"dq"', "{}", "[0]",
    "*", "back\\slash", "tab\tname", " lead", "", "null", "pts", "zones", "name", "uid", "tri",
]


class Namer:
    """Names unique per parent; optionally unusual ones."""

    def __init__(self, rng, odd):
        self.rng, self.odd, self.n = rng, odd, 0

    def __call__(self, used):
        while True:
            if self.odd and self.rng.random() < 0.7:
                nm = NAMES[int(self.rng.integers(len(NAMES)))]
            else:
                self.n += 1
                nm = "n%d" % self.n
            if nm not in used:
                used.add(nm)
                return nm


def random_polygon(rng, name):
    """A polygon of any shape in any plane, given by its corners starting anywhere convex."""
    from building3d.geom.polygon import Polygon

    from .polys import random_lp

    lp = random_lp(rng, size=8)
    return Polygon(lp.pts.copy(), name=name), lp


def mixed(rng, odd_names=False, empties=0.0, stitched=False, loose=0.3, nsolids=(1, 4)):
    """A building of boxes, extruded plans and loose polygons; returns (building, description)."""
    from building3d.geom.building import Building
    from building3d.geom.solid import Solid
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    from .solids import random_plan

    nm = Namer(rng, odd_names)
    zu = set()
    zones, desc = [], []
    n = int(rng.integers(*nsolids))
    blocks = scatter(rng, n, touch=0.9)
    fr = Frame(rng)
    nz = int(rng.integers(1, 4) if rng.random() < 0.85 else rng.integers(4, 12))
    parts = [[] for _ in range(nz)]
    for b in blocks:
        parts[int(rng.integers(nz))].append(("box", b))
    for _ in range(int(rng.integers(0, 3))):
        parts[int(rng.integers(nz))].append(("plan", None))
    if rng.random() < loose:
        parts[int(rng.integers(nz))].append(("loose", None))
    for k in range(nz):
        if not parts[k] and empties == 0:
            parts[k].append(("plan", None))
        while rng.random() < empties:
            parts[k].insert(int(rng.integers(len(parts[k]) + 1)), ("empty", None))
    for k in range(nz):
        su, solids = set(), []
        for kind, b in parts[k]:
            name = nm(su)
            desc.append((kind, b.describe()[:2] if b is not None else None))
            if kind == "box":
                s = make_box(b, fr, name=name or "x")
                if name == "":
                    s.name = name
            elif kind == "plan":
                pl = random_plan(rng, size=5)
                desc[-1] = (kind, pl.uv)
                s = floor_plan(pl.plan, pl.h, translate=tuple(float(v) for v in pl.move), rot_angle=pl.rot, name="x")
                s.name = name
            elif kind == "loose":
                walls, wu = [], set()
                for _ in range(int(rng.integers(1, 4))):
                    pu, ps = set(), []
                    for _ in range(int(rng.integers(1, 4))):
                        ps.append(random_polygon(rng, nm(pu))[0])
                    walls.append(Wall(ps, name=nm(wu)))
                s = Solid(walls, name=name)
            else:
                s = Solid(name=name)
            if rng.random() < empties and kind != "empty":
                walls = list(s.walls.values())
                at = int(rng.integers(len(walls) + 1))
                wu = {w.name for w in walls}
                walls.insert(at, Wall(name=nm(wu)))
                s = Solid(walls, name=s.name)
            solids.append(s)
        zones.append(Zone(solids, name=nm(zu)))
    bn = NAMES[int(rng.integers(len(NAMES)))] if odd_names else "b"
    B = Building(zones, name=bn)
    if stitched:
        B.stitch_solids()
    return B, dict(name=bn, unit=fr.unit, off=fr.off, parts=desc, stitched=stitched)


def all_polygons(B):
    return [p for z in B.zones.values() for s in z.solids.values() for w in s.walls.values() for p in w.polygons.values()]


def edit(rng, B, step):
    """One random change of the model; returns a description, or None if nothing could be changed."""
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid.box import box
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    from .solids import random_plan

    zones = list(B.zones.values())
    solids = [s for z in zones for s in z.solids.values()]
    walls = [w for s in solids for w in s.walls.values()]
    polys = [p for w in walls for p in w.polygons.values()]
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    name = "edit%d" % step
    kind = int(rng.integers(8))
    if kind == 0 and zones:
        z = pick(zones)
        z.add_solid(box(1.0, 2.0, 0.5, move=tuple(float(v) for v in rng.integers(-9, 9, 3)), name=name))
        return ["solid", z.path]
    if kind == 1:
        pl = random_plan(rng, size=5)
        B.add_zone(Zone([floor_plan(pl.plan, pl.h, translate=tuple(float(v) for v in pl.move), rot_angle=pl.rot, name="s")], name=name))
        return ["zone", name]
    if kind == 2 and polys:
        p = pick(polys)
        p.parent.replace_polygon(p.name, p.flip(p.name if rng.random() < 0.5 else name))
        return ["flip", p.name]
    if kind in (3, 4) and polys:
        many = [p for p in polys if len(p.tri) > 1]
        if not many:
            return None
        p = pick(many)
        parts = [Polygon(np.array(p.pts[t]), name="%s-%d" % (name, k)) for k, t in enumerate(p.tri)]
        p.parent.replace_polygon(p.name, *parts)
        return ["split", p.name]
    if kind == 5 and walls:
        w = pick(walls)
        w.add_polygon(random_polygon(rng, name)[0])
        return ["polygon", w.path]
    if kind == 6 and solids:
        s = pick(solids)
        s.add_wall(Wall([random_polygon(rng, "p%d" % k)[0] for k in range(int(rng.integers(0, 3)))], name=name))
        return ["wall", s.path]
    if kind == 7 and walls:
        w = pick(walls)
        w.parent.replace_wall(w.name, Wall([p.flip(p.name) for p in w.polygons.values()], name=w.name if rng.random() < 0.5 else name))
        return ["replaced wall", w.name]
    return None


def edits(rng, B, n, first=0):
    """`n` changes in a row."""
    done = []
    while len(done) < n:
        e = edit(rng, B, first + len(done))
        if e:
            done.append(e)
    return done

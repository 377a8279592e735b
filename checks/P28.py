"""P28: volumes add up and adjacency of solids follows from where they are."""
import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.zone import Zone

from vlib import buildings as bl
from vlib import sim
from vlib.solids import random_plan

LEVEL = "exploration"
RULE = (
    "buildings of 1-7 lattice boxes (scattered, gridded) and extruded plans, also stacked and with gaps, over 1-3 zones: volumes and extents of solids, zones and "
    "building against the exact ones, adjacency and interface answers of all ordered pairs of solids against the exact contact, repeated after new solids, zones, other walls, "
    "stitching and rotation. Distinct = different layout and history."
)
ASSUMPTIONS = ["unstitched contacts where one face lies inside the other are only required to be symmetric"]
PLAN = {"quick": (1200, 52), "thorough": (20000, 600)}
REQUIRE = {"volumes": 800, "pairs": 800, "adjacent": 200, "apart": 250, "interfaces": 60, "grown": 60, "stitched": 25, "rotated": 40, "reshaped": 8, "stacks": 30, "corner_contacts": 30, "slid": 50}


class Room:
    """A solid, its exact volume and the box or plan it was made from."""

    def __init__(self, solid, volume, lo, hi, block=None):
        self.solid, self.volume, self.block = solid, volume, block
        self.lo, self.hi = np.array(lo, dtype=float), np.array(hi, dtype=float)


def close(a, b, size):
    return abs(a - b) <= 1e-9 * (1 + abs(b)) * (1 + size)


def volumes(ctx, B, rooms):
    size = float(max(np.abs(r.lo).max() + np.abs(r.hi).max() for r in rooms))
    seen = 0.0
    for z in B.zones.values():
        mine = [r for r in rooms if r.solid.parent is z]
        for r in mine:
            ctx.count("volumes")
            ctx.require(close(r.solid.volume, r.volume, size), "solid-volume", "a solid reports another volume", solid=r.solid.path, got=r.solid.volume, expected=r.volume)
        want = sum(r.volume for r in mine)
        ctx.require(close(z.volume(), want, size), "zone-volume", "the volume of a zone is not the sum of its solids", zone=z.path, got=z.volume(), expected=want)
        seen += want
        if mine:
            lo, hi = z.bbox()
            ctx.require(
                np.allclose(lo, np.min([r.lo for r in mine], axis=0), atol=1e-9 * (1 + size)) and np.allclose(hi, np.max([r.hi for r in mine], axis=0), atol=1e-9 * (1 + size)),
                "zone-extent", "a zone reports another extent", got=[lo, hi],
            )
    ctx.require(close(B.volume(), seen, size), "building-volume", "the volume of a building is not the sum of its zones", got=B.volume(), expected=seen)


def relation(a, b):
    """"apart", "adjacent" or "inside" for two boxes."""
    c = a.contact(b)
    if c is None:
        return "apart"
    ax, side, r = c
    fa, fb = a.face(ax, side), b.face(ax, 1 - side)
    if fa == fb:
        return "adjacent"
    return "inside" if r in (fa, fb) else "adjacent"


def touch(a, b):
    """Boxes that meet only along an edge or in a corner."""
    return a.contact(b) is None and all(a.lo[k] <= b.hi[k] and b.lo[k] <= a.hi[k] for k in range(3))


def pairs(ctx, rng, rooms, stitched):
    """All pairs of boxes; `stitched` is None if some walls were replaced after stitching."""
    rooms = [r for r in rooms if r.block is not None]
    for i, a in enumerate(rooms):
        for b in rooms[i + 1:]:
            rel = relation(a.block, b.block)
            near = touch(a.block, b.block)
            if rel == "apart" and not near and rng.random() < 0.6:
                continue
            got = [bool(a.solid.is_adjacent_to_solid(b.solid)), bool(b.solid.is_adjacent_to_solid(a.solid))]
            ctx.count("pairs")
            info = dict(first=a.block.describe(), second=b.block.describe(), got=got, stitched=stitched)
            ctx.require(got[0] == got[1], "symmetric", "adjacency depends on the order of the solids", **info)
            if rel == "apart":
                ctx.count("corner_contacts" if near else "apart")
                ctx.require(not got[0], "adjacent", "solids that share no wall area are reported adjacent", **info)
            elif stitched or (rel == "adjacent" and stitched is False):
                ctx.count("adjacent")
                ctx.require(got[0], "adjacent", "solids that share wall area are not reported adjacent", **info)
            ok = [bool(a.solid.has_correct_interface(b.solid)), bool(b.solid.has_correct_interface(a.solid))]
            ctx.require(ok[0] == ok[1], "symmetric", "the interface answer depends on the order of the solids", **info)
            if rel == "apart":
                ctx.require(not ok[0], "interface", "an interface is reported between solids that share no wall area", **info)
            elif stitched:
                ctx.count("interfaces")
                ctx.require(ok[0], "interface", "a stitched interface is not reported", **info)
            elif stitched is False:
                c = a.block.contact(b.block)
                full = a.block.face(c[0], c[1]) == b.block.face(c[0], 1 - c[1])
                ctx.require(ok[0] == full, "interface", "a wrong answer whether the solids have matching walls", expected=full, **info)


def boxes(ctx, rng):
    bs = bl.grid(rng, nmax=7) if rng.random() < 0.4 else bl.scatter(rng, int(rng.integers(1, 7)), touch=0.8)
    zn = bl.assign(rng, bs, shared_names=bool(rng.random() < 0.4))
    fr = bl.Frame(rng)
    late = int(rng.integers(0, min(3, len(bs))))
    ctx.info(kind="boxes", blocks=[b.describe() for b in bs], unit=fr.unit, off=fr.off, late=late)
    ctx.distinct("boxes", [b.describe() for b in bs], fr.unit, late)
    first, rest = bs[: len(bs) - late], bs[len(bs) - late:]
    rooms = [Room(bl.make_box(b, fr), b.volume() * fr.unit**3, fr.pt(b.lo), fr.pt(b.hi), b) for b in bs]
    B = Building([Zone([r.solid for r in rooms if r.block.zone == z and r.block in first], name=z) for z in zn], name="b")
    if rng.random() < 0.3:
        B.add_zone(Zone([], name="empty"))
    here = [r for r in rooms if r.block in first]
    done = False
    volumes(ctx, B, here)
    pairs(ctx, rng, here, False)
    for r in rooms:
        if r.block in rest:
            B[r.block.zone].add_solid(r.solid)
            here.append(r)
            ctx.count("grown")
            volumes(ctx, B, here)
    if rest:
        pairs(ctx, rng, here, False)
    if len(bs) > 1 and rng.random() < 0.4:
        B.stitch_solids()
        done = True
        ctx.count("stitched")
        volumes(ctx, B, here)
        pairs(ctx, rng, here, True)
    if rng.random() < 0.4:
        # other walls for one of the solids
        r = here[int(rng.integers(len(here)))]
        k = int(rng.integers(3))
        b = r.block
        if b.hi[k] - b.lo[k] > 1:
            b.hi = tuple(v - (j == k) for j, v in enumerate(b.hi))
            for w in list(bl.make_box(b, fr).walls.values()):
                r.solid.replace_wall(w.name, w)
            r.volume, r.hi = b.volume() * fr.unit**3, fr.pt(b.hi)
            ctx.count("reshaped")
            volumes(ctx, B, here)
            pairs(ctx, rng, [x for x in here if x is r or rng.random() < 0.5], None if done else False)
    if rng.random() < 0.3:
        turned(ctx, rng, B, here)
    ctx.sample(dict(kind="boxes", blocks=len(bs), zones=len(zn)))


def turned(ctx, rng, B, rooms):
    """Rotation keeps every volume."""
    C = sim.rotated_building(B, sim.rotation(rng))
    ctx.count("rotated")
    size = float(max(np.abs(r.lo).max() + np.abs(r.hi).max() for r in rooms))
    for r in rooms:
        s = C.get(r.solid.path)
        ctx.require(close(s.volume, r.volume, size), "solid-volume", "a rotated solid has another volume", got=s.volume, expected=r.volume)
    want = sum(r.volume for r in rooms)
    ctx.require(close(C.volume(), want, size), "building-volume", "a rotated building has another volume", got=C.volume(), expected=want)


def stacks(ctx, rng):
    pl = random_plan(rng, size=6, rot=0.0 if rng.random() < 0.5 else None)
    n = int(rng.integers(2, 5))
    gaps = [0.0 if rng.random() < 0.7 else float(rng.choice([0.25, 1.0])) for _ in range(n)]
    ctx.info(kind="stack", plan=pl.describe(), gaps=gaps)
    ctx.distinct("stack", pl.uv, pl.unit, pl.h, pl.rot, gaps)
    ctx.count("stacks")
    outline = np.array([pl.corner(k, False) for k in range(len(pl.uv))])
    rooms, z = [], pl.move[2]
    for k in range(n):
        z += gaps[k]
        s = floor_plan(pl.plan, pl.h, translate=(float(pl.move[0]), float(pl.move[1]), float(z)), rot_angle=pl.rot, name="s%d" % k)
        lo, hi = outline.min(axis=0), outline.max(axis=0)
        lo[2], hi[2] = z, z + pl.h
        rooms.append(Room(s, pl.volume, lo, hi))
        z += pl.h
    cut = int(rng.integers(0, n + 1))
    B = Building([Zone([r.solid for r in rooms[:cut]], name="low"), Zone([r.solid for r in rooms[cut:]], name="high")], name="b")
    volumes(ctx, B, rooms)
    for i in range(n):
        for j in range(i + 1, n):
            want = j == i + 1 and gaps[j] == 0.0
            a, b = rooms[i].solid, rooms[j].solid
            got = [bool(a.is_adjacent_to_solid(b)), bool(b.is_adjacent_to_solid(a)), bool(a.has_correct_interface(b)), bool(b.has_correct_interface(a))]
            ctx.count("pairs")
            ctx.count("adjacent" if want else "apart")
            ctx.require(got == [want] * 4, "adjacent", "a wrong adjacency or interface answer in a stack", floors=[i, j], got=got, expected=want)
    if rng.random() < 0.3:
        turned(ctx, rng, B, rooms)
    ctx.sample(dict(kind="stack", corners=len(pl.uv), floors=n))


def slid(ctx, rng):
    """Two solids, often long and thin, pushed along each other."""
    size = [[int(v) for v in np.where(rng.random(3) < 0.4, rng.integers(6, 25, 3), rng.integers(1, 5, 3))] for _ in range(2)]
    ax = int(rng.integers(3))
    lo = [0, 0, 0]
    for k in range(3):
        if k == ax:
            lo[k] = size[0][k] + int(rng.random() < 0.1)
        else:
            # from meeting in one line only to the same extent
            how = rng.random()
            ends = [-size[1][k], size[0][k]]
            if how < 0.4:
                lo[k] = ends[0] + 1 if rng.random() < 0.5 else ends[1] - 1
            elif how < 0.5:
                lo[k] = ends[int(rng.integers(2))]
            elif how < 0.7:
                size[1][k] = size[0][k]
            else:
                lo[k] = int(rng.integers(ends[0] + 1, ends[1]))
    bs = [bl.Block([0, 0, 0], size[0], "s0", "z"), bl.Block(lo, np.add(lo, size[1]), "s1", "z")]
    fr = bl.Frame(rng)
    ctx.info(kind="slid", blocks=[b.describe() for b in bs], unit=fr.unit, off=fr.off)
    ctx.distinct("slid", [b.describe() for b in bs], fr.unit)
    ctx.count("slid")
    rooms = [Room(bl.make_box(b, fr), b.volume() * fr.unit**3, fr.pt(b.lo), fr.pt(b.hi), b) for b in bs]
    B = Building([Zone([r.solid for r in rooms], name="z")], name="b")
    volumes(ctx, B, rooms)
    pairs(ctx, rng, rooms, False)
    if rng.random() < 0.2 and relation(*bs) != "apart":
        B.stitch_solids()
        ctx.count("stitched")
        volumes(ctx, B, rooms)
        pairs(ctx, rng, rooms, True)


def case(ctx, i, rng):
    (boxes, slid, stacks)[int(rng.choice(3, p=[0.5, 0.3, 0.2]))](ctx, rng)

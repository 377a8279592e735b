"""P20: only shared surfaces between rooms of one zone let rays through."""
import gc

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.find_transparent import find_transparent
from building3d.sim.rays.simulation import Simulation

from vlib import buildings as bl
from vlib import sim

LEVEL = "exploration"
RULE = (
    "histories over several buildings that share names: created, replaced by new ones, extended, stitched, with faces split or turned "
    "round, while transparent surfaces are asked for and returned answers are modified; answers compared with outlines matched by an "
    "independent comparison and with exact contact areas of the integer layout. Distinct = different history."
)
ASSUMPTIONS = ["solids do not overlap, so a surface matches at most one other"]
PLAN = {"quick": (450, 75), "thorough": (9000, 600)}
REQUIRE = {"queries": 300, "after_edit": 100, "after_new": 100, "transparent": 300, "between_zones": 100, "areas": 60, "modified_answers": 50, "numbers": 60, "turned": 30}


class World:
    def __init__(self, rng, ctx, name):
        self.rng, self.ctx = rng, ctx
        bs = bl.grid(rng, 5) if rng.random() < 0.4 else bl.scatter(rng, int(rng.integers(2, 6)), touch=0.9)
        self.zones = bl.assign(rng, bs, nzones=1 if rng.random() < 0.3 else None, shared_names=rng.random() < 0.3)
        self.fr = bl.Frame(rng)
        self.late = [bs.pop() for _ in range(int(rng.integers(0, 2))) if len(bs) > 1]
        self.bs = bs
        self.B = Building([Zone([bl.make_box(b, self.fr) for b in bs if b.zone == z], name=z) for z in self.zones], name=name)
        self.pure = True  # only box faces and stitched pieces
        self.stitched = False
        if rng.random() < 0.2:
            self.B = sim.rotated_building(self.B, sim.rotation(rng))
            self.late = []
            ctx.count("turned")

    def describe(self):
        return dict(blocks=[b.describe() for b in self.bs], late=[b.describe() for b in self.late], unit=self.fr.unit, off=self.fr.off)

    def edit(self, step):
        rng = self.rng
        kind = int(rng.integers(5))
        ps = bl.all_polygons(self.B)
        if kind == 0 and self.late:
            b = self.late.pop()
            z = self.B.zones[b.zone]
            s = bl.make_box(b, self.fr, name="late")
            if "late" in z.solids:
                return None
            z.add_solid(s)
            self.bs.append(b)
            self.stitched = False
            return ["add", b.describe()]
        if kind == 1 and self.late:
            b = self.late.pop()
            name = "new%d" % step
            self.B.add_zone(Zone([bl.make_box(b, self.fr)], name=name))
            b.zone = name
            self.bs.append(b)
            self.stitched = False
            return ["zone", b.describe()]
        if kind == 2:
            p = ps[int(rng.integers(len(ps)))]
            if len(p.pts) != 4:
                return None
            a = Polygon(p.pts[[0, 1, 2]].copy(), name="t%da" % step)
            c = Polygon(p.pts[[0, 2, 3]].copy(), name="t%db" % step)
            p.parent.replace_polygon(p.name, a, c)
            self.pure = False
            return ["split", p.name]
        if kind == 3:
            p = ps[int(rng.integers(len(ps)))]
            p.parent.replace_polygon(p.name, p.flip("f%d" % step))
            self.pure = False
            return ["turn", p.name]
        if kind == 4 and self.pure and len(ps) < 40:
            self.B.stitch_solids()
            self.stitched = True
            return ["stitch"]
        return None

    def expected(self):
        surfs = []
        for z in self.B.zones.values():
            for s in z.solids.values():
                for w in s.walls.values():
                    for p in w.polygons.values():
                        surfs.append(sim.Surf(z.name, s.name, p.path, np.array(p.pts)))
                        surfs[-1].n = np.asarray(p.vn)
        sim.pair(surfs)
        return surfs

    def contact_area(self):
        """Area (both sides) shared by blocks of one zone."""
        a = 0
        for k, p in enumerate(self.bs):
            for q in self.bs[k + 1:]:
                c = p.contact(q) if p.zone == q.zone else None
                if c:
                    a += 2 * int(np.prod([y - x for x, y in c[2]]))
        return a * self.fr.unit**2


def ask(ctx, rng, W, how):
    surfs = W.expected()
    want = {s.path for s in surfs if s.partner is not None}
    ctx.count("between_zones", sum(1 for s in surfs if s.match is not None and s.partner is None) // 2)
    got = find_transparent(W.B)
    ctx.count("queries")
    ctx.count("transparent", len(want))
    ctx.require(set(got) == want, "wrong", "the set of transparent surfaces is wrong", how=how, missing=sorted(want - set(got))[:3], extra=sorted(set(got) - want)[:3])
    if W.pure and W.stitched:
        ctx.count("areas")
        area = sum(float(W.B.get(p).area) for p in got)
        ctx.require(abs(area - W.contact_area()) <= 1e-7 * (1 + area), "area", "the transparent area differs from the contact area", got=area, expected=W.contact_area())
    if rng.random() < 0.4:
        ctx.count("modified_answers")
        if isinstance(got, set):
            got.clear()
            got.add("b/nothing")
        again = find_transparent(W.B)
        ctx.require(set(again) == want, "shared", "modifying an answer changed a later answer", got=sorted(again)[:3])
    if rng.random() < 0.35 and hasattr(Simulation, "get_transparent_polygon_numbers"):
        ctx.count("numbers")
        to_array_format(W.B)
        nums = set(Simulation.get_transparent_polygon_numbers(W.B)) - {-1}
        ref = {W.B.get(p).num for p in want}
        ctx.require(nums == ref, "numbers", "the numbers of transparent surfaces are wrong", got=sorted(nums), expected=sorted(ref))


def case(ctx, i, rng):
    pool = [World(rng, ctx, "b")]
    hist = [["new", pool[0].describe()]]
    ctx.info(history=hist)
    for step in range(int(rng.integers(2, 8))):
        r = rng.random()
        k = int(rng.integers(len(pool)))
        what = None
        if r < 0.25:
            w = World(rng, ctx, "b")
            if len(pool) < 2 and rng.random() < 0.5:
                pool.append(w)
                k = len(pool) - 1
            else:
                pool[k] = w
                gc.collect()
            hist.append(["new", k, w.describe()])
            what = "after_new"
        elif r < 0.75:
            e = pool[k].edit(step)
            if e:
                hist.append([k] + e)
                what = "after_edit"
        if what is None or rng.random() < 0.8:
            if what:
                ctx.count(what)
            hist.append(["ask", k])
            ask(ctx, rng, pool[k], hist[-1])
    ctx.distinct(str(hist))

"""P12: the adjacency graph is complete, symmetric and current."""
import itertools

import numpy as np

from building3d.geom.building import Building
from building3d.geom.building.graph import graph_polygon
from building3d.geom.building.graph import graph_solid
from building3d.geom.building.graph import graph_wall
from building3d.geom.building.graph import graph_zone
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.zone import Zone

from vlib import buildings as bl

LEVEL = "exploration"
RULE = (
    "buildings of 2-6 boxes over 1-3 zones (grids and scattered contacts of every kind, decimal and binary units), histories of edits "
    "(new zones and solids, replaced walls and polygons, stitching, other buildings in between) and queries with all option, level and "
    "recalculation combinations; every answer compared with relations of all pairs of polygons - exact rectangles for untouched box "
    "faces, otherwise the pairwise answers. Distinct = different layout and history."
)
ASSUMPTIONS = [
    "a face inside another one with contact at its boundary: the graph must agree with the pairwise answer (as in P04)",
    "objects without any link may be missing from the answer",
]
PLAN = {"quick": (200, 50), "thorough": (4000, 600)}
REQUIRE = {"queries": 80, "exact_pairs": 1000, "links_facing": 25, "links_overlapping": 15, "links_touching": 500, "edits": 25, "requery": 50, "levels": 30, "after_stitch": 6}


def rel_exact(a, b):
    """Relation of two axis-parallel lattice rectangles (axis, position, sign, ranges), or None when not decided here."""
    if a[0] != b[0]:
        return None
    if a[1] != b[1]:
        return dict(facing=False, overlapping=False, touching=False)
    inter = [(max(p[0], q[0]), min(p[1], q[1])) for p, q in zip(a[3], b[3])]
    if any(x > y for x, y in inter):
        return dict(facing=False, overlapping=False, touching=False)
    if any(x == y for x, y in inter):
        return dict(facing=False, overlapping=False, touching=True)
    if a[3] == b[3]:
        return dict(facing=a[2] != b[2], overlapping=False, touching=False)
    inside = [all(q[0] <= p[0] and p[1] <= q[1] for p, q in zip(x, y)) for x, y in ((a[3], b[3]), (b[3], a[3]))]
    if any(inside):
        strict = any(all(q[0] < p[0] and p[1] < q[1] for p, q in zip(x, y)) for x, y in ((a[3], b[3]), (b[3], a[3])))
        return dict(facing=False, overlapping=False, touching=False) if strict else None
    return dict(facing=False, overlapping=True, touching=False)


class World:
    def __init__(self, ctx, B, fr):
        self.ctx, self.B, self.fr = ctx, B, fr
        self.rect = {}  # id(polygon) -> lattice rectangle
        self.keep = []  # keeps polygons alive, so that ids stay unique
        self.memo = {}

    def note(self, solid, block):
        for p in (q for w in solid.walls.values() for q in w.polygons.values()):
            lat = (np.asarray(p.pts) - self.fr.off) / self.fr.unit
            r = np.rint(lat)
            ax = [k for k in range(3) if np.ptp(r[:, k]) == 0]
            if len(ax) != 1 or np.abs(lat - r).max() > 1e-6:
                continue
            k = ax[0]
            s = p.vn[k] > 0
            self.rect[id(p)] = (k, int(r[0, k]), s, [(int(r[:, j].min()), int(r[:, j].max())) for j in range(3) if j != k])
            self.keep.append(p)

    def relation(self, p, q):
        key = (id(p), id(q)) if id(p) < id(q) else (id(q), id(p))
        if key in self.memo:
            return self.memo[key]
        self.keep += [p, q]
        r = None
        if id(p) in self.rect and id(q) in self.rect:
            r = rel_exact(self.rect[id(p)], self.rect[id(q)])
            if r is not None:
                self.ctx.count("exact_pairs")
        if r is None:
            lo1, hi1, lo2, hi2 = p.pts.min(0), p.pts.max(0), q.pts.min(0), q.pts.max(0)
            if (hi1 < lo2 - 1e-6).any() or (hi2 < lo1 - 1e-6).any():
                r = dict(facing=False, overlapping=False, touching=False)
            else:
                P, Q = (Polygon(x.pts.copy(), tri=x.tri.copy(), vn=x.vn.copy()) for x in (p, q))
                r = dict(facing=bool(P.is_facing_polygon(Q)), overlapping=bool(P.is_crossing_polygon(Q)), touching=bool(P.is_touching_polygon(Q)))
        self.memo[key] = r
        return r

    def links(self, opts):
        """Expected links between polygon paths."""
        ps = bl.all_polygons(self.B)
        out = set()
        for p, q in itertools.combinations(ps, 2):
            r = self.relation(p, q)
            self.ctx.count("monitor_evaluations")
            if any(on and r[k] for k, on in opts.items()):
                out |= {(p.path, q.path), (q.path, p.path)}
                for k, on in opts.items():
                    if on and r[k]:
                        self.ctx.count("links_" + k)
        return {p.path for p in ps}, out


LEVELS = {"polygon": 0, "wall": 1, "solid": 2, "zone": 3}


def up(path, n):
    return "/".join(path.split("/")[: len(path.split("/")) - n])


def judge(ctx, W, opts, level, g, how):
    nodes, links = W.links(opts)
    n = LEVELS[level]
    nodes = {up(x, n) for x in nodes}
    links = {(up(a, n), up(b, n)) for a, b in links}
    if n:
        links = {(a, b) for a, b in links if a != b}
    ctx.count("queries")
    ctx.count("levels", n > 0)
    ctx.require(isinstance(g, dict) and set(g) <= nodes, "nodes", "the graph has unknown nodes", how=how, got=sorted(set(g) - nodes)[:4])
    got = [(a, b) for a, bs in g.items() for b in bs]
    ctx.require(len(got) == len(set(got)), "duplicates", "a link is listed twice", how=how)
    got = set(got)
    miss, extra = sorted(links - got), sorted(got - links)
    ctx.require(not miss, "missing", "a link is missing", how=how, missing=miss[:3], count=len(miss))
    ctx.require(not extra, "extra", "a link between unrelated objects is reported", how=how, extra=extra[:3], count=len(extra))


def case(ctx, i, rng):
    blocks = bl.grid(rng, 4) if rng.random() < 0.35 else bl.scatter(rng, int(rng.integers(2, 5)), touch=0.85)
    zones = bl.assign(rng, blocks, shared_names=rng.random() < 0.4)
    fr = bl.Frame(rng)
    late = []
    if len(blocks) > 1 and rng.random() < 0.6:
        late = [blocks.pop() for _ in range(int(rng.integers(1, min(3, len(blocks)))))]
    B = Building([Zone([bl.make_box(b, fr) for b in blocks if b.zone == z], name=z) for z in zones], name="b")
    W = World(ctx, B, fr)
    for b in blocks:
        W.note(B.zones[b.zone].solids[b.name], b)
    hist = []
    ctx.info(blocks=[b.describe() for b in blocks], late=[b.describe() for b in late], unit=fr.unit, off=fr.off, history=hist)
    stitched = False
    queried = 0
    for step in range(int(rng.integers(2, 6))):
        r = rng.random()
        if step and r < 0.55:
            kind = int(rng.integers(5))
            if kind in (0, 1) and late:
                b = late.pop()
                s = bl.make_box(b, fr)
                if kind == 0:
                    z = B.zones[b.zone]
                    if b.name in z.solids:
                        s = bl.make_box(b, fr, name="late")
                    if s.name in z.solids:
                        continue
                    z.add_solid(s)
                else:
                    name = "new%d" % step
                    B.add_zone(Zone([s], name=name))
                W.note(s, b)
                hist.append(["add", b.describe(), kind])
            elif kind == 2:
                ps = bl.all_polygons(B)
                p = ps[int(rng.integers(len(ps)))]
                w = p.parent
                n = len(p.pts)
                if n == 4:
                    a = Polygon(p.pts[[0, 1, 2]].copy(), name="t%da" % step)
                    c = Polygon(p.pts[[0, 2, 3]].copy(), name="t%db" % step)
                    w.replace_polygon(p.name, a, c)
                    hist.append(["split", p.name, w.path])
                else:
                    continue
            elif kind == 3:
                ps = bl.all_polygons(B)
                p = ps[int(rng.integers(len(ps)))]
                q = p.flip("f%d" % step)
                p.parent.replace_polygon(p.name, q)
                hist.append(["flip", p.name, q.path])
            elif kind == 4 and not stitched and len(bl.all_polygons(B)) < 30:
                B.stitch_solids()
                stitched = True
                hist.append(["stitch"])
            else:
                continue
            ctx.count("edits")
        opts = dict(facing=bool(rng.random() < 0.6), overlapping=bool(rng.random() < 0.5), touching=bool(rng.random() < 0.2))
        level = ["polygon", "wall", "solid", "zone"][int(rng.choice(4, p=[0.55, 0.15, 0.15, 0.15]))]
        if rng.random() < 0.15:
            # one relation alone, so that nothing else can supply its links
            one = ["facing", "overlapping", "touching", "touching"][int(rng.integers(4))]
            opts = {k: k == one for k in opts}
            level = ["wall", "solid", "zone"][int(rng.integers(3))]
        new = bool(rng.random() < 0.25)
        how = int(rng.choice(3, p=[0.6, 0.25, 0.15]))
        if how == 0:
            if rng.random() < 0.2:
                opts = dict(facing=True, overlapping=False, touching=False)
                g = B.get_graph()
                level = "polygon"
            else:
                g = B.get_graph(new=new, level=level, **opts)
        elif how == 1:
            f = dict(polygon=graph_polygon, wall=graph_wall, solid=graph_solid, zone=graph_zone)[level]
            g = f(B, **opts)
            ctx.count("direct_touching", level != "polygon" and opts == dict(facing=False, overlapping=False, touching=True))
        else:
            base = graph_polygon(B, **opts)
            copy = {k: list(v) for k, v in base.items()}
            g = base if level == "polygon" else dict(wall=graph_wall, solid=graph_solid, zone=graph_zone)[level](B, g=base, **opts)
            ctx.require(copy == base, "mutated", "the given polygon graph was changed")
        hist.append(["ask", level, opts, new, how])
        judge(ctx, W, opts, level, g, hist[-1])
        ctx.count("requery", queried > 0)
        ctx.count("after_stitch", stitched)
        queried += 1
    ctx.distinct(str([b.describe() for b in blocks]), str(hist))
    if i % 10 == 0:
        for bad in ("", "Polygon", "room"):
            try:
                B.get_graph(level=bad)
            except Exception:
                continue
            ctx.fail("level", "an unknown level is accepted", level=bad)

"""P09: stitching makes matching interfaces and conserves every solid."""
import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.solid.stitch import stitch_solids
from building3d.geom.zone import Zone

from vlib import buildings as bl
from vlib import gen, ref
from vlib.polys import related
from vlib.solids import Plan, monitor_surface, polygons, rounded

LEVEL = "exploration"
RULE = (
    "buildings of 2-6 non-overlapping integer boxes (full, aligned, cornered, crossing, nested and multi-neighbour contacts, several "
    "scales and offsets, shared solid names in different zones, rooms built with several polygons per wall) and extruded concave "
    "plans stacked on each other; pairs of single faces in axis-parallel and inclined planes, mostly nested with hidden nearest "
    "corners; stitched per pair or per building, with and without asking for the adjacency graph before. "
    "Distinct = different layout and stitching order."
)
ASSUMPTIONS = ["contact regions are computed on the integer layout; points within 1e-6 of an outline are not sampled"]
PLAN = {"quick": (1100, 58), "thorough": (20000, 620)}
REQUIRE = {
    "boxes": 50, "plans": 30, "interface_points": 500, "face_points": 2000, "contact_partial": 30, "contact_nested": 15,
    "contact_across": 8, "shared_names": 10, "graph_first": 20, "untouched_faces": 100, "restitched": 60,
    "flat": 200, "flat_inclined": 80, "plans_hidden_corners": 60,
}


class Faces:
    """Outlines of a solid before stitching."""

    def __init__(self, solid):
        self.name = solid.name
        self.walls = list(solid.walls)
        self.items = [(wn, pn, np.array(p.pts), np.array(p.vn)) for wn, pn, p in polygons(solid)]
        self.area = sum(ref.poly_area(x[2]) for x in self.items)


def containing(p, outlines):
    """Indices of outlines in whose plane `p` lies strictly inside; None if too close to an edge."""
    hit = []
    for k, pts in enumerate(outlines):
        lo, hi = pts.min(0) - 1e-6, pts.max(0) + 1e-6
        if (p < lo).any() or (p > hi).any():
            continue
        n = ref.unit_normal(pts)
        if abs(float(n @ (p - pts[0]))) > 1e-7:
            continue
        fr = ref.plane_frame(pts)
        inside, d = ref.pip_float(ref.project2(fr, p)[0], [ref.project2(fr, q)[0] for q in pts])
        if d < 1e-6:
            return None
        if inside:
            hit.append(k)
    return hit


def same_points(a, b, atol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if len(a) != len(b):
        return False
    d = np.abs(a[:, None] - b[None]).max(axis=2) <= atol
    return bool(d.any(axis=0).all() and d.any(axis=1).all())


def snapshot(solids):
    return [
        sorted((wn, pn, tuple(rounded(q) for q in p.pts)) for wn, pn, p in polygons(s)) for s in solids
    ]


def monitor(ctx, rng, solids, before, volumes, contacts):
    """contacts: list of (i, j, sampler) where sampler() gives a point of the shared region."""
    after = []
    for s, b, v in zip(solids, before, volumes):
        ctx.require(s.name == b.name and list(s.walls) == b.walls, "renamed", "stitching renamed a solid or its walls", solid=b.name, got=list(s.walls))
        if v is not None:
            monitor_surface(ctx, s, v)
            ctx.require(abs(s.volume - v) <= 1e-8 * (1 + v) * 50, "volume", "the volume changed", solid=b.name, got=s.volume, expected=v)
        ps = polygons(s)
        out = [np.asarray(p.pts) for _, _, p in ps]
        ar = sum(float(p.area) for _, _, p in ps)
        ctx.require(abs(ar - b.area) <= 1e-8 * (1 + b.area), "surface-area", "the surface area changed", solid=b.name, got=ar, expected=b.area)
        ctx.require(all(float(p.area) > 0 for _, _, p in ps), "empty-piece", "a piece has no area", solid=b.name)
        for wn, pn, p in ps:
            ctx.require(p.name == pn and p.parent is s.walls[wn] and p.path == s.path + "/" + wn + "/" + pn, "links", "a piece is not linked to its wall", got=[wn, pn, p.name])
        # every original face is covered exactly once, by pieces of the same wall with the same normal
        for wn, pn, pts, vn in b.items:
            for _ in range(6):
                w = rng.dirichlet(np.ones(3))
                t = pts[rng.choice(len(pts), 3, replace=False)]
                p = w @ t
                inside = containing(p, [pts])
                if not inside:
                    continue
                hit = containing(p, out)
                if hit is None:
                    continue
                ctx.count("face_points")
                ctx.require(len(hit) == 1, "coverage", "a point of the surface is covered %d times" % len(hit), solid=b.name, face=[wn, pn], point=p)
                qw, qn, q = ps[hit[0]]
                ctx.require(qw == wn, "wall", "a region moved to another wall", got=qw, expected=wn)
                ctx.require(np.allclose(q.vn, vn, atol=1e-7), "normal", "a piece has another normal", got=q.vn, expected=vn)
        after.append((ps, out))
    touched = [set() for _ in solids]
    for i, j, sample in contacts:
        for _ in range(8):
            p = sample()
            if p is None:
                continue
            h1, h2 = containing(p, after[i][1]), containing(p, after[j][1])
            if h1 is None or h2 is None:
                continue
            ctx.count("interface_points")
            ctx.require(len(h1) == 1 and len(h2) == 1, "interface-coverage", "a contact point is not covered once on each side", got=[len(h1), len(h2)], point=p)
            a, b = after[i][0][h1[0]], after[j][0][h2[0]]
            ctx.require(
                same_points(a[2].pts, b[2].pts), "interface-outline", "polygons on both sides of a contact do not match",
                first=[a[0], a[1], a[2].pts], second=[b[0], b[1], b[2].pts], point=p,
            )
            ctx.require(np.allclose(a[2].vn, -b[2].vn, atol=1e-7), "interface-normal", "matching polygons do not face each other")
            ctx.require(
                bool(a[2].is_facing_polygon(b[2])) and bool(b[2].is_facing_polygon(a[2])), "interface-facing", "matching polygons are not recognised as facing",
                first=a[2].pts, second=b[2].pts,
            )
            ctx.require(bool(solids[i].has_correct_interface(solids[j])) and bool(solids[j].has_correct_interface(solids[i])), "interface-reported", "a stitched interface is not reported")
            for k, (wn, _, _) in ((i, a), (j, b)):
                touched[k].add(wn)
    return touched


def untouched(ctx, solids, before, free):
    """free[k]: (wall, polygon) names of faces of solid k without any neighbour."""
    for s, b, f in zip(solids, before, free):
        for wn, pn, pts, _ in b.items:
            if (wn, pn) in f:
                ctx.count("untouched_faces")
                q = s.walls[wn].polygons.get(pn)
                ctx.require(q is not None and len(q.pts) == len(pts) and np.allclose(q.pts, pts, atol=1e-12), "untouched", "a face without neighbour was changed", solid=b.name, face=[wn, pn])


FACE = {(2, 0): ("floor", "floor"), (2, 1): ("ceiling", "ceiling")}


def face_name(solid, ax, side, fr, blk):
    v = (blk.hi if side else blk.lo)[ax] * fr.unit + fr.off[ax]
    for wn, pn, p in polygons(solid):
        if np.all(np.abs(np.asarray(p.pts)[:, ax] - v) < 1e-6):
            return wn, pn
    raise LookupError


def split_walls(rng, s):
    """The same box with a differently organised hierarchy: several polygons per wall, repeated polygon names."""
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall

    ps = [p for _, _, p in polygons(s)]
    order = rng.permutation(len(ps))
    nw = int(rng.integers(1, 4))
    walls = [Wall(name="w%d" % k) for k in range(nw)]
    for k, q in enumerate(order):
        w = walls[k % nw]
        w.add_polygon(Polygon(np.array(ps[q].pts), name="p%d" % len(w.polygons)))
    return Solid(walls, name=s.name)


def nested(rng):
    """One or two small boxes with a face strictly inside a face of a large one."""
    big = bl.Block((0, 0, 0), [int(v) for v in rng.integers(4, 8, 3)])
    out = [big]
    for _ in range(int(rng.integers(1, 3))):
        ax, side = int(rng.integers(3)), int(rng.integers(2))
        lo, hi = [0, 0, 0], [0, 0, 0]
        for k in range(3):
            if k == ax:
                d = int(rng.integers(1, 4))
                lo[k] = big.hi[k] if side else -d
                hi[k] = lo[k] + d
            else:
                lo[k], hi[k] = sorted(int(v) for v in rng.choice(np.arange(1, big.hi[k]), 2, replace=False))
        b = bl.Block(lo, hi)
        if not any(b.overlaps(o) for o in out):
            out.append(b)
    rng.shuffle(out)
    return out


def boxes(ctx, rng):
    bs = bl.scatter(rng, int(rng.choice([2, 3, 4, 5, 6], p=[0.4, 0.25, 0.2, 0.1, 0.05])), touch=0.9)
    if rng.random() < 0.25:
        bs = nested(rng)
    shared = rng.random() < 0.4
    zn = bl.assign(rng, bs, shared_names=shared)
    fr = bl.Frame(rng)
    resplit = rng.random() < 0.3
    ctx.info(blocks=[b.describe() for b in bs], unit=fr.unit, off=fr.off, resplit=resplit)
    ctx.distinct([b.describe() for b in bs], fr.unit, tuple(fr.off), resplit)
    ctx.count("boxes")
    made = [bl.make_box(b, fr) for b in bs]
    if resplit:
        made = [split_walls(rng, s) for s in made]
    B = Building([Zone([s for b, s in zip(bs, made) if b.zone == z], name=z) for z in zn], name="b")
    solids = [B[b.zone][b.name] for b in bs]
    before = [Faces(s) for s in solids]
    vol = [b.volume() * fr.unit**3 for b in bs]
    contacts, busy = [], [set() for _ in bs]
    for i, a in enumerate(bs):
        for j in range(i + 1, len(bs)):
            c = a.contact(bs[j])
            if c is None:
                continue
            ax, side, r = c
            fa, fb = a.face(ax, side), bs[j].face(ax, 1 - side)
            ina = [(r[k][0] > fa[k][0]) + (r[k][1] < fa[k][1]) for k in range(2)]
            inb = [(r[k][0] > fb[k][0]) + (r[k][1] < fb[k][1]) for k in range(2)]
            if [2, 2] in (ina, inb):
                ctx.count("contact_nested")
            elif sorted(ina) == [0, 2] or sorted(inb) == [0, 2]:
                ctx.count("contact_across")
            elif ina == [0, 0] and inb == [0, 0]:
                ctx.count("contact_full")
            else:
                ctx.count("contact_partial")

            def sample(ax=ax, a=a, side=side, r=r):
                q = [rng.uniform(*x) for x in r]
                q.insert(ax, (a.hi if side else a.lo)[ax])
                return fr.pt(q)

            contacts.append((i, j, sample))
            busy[i].add(face_name(solids[i], ax, side, fr, a))
            busy[j].add(face_name(solids[j], ax, 1 - side, fr, bs[j]))
    if shared and len({b.name for b in bs}) < len(bs):
        ctx.count("shared_names")
    if rng.random() < 0.4:
        ctx.count("graph_first")
        B.get_graph(level=str(rng.choice(["polygon", "solid"])), facing=True, overlapping=bool(rng.random() < 0.5))
    whole = rng.random() < 0.7
    pairs = [(i, j) if rng.random() < 0.5 else (j, i) for i in range(len(bs)) for j in range(i + 1, len(bs))]
    rng.shuffle(pairs)

    def go():
        if whole:
            B.stitch_solids()
        else:
            for i, j in pairs:
                stitch_solids(solids[i], solids[j])

    go()
    ctx.require([B[b.zone][b.name] is s for b, s in zip(bs, solids)] == [True] * len(bs), "replaced", "stitching replaced a solid object")
    monitor(ctx, rng, solids, before, vol, contacts)
    untouched(ctx, solids, before, [{(w, p) for w, p, _, _ in b.items} - bz for b, bz in zip(before, busy)])
    if rng.random() < 0.5:
        ctx.count("restitched")
        snap = snapshot(solids)
        go()
        ctx.require(snapshot(solids) == snap, "again", "stitching again changed the solids")


def strictly_inside(q, uv):
    n, m = len(uv), len(q)
    return all(ref.locate(p, uv) == "in" for p in q) and not any(
        ref.segments_intersect(uv[j - 1], uv[j], q[k - 1], q[k]) for j in range(n) for k in range(m)
    )


def hidden_corners(uv, q):
    """True if one of the two closest pairs of corners (each corner used once) does not see each other."""
    ds = sorted(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2, a, b) for a in uv for b in q)
    seen, pairs = set(), []
    for _, a, b in ds:
        if a not in seen and b not in seen:
            seen.update((a, b))
            pairs.append((a, b))
    for a, b in pairs[:2]:
        for o in (uv, q):
            for k in range(len(o)):
                e = o[k - 1], o[k]
                if a not in e and b not in e and ref.segments_intersect(a, b, *e):
                    return True
    return False


def nested_plans(ctx, rng):
    """A small plan strictly inside a larger one; often one whose nearest corners are around a corner of the larger one."""
    want = rng.random() < 0.6
    found = None
    for k in range(400):
        if k % 20 == 0:
            uv, _ = gen.shape(rng, size=8, kind=str(rng.choice(["rectilinear", "star", "spiral"])) if want else None)
            us, vs = [p[0] for p in uv], [p[1] for p in uv]
        x, y = int(rng.integers(min(us), max(us))), int(rng.integers(min(vs), max(vs)))
        w, h = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        if rng.random() < 0.5:
            # a side in line with a corner of the larger one
            u, v = uv[int(rng.integers(len(uv)))]
            if rng.random() < 0.5:
                y = v - h * int(rng.integers(2))
            else:
                x = u - w * int(rng.integers(2))
        q = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        if not strictly_inside(q, uv):
            continue
        found = uv, q
        if not want or hidden_corners(uv, q):
            if want:
                ctx.count("plans_hidden_corners")
            break
    if found is not None:
        ctx.count("plans_nested")
        if rng.random() < 0.5:
            found = found[::-1]
    return found


def plans(ctx, rng):
    uv, _ = gen.shape(rng, size=6)
    q = None
    if rng.random() < 0.3:
        uv, q = nested_plans(ctx, rng) or (uv, None)
    while q is None:
        if rng.random() < 0.5:
            q = gen.shape(rng, size=6)[0]
            d = [int(v) * 4 for v in rng.integers(-4, 5, 2)]
            q = [(a + d[0], b + d[1]) for a, b in q]
        else:
            q = related(rng, uv)
            q = q and q[0]
    unit = float(rng.choice([1 / 8, 0.1, 1 / 16]))
    h = [float(rng.choice([1.0, 2.5, 0.3])) for _ in range(2)]
    rot = 0.0 if rng.random() < 0.75 else float(rng.choice([np.pi / 2, -np.pi / 6, 0.7]))
    off = np.zeros(3) if rng.random() < 0.5 else np.round(rng.uniform(-4, 4, 3), 1)
    pl = [Plan(uv, unit, h[0], rot, off), Plan(q, unit, h[1], rot, off + np.array([0, 0, h[0]]))]
    ctx.info(plans=[p.describe() for p in pl])
    ctx.distinct(uv, q, unit, rot)
    ctx.count("plans")
    if rot:
        ctx.count("plans_rotated")
    solids = [floor_plan(p.plan, p.h, translate=tuple(float(v) for v in p.move), rot_angle=p.rot, name="s%d" % k) for k, p in enumerate(pl)]
    B = Building([Zone(solids, name="z")], name="b")
    before = [Faces(s) for s in solids]
    contacts, free = [], [set(), set()]
    area = float(ref.overlap_area2(uv, q))
    us, vs = [p[0] for p in uv], [p[1] for p in uv]
    if area > 0:

        def sample():
            for _ in range(60):
                u, v = rng.uniform(min(us), max(us)), rng.uniform(min(vs), max(vs))
                if ref.locate((u, v), uv) == "in" and ref.locate((u, v), q) == "in":
                    return pl[0].at(u, v, 1.0)
            return None

        contacts.append((0, 1, sample))
    skip = [("ceiling", "ceiling"), ("floor", "floor")]
    for k in range(2):
        free[k] = {(w, p) for w, p, _, _ in before[k].items if area == 0 or (w, p) != skip[k]}
    swap = rng.random() < 0.5
    whole = rng.random() < 0.5

    def go():
        if whole:
            B.stitch_solids()
        else:
            stitch_solids(*(solids[::-1] if swap else solids))

    go()
    monitor(ctx, rng, solids, before, [p.volume for p in pl], contacts)
    untouched(ctx, solids, before, free)
    if rng.random() < 0.4:
        ctx.count("restitched")
        snap = snapshot(solids)
        go()
        ctx.require(snapshot(solids) == snap, "again", "stitching again changed the solids")


def flat(ctx, rng):
    """Only the two sides of a contact, in any plane: one wall with one polygon each."""
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall

    emb = gen.embedding(rng, kind=str(rng.choice(["axis", "oblique"])))
    q = None
    while q is None:
        uv, q = gen.shape(rng, size=6)[0], None
        if rng.random() < 0.7:
            uv, q = nested_plans(ctx, rng) or (uv, None)
        else:
            q = related(rng, uv)
            q = q and q[0]
    lps = []
    for poly, sign in ((uv, 1), (q, -1)):
        if ref.area2(poly) < 0:
            poly = poly[::-1]
        poly = gen.roll(poly, int(rng.choice(gen.convex_starts(poly))))
        if sign < 0:
            poly = [poly[0]] + poly[:0:-1]
        lps.append(poly)
    ctx.info(flat=lps, plane=emb.label, o=emb.o, A=emb.A, B=emb.B, unit=emb.unit)
    ctx.distinct(uv, q, emb.label)
    ctx.count("flat")
    ctx.count("flat_inclined", emb.label == "oblique")
    solids = [Solid([Wall([Polygon(emb.pts(p), name="p")], name="w")], name="s%d" % k) for k, p in enumerate(lps)]
    before = [Faces(s) for s in solids]
    contacts = []
    area = float(ref.overlap_area2(uv, q))
    us, vs = [p[0] for p in q], [p[1] for p in q]
    if area > 0:

        def sample():
            for _ in range(60):
                u, v = rng.uniform(min(us), max(us)), rng.uniform(min(vs), max(vs))
                if ref.locate((u, v), uv) == "in" and ref.locate((u, v), q) == "in":
                    return emb.pt((u, v))
            return None

        contacts.append((0, 1, sample))
    B = Building([Zone(solids, name="z")], name="b")
    order = solids[::-1] if rng.random() < 0.5 else solids
    stitch_solids(*order)
    monitor(ctx, rng, solids, before, [None, None], contacts)
    if not contacts:
        untouched(ctx, solids, before, [{("w", "p")}] * 2)
    elif rng.random() < 0.3:
        ctx.count("restitched")
        snap = snapshot(solids)
        stitch_solids(*order)
        ctx.require(snapshot(solids) == snap, "again", "stitching again changed the solids")
    ctx.require(B["z"]["s0"] is solids[0] and B["z"]["s1"] is solids[1], "replaced", "stitching replaced a solid object")


def case(ctx, i, rng):
    k = i % 5
    (flat if k < 3 else boxes if rng.random() < 0.6 else plans)(ctx, rng)

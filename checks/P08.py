"""P08: inside / at-the-boundary answers of solids and point lookup in buildings."""
import numpy as np

from building3d.geom.building.find_location import find_location
from building3d.geom.solid.floor_plan import floor_plan

from vlib import buildings as bl
from vlib import ref
from vlib.solids import Plan, polygons, random_plan

LEVEL = "exploration"
RULE = (
    "extruded plans (convex, concave, rotated, moved) queried at lattice positions inside, outside and on every kind of boundary "
    "feature; buildings of non-overlapping integer boxes in several zones looked up at lattice points with and without search hints, again after the "
    "building has grown, was stitched or got other walls. "
    "Distinct = different solid or building with its query set."
)
ASSUMPTIONS = [
    "the inside test casts one fixed ray; a query whose ray passes within 1e-6 of an edge is judged only if every candidate agrees (documented limitation for corners)"
]
PLAN = {"quick": (5000, 50), "thorough": (25000, 600)}
REQUIRE = {"in": 500, "on": 500, "out": 500, "located": 300, "not_found": 100, "rotated": 50, "grown": 50, "stitched": 10, "reshaped": 200}


def ray_ambiguous(p, vec, polys):
    for pts in polys:
        n = ref.unit_normal(pts)
        den = float(n @ vec)
        if abs(den) < 1e-9:
            continue
        s = float(n @ (pts[0] - p)) / den
        if s < -1e-6:
            continue
        q = p + s * vec
        for k in range(len(pts)):
            if ref.dist_point_segment(q, pts[k], pts[(k + 1) % len(pts)]) < 1e-6:
                return True
    return False


VEC = np.array([0.739, 0.239, 0.113])
VEC /= np.linalg.norm(VEC)


def solid_case(ctx, rng):
    pl = random_plan(rng, far=rng.random() < 0.15)
    ctx.info(plan=pl.describe())
    ctx.distinct(pl.uv, pl.h, pl.rot, tuple(pl.move))
    if pl.rot:
        ctx.count("rotated")
    s = extrude(pl)
    query(ctx, rng, s, pl)
    if rng.random() < 0.3:
        # all walls are replaced: the solid becomes lower or higher, or moves
        p2 = Plan(pl.uv, pl.unit, pl.h * float(rng.choice([0.5, 1.0, 2.0])), pl.rot, pl.move + rng.integers(-2, 3, 3) * 0.5)
        for w in list(extrude(p2).walls.values()):
            s.replace_wall(w.name, w)
        ctx.info(then=p2.describe())
        ctx.count("reshaped")
        query(ctx, rng, s, p2)


def extrude(pl):
    return floor_plan(pl.plan, pl.h, translate=tuple(float(v) for v in pl.move), rot_angle=pl.rot)


def query(ctx, rng, s, pl):
    polys = [np.asarray(p.pts) for _, _, p in polygons(s)]
    us, vs = [p[0] for p in pl.uv], [p[1] for p in pl.uv]
    n = len(pl.uv)
    for _ in range(14):
        mode = int(rng.integers(0, 4))
        f = float(rng.choice([0.5, 0.25, 0.37, 0.9, 0.0, 1.0, -0.2, 1.3, 0.02]))
        u, v = int(rng.integers(min(us) - 3, max(us) + 4)), int(rng.integers(min(vs) - 3, max(vs) + 4))
        if mode == 0:  # a corner line
            u, v = pl.uv[int(rng.integers(n))]
        elif mode == 1:  # on or next to a wall
            k = int(rng.integers(n))
            a, b = pl.uv[k], pl.uv[(k + 1) % n]
            u, v = (a[0] + b[0]) // 2 + int(rng.integers(-1, 2)), (a[1] + b[1]) // 2 + int(rng.integers(-1, 2))
        loc = ref.locate((u, v), pl.uv)
        p = pl.at(u, v, f)
        exp = "out" if loc == "out" or f < 0 or f > 1 else "on" if loc == "on" or f in (0.0, 1.0) else "in"
        if exp == "on" and pl.rot != 0.0:
            # rotated boundary points carry rounding errors: not exactly on the surface
            ctx.count("skipped_on_rotated")
            continue
        keep = p.copy()
        ctx.count(exp)
        b = bool(s.is_point_at_boundary(p))
        ctx.require(b == (exp == "on"), "boundary-" + exp, "wrong at-the-boundary answer", point=p, expected=exp, got=b)
        g = bool(s.is_point_inside(p))
        if g != (exp != "out"):
            if exp != "on" and ray_ambiguous(p, VEC, polys):
                ctx.count("ray_on_edge")
                continue
            ctx.fail("inside-" + exp, "wrong inside answer", point=p, expected=exp, got=g)
        ctx.count("monitor_evaluations")
        ctx.require(np.array_equal(p, keep), "mutated", "a query changed the point")
    # distances to a wall far below the resolution of the shape, still clearly off it
    k = int(rng.integers(n))
    a, b = np.array(pl.uv[k], float), np.array(pl.uv[(k + 1) % n], float)
    m = 0.5 * (a + b)
    nrm = np.array([b[1] - a[1], a[0] - b[0]]) / np.linalg.norm(b - a) * (1 if pl.ccw else -1)
    for d in (1e-3, 1e-5):
        for sg, exp in ((1, "out"), (-1, "in")):
            q = pl.at(*(m + nrm * sg * d / pl.unit), 0.41)
            g = bool(s.is_point_inside(q))
            if g != (exp == "in") and ray_ambiguous(q, VEC, polys):
                continue
            ctx.count(exp)
            ctx.require(g == (exp == "in"), "inside-near-" + exp, "wrong inside answer close to a wall", point=q, expected=exp, dist=d)
            ctx.require(not s.is_point_at_boundary(q), "boundary-near", "point off the wall reported at the boundary", point=q, dist=d)


def building_case(ctx, rng):
    blocks = bl.scatter(rng, int(rng.integers(1, 7))) if rng.random() < 0.7 else bl.grid(rng)
    zones = bl.assign(rng, blocks, shared_names=rng.random() < 0.4)
    fr = bl.Frame(rng, unit=float(rng.choice([1.0, 0.5, 0.25])), off=np.round(rng.uniform(-4, 4, 3) * 8) / 8)
    ctx.info(blocks=[b.describe() for b in blocks], unit=fr.unit, off=fr.off)
    ctx.distinct([b.describe() for b in blocks], fr.unit)
    ctx.sample(dict(blocks=[b.describe() for b in blocks]))
    late = [blocks.pop() for _ in range(int(rng.integers(0, 3))) if len(blocks) > 1]
    late = [b for b in late if any(o.zone == b.zone for o in blocks)]
    zones = [z for z in zones if any(b.zone == z for b in blocks)]
    bdg = bl.make_building(blocks, zones, fr)
    ask(ctx, rng, bdg, blocks, zones, fr)
    while late or rng.random() < 0.15:
        # the building grows, or its faces are subdivided, between queries
        if late:
            b = late.pop()
            blocks.append(b)
            bdg.zones[b.zone].add_solid(bl.make_box(b, fr))
            ctx.count("grown")
        elif rng.random() < 0.5:
            bdg.stitch_solids()
            ctx.count("stitched")
        else:
            b = blocks[int(rng.integers(len(blocks)))]
            k = int(rng.integers(3))
            if b.hi[k] - b.lo[k] > 1:
                b.hi = tuple(v - (j == k) for j, v in enumerate(b.hi))
                for w in list(bl.make_box(b, fr).walls.values()):
                    bdg[b.zone][b.name].replace_wall(w.name, w)
                ctx.count("reshaped")
        ask(ctx, rng, bdg, blocks, zones, fr)


def ask(ctx, rng, bdg, blocks, zones, fr):
    paths = {"b/%s/%s" % (b.zone, b.name): b for b in blocks}
    order = ["b/%s/%s" % (z, b.name) for z in zones for b in blocks if b.zone == z]
    polys = [np.asarray(p.pts) for z in bdg.zones.values() for s in z.solids.values() for _, _, p in polygons(s)]
    lo = np.min([b.lo for b in blocks], axis=0)
    hi = np.max([b.hi for b in blocks], axis=0)
    for _ in range(10):
        if rng.random() < 0.6:
            b = blocks[int(rng.integers(len(blocks)))]
            q = [rng.integers(4 * b.lo[k], 4 * b.hi[k] + 1) / 4 for k in range(3)]
        else:
            q = [rng.integers(4 * lo[k] - 6, 4 * hi[k] + 7) / 4 for k in range(3)]
        p = fr.pt(q)
        loc = {k: b.locate(q) for k, b in paths.items()}
        ok = {k for k, v in loc.items() if v != "out"}
        hint = [order[int(rng.integers(len(order)))]] if rng.random() < 0.3 else []
        try:
            g = find_location(p, bdg, *hint)
        except RuntimeError:
            g = None
        if (g is None) != (not ok) or (ok and g not in ok):
            if ray_ambiguous(p, VEC, polys):
                ctx.count("ray_on_edge")
                continue
            ctx.fail("location", "point looked up in the wrong place", point=p, got=g, expected=sorted(ok), hint=hint)
        ctx.count("monitor_evaluations")
        if ok:
            ctx.count("located")
            first = [x for x in hint + order if x in ok][0]
            if not ray_ambiguous(p, VEC, polys):
                ctx.require(g == first or len(ok) > 1, "location-hint", "search hints were not followed", got=g, expected=first)
        else:
            ctx.count("not_found")


def case(ctx, i, rng):
    building_case(ctx, rng) if i % 3 == 2 else solid_case(ctx, rng)

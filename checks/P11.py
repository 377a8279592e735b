"""P11: meshes of polygons, walls, solids, zones and buildings contain exactly their surface."""
import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from vlib import buildings as bl, optional
from vlib import ref

vstack_mesh = optional.load("building3d.geom.mesh:vstack_mesh")

LEVEL = "exploration"
RULE = (
    "hierarchies of boxes, extruded concave plans and loose polygons with empty walls / solids / zones at any position (also stitched, and edited between queries); "
    "meshes and bounding boxes at every level compared triangle by triangle with the polygons; stacking of arbitrary mesh tuples with "
    "empty members (up to 250000 vertices) compared with a reference. Distinct = different hierarchy."
)
PLAN = {"quick": (1500, 40), "thorough": (40000, 600)}
REQUIRE = {"objects": 3000, "empty_objects": 300, "closed_solids": 300, "stacked": 300, "bboxes": 1000, "stacked_large": 20, "edited": 300}


def tri_coords(pts, tri):
    return np.asarray(pts)[np.asarray(tri)]


def expected(polys):
    """Triangles (in order) from the polygons themselves."""
    t = [tri_coords(p.pts, p.tri) for p in polys]
    return np.concatenate(t) if t else np.zeros((0, 3, 3))


def below(o):
    if isinstance(o, Wall):
        return list(o.polygons.values())
    kids = o.children.values()
    return [p for k in kids for p in below(k)]


def canon(tris):
    """Multiset of triangles independent of order and of the starting corner."""
    out = []
    for t in tris:
        c = [tuple(x) for x in t.tolist()]
        k = c.index(min(c))
        out.append(tuple(c[k:] + c[:k]))
    return sorted(out)


def judge(ctx, o, what):
    ctx.count("objects")
    polys = below(o)
    verts, faces = o.get_mesh()
    verts, faces = np.asarray(verts), np.asarray(faces)
    ctx.require(verts.ndim == 2 and verts.shape[1] == 3 and faces.ndim == 2 and faces.shape[1] == 3, "shape", "mesh arrays have a wrong shape", got=[verts.shape, faces.shape], object=what)
    exp = expected(polys)
    if not polys:
        ctx.count("empty_objects")
    ctx.require(len(faces) == len(exp), "count", "the number of faces is wrong", got=len(faces), expected=len(exp), object=what)
    if len(faces) == 0:
        return
    ctx.require(int(faces.min()) >= 0 and int(faces.max()) < len(verts), "index", "a face refers to a missing vertex", got=[int(faces.min()), int(faces.max())], size=len(verts), object=what)
    got = tri_coords(verts, faces)
    ctx.require(canon(got) == canon(exp), "triangles", "the mesh does not consist of the triangles of the polygons", object=what)
    used = {tuple(x) for p in polys for x in np.asarray(p.pts).tolist()}
    ctx.require({tuple(x) for x in verts.tolist()} == used, "vertices", "the mesh has other vertices than the polygons", object=what)
    lo, hi = o.bbox()
    ctx.count("bboxes")
    allp = np.concatenate([np.asarray(p.pts) for p in polys])
    ctx.require(np.array_equal(lo, allp.min(0)) and np.array_equal(hi, allp.max(0)), "bbox", "the bounding box is wrong", got=[lo, hi], object=what)
    area = sum(float(p.area) for p in polys)
    marea = sum(ref.tri_area(*t) for t in got)
    ctx.require(abs(area - marea) <= 1e-9 * (1 + area), "area", "mesh area differs from the area of the polygons", got=marea, expected=area, object=what)
    # orientation: each triangle points like its polygon
    k = 0
    for p in polys:
        for t in tri_coords(p.pts, p.tri):
            n = np.cross(t[1] - t[0], t[2] - t[0])
            ctx.count("monitor_evaluations")
            if np.linalg.norm(n) > 1e-9 and float(n @ p.vn) <= 0:
                ctx.fail("orientation", "a triangle points against the normal of its polygon", polygon=p.path)
            k += 1
    if isinstance(o, Solid) and abs(sum((ref.newell(np.asarray(p.pts)) for p in polys), np.zeros(3))).max() < 1e-9 * (1 + area):
        ctx.count("closed_solids")
        v = float(np.einsum("ij,ij->i", got[:, 0], np.cross(got[:, 1], got[:, 2])).sum()) / 6
        ctx.require(abs(v - o.volume) <= 1e-9 * (1 + abs(v)) * (1 + abs(verts).max()), "volume", "the mesh encloses another volume than the solid reports", got=v, expected=o.volume, object=what)


def stack(ctx, rng, large=False):
    n = int(rng.integers(1, 7))
    pts, tri, exp = [], [], []
    if large:
        ctx.count("stacked_large")
    for _ in range(n):
        m = 0 if rng.random() < 0.3 else int(rng.integers(20000, 50000) if large else rng.integers(3, 7))
        p = rng.integers(-9, 9, (m, 3)).astype(float)
        t = rng.integers(0, m, (int(rng.integers(0 if rng.random() < 0.2 else 1, 5)), 3)) if m else np.zeros((0, 3), dtype=int)
        pts.append(p)
        tri.append(t.astype(np.int32))
        exp.append(p[t] if len(t) else np.zeros((0, 3, 3)))
    keep = [x.copy() for x in pts + tri]
    v, f = vstack_mesh(tuple(pts), tuple(tri))
    exp = np.concatenate(exp)
    ctx.count("stacked")
    ctx.require(len(v) == sum(map(len, pts)) and len(f) == sum(map(len, tri)), "stack-size", "stacked arrays have a wrong size", got=[len(v), len(f)])
    ctx.require(np.array_equal(v, np.concatenate(pts)), "stack-vertices", "stacked vertices are wrong", sizes=[len(x) for x in pts])
    if len(f):
        ctx.require(int(f.min()) >= 0 and int(f.max()) < len(v) and np.array_equal(v[f], exp), "stack-faces", "stacked faces refer to other vertices", sizes=[[len(x) for x in pts], [len(x) for x in tri]])
    ctx.require(all(np.array_equal(a, b) for a, b in zip(keep, pts + tri)), "stack-mutated", "stacking changed its inputs")
    v[...] = 77.0
    ctx.require(all(np.array_equal(a, b) for a, b in zip(keep, pts + tri)), "stack-alias", "the stacked mesh shares memory with its parts")


def case(ctx, i, rng):
    B, d = bl.mixed(rng, empties=0.35 if rng.random() < 0.7 else 0.0, stitched=rng.random() < 0.08)
    ctx.info(**d)
    ctx.distinct(str(d))
    look(ctx, B)
    if i % 2:
        # meshes and boxes must follow later changes of the model
        for k in range(int(rng.integers(1, 4))):
            d["edits"] = d.get("edits", []) + bl.edits(rng, B, int(rng.integers(1, 4)), first=10 * k)
            ctx.info(**d)
            ctx.count("edited")
            look(ctx, B)
    for k in range(4):
        stack(ctx, rng, large=i % 20 == 7 and k == 0)


def look(ctx, B):
    keep = [(p, np.array(p.pts), np.array(p.tri)) for p in bl.all_polygons(B)]
    judge(ctx, B, "building")
    for z in B.zones.values():
        judge(ctx, z, "zone")
        for s in z.solids.values():
            judge(ctx, s, "solid")
            for w in s.walls.values():
                judge(ctx, w, "wall")
    for p, pts, tri in keep:
        v, f = p.get_mesh()
        ctx.count("monitor_evaluations")
        if not (np.array_equal(v, pts) and np.array_equal(f, tri) and np.array_equal(p.pts, pts) and np.array_equal(p.tri, tri)):
            ctx.fail("polygon-mesh", "a polygon's mesh is not its own points and triangles", polygon=p.path)

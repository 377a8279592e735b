"""P24: movies and pictures show the recorded data."""
import os

import numpy as np
import pyvista as pv

from building3d.display.plot_objects import plot_objects
from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter
from building3d.sim.rays.simulation_config import SimulationConfig

from vlib import buildings as bl

LEVEL = "exploration"
RULE = (
    "the drawing library's plotter is instrumented: every mesh handed to it is snapshot whenever a frame or picture is produced. Movies of "
    "random recordings (2-6 rays, 3-12 or 40-79 steps, trails of 1-79 steps) and pictures of 1-5 objects with meshes, lines and points (made-up "
    "objects, buildings, recordings) are compared with the data. Distinct = different data."
)
ASSUMPTIONS = [
    "a movie may leave out the first and the last recorded step; pixels are not looked at",
]
PLAN = {"quick": (1200, 60), "thorough": (8000, 600)}
REQUIRE = {"frames": 500, "trail_vertices": 5000, "pictures": 100, "pictures_one_object": 20, "pictures_with_colors": 40, "recordings_drawn": 20, "refused": 20}
CASE_CPU_S = 60
FRAMES = []  # snapshots of the current case
DRAWN = {}  # plotter -> [(mesh, keywords)]


def snap(entry):
    mesh, kw = entry
    m = pv.wrap(mesh)
    lines = np.asarray(m.lines) if m.n_lines or len(m.lines) else np.zeros(0, int)
    scalars = m.active_scalars
    return dict(
        points=np.array(m.points, dtype=float),
        faces=np.array(m.faces).copy(),
        lines=lines.copy(),
        scalars=None if scalars is None else np.array(scalars, dtype=float),
        color=kw.get("color"),
    )


def setup(ctx):
    P = pv.Plotter
    real_add, real_clear = P.add_mesh, P.clear

    def add_mesh(self, mesh, *a, **kw):
        lst = DRAWN.setdefault(id(self), [])
        name = kw.get("name")
        if name is not None:
            lst[:] = [e for e in lst if e[1].get("name") != name]
        lst.append((mesh, kw))
        return real_add(self, mesh, *a, **kw)

    def clear(self, *a, **kw):
        DRAWN.pop(id(self), None)
        return real_clear(self, *a, **kw)

    def shot(self):
        FRAMES.append([snap(e) for e in DRAWN.get(id(self), [])])

    def touch(path):
        if path is not None and path is not False and path is not True:
            with open(path, "w") as f:
                f.write("picture")

    def show(self, *a, **kw):
        shot(self)
        touch(kw.get("screenshot"))

    def screenshot(self, filename=None, *a, **kw):
        shot(self)
        touch(filename)

    P.add_mesh, P.clear, P.show, P.screenshot = add_mesh, clear, show, screenshot
    P.write_frame = lambda self, *a, **kw: shot(self)
    P.open_gif = lambda self, filename, *a, **kw: touch(filename)
    P.open_movie = lambda self, filename, *a, **kw: touch(filename)


def polylines(points, flat):
    """The polylines of a flat [n, i, j, ...] index array."""
    out = []
    k = 0
    while k < len(flat):
        n = int(flat[k])
        out.append([int(v) for v in flat[k + 1: k + 1 + n]])
        k += n + 1
    return out


def key(a):
    return tuple(np.round(np.asarray(a, dtype=float).ravel(), 4).tolist())


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-5, atol=1e-4))  # drawn in single precision


def feature(tri):
    """A description of a triangle that does not depend on the order of its corners."""
    t = np.asarray(tri, dtype=float)
    return np.concatenate([t.sum(axis=0), (t**2).sum(axis=0), [t.prod(axis=1).sum()]])


def triangles(points, faces):
    return [feature(points[f]) for f in polylines(points, faces)]


def mesh_triangles(verts, faces):
    verts = np.asarray(verts, dtype=float)
    return [feature(verts[list(f)]) for f in faces]


def matches(a, b):
    """Whether two collections of vectors are equal up to order and single precision."""
    if len(a) != len(b):
        return False
    left = list(b)
    for x in a:
        for k, y in enumerate(left):
            if close(x, y):
                del left[k]
                break
        else:
            return False
    return True


def kind(s):
    return "mesh" if len(s["faces"]) else "lines" if len(s["lines"]) else "points"


def building_triangles(B):
    return [t for p in bl.all_polygons(B) for t in mesh_triangles(p.pts, p.tri)]


def recording(rng, steps=None):
    steps = steps or int(rng.integers(3, 13))
    rays = int(rng.integers(2, 7))
    pos = np.cumsum(rng.uniform(-1, 1, (steps, rays, 3)), axis=0)
    enr = np.cumprod(rng.uniform(0.7, 1.0, (steps, rays)), axis=0)
    return pos, enr


def movie(ctx, rng):
    B = bl.mixed(rng)[0]
    long = rng.random() < 0.1
    pos, enr = recording(rng, int(rng.integers(40, 80)) if long else None)
    cfg = SimulationConfig(B)
    trail = int(rng.integers(20, 80) if long else rng.integers(1, 15))
    cfg.visualization["ray_trail_length"] = trail
    ext = str(rng.choice([".gif", ".mp4", ".GIF", ".Mp4"]))
    ctx.info(what="movie", steps=len(pos), rays=pos.shape[1], trail=trail, ext=ext)
    ctx.distinct("movie", pos.tobytes(), trail)
    p0, e0 = pos.copy(), enr.copy()
    out = os.path.join(ctx.scratch, "movie" + ext)
    if rng.random() < 0.1:
        try:
            make_movie_from_buffer(os.path.join(ctx.scratch, "movie.avi"), B, pos, enr, cfg, verbose=False)
        except ValueError:
            ctx.count("refused")
        else:
            ctx.fail("format", "a movie format without writer was accepted")
        FRAMES.clear()
    make_movie_from_buffer(out, B, pos, enr, cfg, verbose=False)
    ctx.require(np.array_equal(p0, pos) and np.array_equal(e0, enr), "input", "drawing changed the recording")
    shown = []
    want = building_triangles(B)
    for f in FRAMES:
        ctx.count("frames")
        by = {}
        for s in f:
            by.setdefault(kind(s), []).append(s)
        ctx.require({k: len(v) for k, v in by.items()} == dict(mesh=1, lines=1, points=1), "content", "a frame does not show the building, the rays and their trails", got={k: len(v) for k, v in by.items()})
        pts, lines, mesh = by["points"][0], by["lines"][0], by["mesh"][0]
        at = [k for k in range(len(pos)) if close(pts["points"], pos[k])]
        ctx.require(len(at) == 1, "points", "the drawn rays are not at the positions of one recorded step", drawn=pts["points"], after=shown[-1:])
        k = at[0]
        ctx.require(pts["scalars"] is not None and close(pts["scalars"], enr[k]), "energy", "rays are drawn with other energies than recorded", step=k, drawn=pts["scalars"], recorded=enr[k])
        if shown:
            ctx.require(k == shown[-1] + 1, "order", "consecutive frames do not show consecutive steps", steps=shown + [k])
        shown.append(k)
        a = max(0, k + 1 - trail)
        ctx.require(lines["scalars"] is not None and len(lines["scalars"]) == len(lines["points"]), "trail-energy", "trails carry no energies", step=k)
        got = {}
        for l in polylines(lines["points"], lines["lines"]):
            got[key(lines["points"][l[-1]])] = (lines["points"][l], lines["scalars"][l])
        ctx.require(len(got) == pos.shape[1], "trails", "the number of trails is not the number of rays", step=k, got=len(got))
        for r in range(pos.shape[1]):
            mine = [v for v in got.values() if close(v[0], pos[a:k + 1, r])]
            ctx.require(len(mine) == 1, "trail", "a trail does not follow the recorded positions of its ray", step=k, ray=r, expected=pos[a:k + 1, r], drawn=[v[0] for v in got.values()])
            ctx.require(close(mine[0][1], enr[a:k + 1, r]), "trail-energy", "a trail is drawn with other energies than recorded", step=k, ray=r, expected=enr[a:k + 1, r], drawn=mine[0][1])
            ctx.count("trail_vertices", k + 1 - a)
            ctx.count("monitor_evaluations", 2)
        ctx.require(matches(triangles(mesh["points"], mesh["faces"]), want), "building", "the drawn building differs from the building", step=k)
        ctx.count("monitor_evaluations", 3)
    n = len(pos)
    need = list(range(1, n - 1))
    ctx.require(set(need) <= set(shown), "missing", "recorded steps are missing in the movie", shown=shown, steps=n)
    ctx.sample(dict(movie=ext, steps=n, rays=pos.shape[1], trail=trail, frames=len(shown)))


class Thing:
    pass


def thing(rng):
    """An object with any combination of mesh, lines and points."""
    t = Thing()
    which = int(rng.integers(1, 8))
    t.want = []
    if which & 1:
        n = int(rng.integers(3, 8))
        v = rng.uniform(-2, 2, (n, 3))
        f = np.array([rng.choice(n, 3, replace=False) for _ in range(int(rng.integers(1, 6)))])
        t.get_mesh = lambda: (v, f)
        t.want.append(("mesh", mesh_triangles(v, f)))
    if which & 2:
        n = int(rng.integers(3, 8))
        lv = rng.uniform(-2, 2, (n, 3))
        if rng.random() < 0.5:
            l = np.array([rng.choice(n, 2, replace=False) for _ in range(int(rng.integers(1, 6)))])
        else:
            l = [list(rng.choice(n, int(rng.integers(2, n + 1)), replace=False)) for _ in range(int(rng.integers(1, 4)))]
        t.get_lines = lambda: (lv, l)
        t.want.append(("lines", [lv[list(x)] for x in l]))
    if which & 4:
        pv_ = rng.uniform(-2, 2, (int(rng.integers(1, 6)), 3))
        t.get_points = lambda: pv_
        t.want.append(("points", list(pv_)))
    return t


def drawn_content(s):
    k = kind(s)
    if k == "mesh":
        return k, triangles(s["points"], s["faces"])
    if k == "lines":
        return k, [s["points"][l] for l in polylines(s["points"], s["lines"])]
    return k, list(s["points"])


def approx(a, b):
    return a[0] == b[0] and matches(a[1], b[1])


def picture(ctx, rng):
    if rng.random() < 0.06:
        for args, kw in (((), {}), ((thing(rng),), dict(colors=[(1, 0, 0)] * 2)), ((thing(rng), thing(rng)), dict(colors=[(1, 0, 0)]))):
            try:
                plot_objects(args, **kw)
            except ValueError:
                ctx.count("refused")
            else:
                ctx.fail("refusal", "nothing to draw, or a wrong number of colours, was accepted", objects=len(args))
        FRAMES.clear()
    rays = rng.random() < 0.25
    objs, want = [], []
    for _ in range(int(rng.integers(1, 6)) if not rays else 1):
        t = thing(rng)
        objs.append(t)
        want.append(t.want)
    if rng.random() < 0.3 or rays:
        B = bl.mixed(rng)[0]
        objs.insert(0, B)
        want.insert(0, [("mesh", building_triangles(B))])
    colors = ()
    if rays:
        pos, enr = recording(rng, int(rng.integers(2, 9)))
        R = RayBuffPlotter(objs[0], pos, enr)
        R_want = [("lines", [pos[:, r] for r in range(pos.shape[1])]), ("points", list(pos[-1]))]
        ctx.count("recordings_drawn")
    if rng.random() < 0.6:
        colors = [tuple(float(v) for v in rng.random(3)) if rng.random() < 0.7 else tuple(int(v) for v in rng.integers(0, 2, 3)) for _ in objs]
    out = None
    if rng.random() < 0.5:
        out = os.path.join(ctx.scratch, *(["sub"] * int(rng.integers(3))), "picture.png")
    ctx.info(what="picture", objects=len(objs), colors=list(colors), file=out is not None, rays=rays)
    ctx.distinct("picture", str(want), str(colors))
    if rays and rng.random() < 0.5:
        R.plot()
        want, colors, out = [want[0], R_want], (), None
    else:
        if rays:
            objs[-1:] = [R]
            want[-1:] = [R_want]
        plot_objects(tuple(objs), out, colors)
    ctx.count("pictures")
    ctx.count("pictures_one_object", int(len(objs) == 1))
    ctx.count("pictures_with_colors", int(len(colors) > 0))
    ctx.require(len(FRAMES) >= 1, "picture", "nothing was drawn")
    f = list(FRAMES[-1])
    ctx.require(len(f) == sum(len(w) for w in want), "count", "the number of drawn parts is not the number of parts of the objects", got=len(f), expected=sum(len(w) for w in want))
    used = []
    for n, w in enumerate(want):
        mine = []
        for part in w:
            hit = [s for s in f if approx(drawn_content(s), part) and not any(s is u for u in used)]
            ctx.require(len(hit) >= 1, "part", "part of an object is not drawn as given", object=n, part=part[0])
            s = hit[0]
            used.append(s)
            mine.append(s["color"])
            ctx.count("monitor_evaluations")
            if len(colors):
                ctx.require(s["color"] is not None and not isinstance(s["color"], str) and close(s["color"], colors[n]), "color", "an object is not drawn in its colour", object=n, objects=len(objs), got=s["color"], expected=colors[n])
        ctx.require(all(close(c, mine[0]) for c in mine) and all(0 <= v <= 1 for v in mine[0]), "color", "parts of one object have different colours", object=n, got=mine)
    if out is not None:
        ctx.require(os.path.isfile(out), "file", "the picture was not written to the given file", file=os.path.relpath(out, ctx.scratch))
    ctx.sample(dict(picture=len(objs), colors=len(colors)))


def case(ctx, i, rng):
    FRAMES.clear()
    DRAWN.clear()
    np.random.seed(int(rng.integers(2**31)))
    if i % 2:
        movie(ctx, rng)
    else:
        picture(ctx, rng)
    pv.close_all()

"""P27: simulation settings reach exactly the surfaces, steps and files they are meant for."""
import os
import shutil

import numpy as np

from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

from vlib import buildings as bl
from vlib.sim import freeze

LEVEL = "exploration"
RULE = (
    "histories of settings on one to three configurations of generated buildings (names that begin with or equal other names, empty objects, "
    "several parameters, edits in between): after every setting the values of all polygons in all configurations are compared with a plain "
    "model; simulations started with possible and impossible step counts in new, empty, filled and misplaced directories, every file compared before "
    "and after. Distinct = different building and history, or start."
)
ASSUMPTIONS = [
    "a setting concerns the polygons present when it is made; polygons added later under the same object are not judged",
    "polygons get their numbers when the building is converted to arrays",
]
PLAN = {"quick": (4000, 60), "thorough": (30000, 500)}
REQUIRE = {
    "settings": 2000, "values": 50000, "refused_paths": 500, "defaults": 300, "several": 200, "edited": 150, "starts": 150, "refused_steps": 20,
    "refused_filled": 40, "ran": 60, "unnumbered": 100, "own_parameters": 200,
}
VALUES = [0.0, 1.0, 0.5, 0.123456789, 1e-9, 0.2, 0.99, 2.0]


def blocks(rng):
    bs = bl.scatter(rng, int(rng.integers(1, 5)))
    zn = bl.assign(rng, bs, shared_names=bool(rng.random() < 0.5))
    return bl.make_building(bs, zn, bl.Frame(rng), name=str(rng.choice(["b", "z1", "s", "house"])))


class Model:
    """One configuration and what was set in it."""

    def __init__(self, B):
        self.B = B
        self.cfg = SimulationConfig(B)
        self.cfg.verbose = False
        self.default = {"absorption": self.cfg.surfaces["absorption"]["default"]}
        self.own = {"absorption": {}}
        self.under = []  # objects set so far


def objects(B):
    out = [B]
    for z in B.zones.values():
        out.append(z)
        for s in z.solids.values():
            out.append(s)
            for w in s.walls.values():
                out.append(w)
                out += list(w.polygons.values())
    return out


def compare(ctx, m, log, doubtful):
    """All values of a configuration against the model."""
    to_array_format(m.B)
    polys = bl.all_polygons(m.B)
    for par, own in m.own.items():
        arr = m.cfg.surface_params_to_array(par, m.B)
        ctx.require(isinstance(arr, np.ndarray) and arr.shape == (len(polys),) and arr.dtype == np.float64, "array", "surface values have another shape or type", got=repr(getattr(arr, "shape", arr)), expected=len(polys))
        for p in polys:
            path = p.path
            if path in doubtful:
                continue
            want = own.get(path, m.default[par])
            ctx.count("values")
            ctx.count("monitor_evaluations")
            if arr[p.num] != want:
                ctx.fail("value", "a surface has another value than the one set for it", parameter=par, path=path, got=float(arr[p.num]), expected=want, log=log[-6:])
            if path in own and m.cfg.surfaces[par][path] != want:
                ctx.fail("value", "a configuration holds another value than the one set", parameter=par, path=path, got=m.cfg.surfaces[par][path], expected=want, log=log[-6:])


def settings(ctx, rng):
    if rng.random() < 0.5:
        B = blocks(rng)
    else:
        B = bl.mixed(rng, odd_names=bool(rng.random() < 0.6), empties=float(rng.choice([0.0, 0.3])))[0]
    models = [Model(B)]
    fresh = freeze(B, models[0].cfg)[1:]
    for _ in range(int(rng.integers(0, 3))):
        models.append(Model(B if rng.random() < 0.7 else blocks(rng)))
    if len(models) > 1:
        ctx.count("several")
    if not all(p.num is not None for p in bl.all_polygons(B)) and bl.all_polygons(B):
        ctx.count("unnumbered")
        try:
            models[0].cfg.surface_params_to_array("absorption", B)
        except Exception:
            pass
        else:
            ctx.fail("unnumbered", "values were given to polygons that have no number yet")
    log, doubtful = [], set()
    for step in range(int(rng.integers(2, 9))):
        m = models[int(rng.integers(len(models)))]
        par = str(rng.choice(list(m.own)))
        r = rng.random()
        if r < 0.12:
            m.default[par] = m.cfg.surfaces[par]["default"] = float(rng.choice(VALUES))
            log.append(["default", models.index(m), par, m.default[par]])
            ctx.count("defaults")
        elif r < 0.2 and "scattering" not in m.own:
            m.cfg.surfaces["scattering"] = {"default": 0.25}
            m.own["scattering"], m.default["scattering"] = {}, 0.25
            log.append(["parameter", models.index(m)])
            ctx.count("own_parameters")
        elif r < 0.4:
            refused(ctx, rng, m, par, log)
        elif r < 0.5:
            before = {p.path for p in bl.all_polygons(m.B)}
            log.append(["edit"] + bl.edits(rng, m.B, 1, first=step))
            ctx.count("edited")
            new = {p.path for p in bl.all_polygons(m.B)} - before
            for o in models:
                if o.B is m.B:
                    doubtful |= {p for p in new if any(p == u or p.startswith(u + "/") for u in o.under)}
        else:
            objs = objects(m.B)
            obj = objs[int(rng.integers(len(objs)))]
            if rng.random() < 0.5:
                level = [o for o in objs if o.path.count("/") == int(rng.integers(5))]
                obj = level[int(rng.integers(len(level)))] if level else obj
            path, v = obj.path, float(rng.choice(VALUES)) if rng.random() < 0.7 else float(rng.random())
            if rng.random() < 0.1:
                v = int(rng.integers(0, 2))
            log.append(["set", models.index(m), par, path, v])
            res = m.cfg.set_surface_param(par, path, v, m.B)
            ctx.require(res is None, "set", "setting a value returned something", got=repr(res))
            ctx.count("settings")
            for p in bl.all_polygons(m.B):
                if p.path == path or p.path.startswith(path + "/"):
                    m.own[par][p.path] = v
                    doubtful.discard(p.path) if len(models) == 1 and len(m.own) == 1 else None
            m.under.append(path)
        ctx.info(log=log)
        if step % 3 == 2:
            for o in models:
                compare(ctx, o, log, doubtful)
    for o in models:
        compare(ctx, o, log, doubtful)
    last = SimulationConfig(B)
    last.verbose = False
    ctx.require(freeze(B, last)[1:] == fresh, "fresh", "a new configuration does not start with the same settings", log=log[-6:])
    ctx.distinct("settings", [p.path for p in bl.all_polygons(B)], log)
    ctx.sample(dict(log=log[:5]))


def refused(ctx, rng, m, par, log):
    """Paths of objects that are not there."""
    objs = objects(m.B)
    obj = objs[int(rng.integers(len(objs)))]
    known = {o.path for o in objs}
    k = int(rng.integers(6))
    parts = obj.path.split("/")
    path = [
        obj.path + "x", obj.path + "/nothing", "/".join(parts[1:]) or "nothing", "x" + obj.path,
        "/".join(parts[:-1] + [parts[-1][:-1]]), "/".join(parts[:1] + parts[2:]),
    ][k]
    if path in known or not path:
        return
    before = freeze(m.B, m.cfg)
    ctx.count("refused_paths")
    try:
        m.cfg.set_surface_param(par, path, 0.77, m.B)
    except Exception:
        pass
    else:
        ctx.fail("unknown", "a value was accepted for an object that does not exist", path=path, objects=sorted(known)[:8])
    ctx.require(freeze(m.B, m.cfg) == before, "unknown-changed", "a refused setting changed the configuration", path=path)
    log.append(["refused", path])
    try:
        m.cfg.set_surface_param("nothing", obj.path, 0.77, m.B)
    except Exception:
        pass
    else:
        empty = not any(p.path == obj.path or p.path.startswith(obj.path + "/") for p in bl.all_polygons(m.B))
        ctx.require(empty, "unknown", "a value of an unknown parameter was accepted", path=obj.path)
    ctx.require(freeze(m.B, m.cfg) == before, "unknown-changed", "a refused parameter changed the configuration", path=obj.path)


def files(top):
    """Every file and directory below `top` with its content."""
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds:
            out[os.path.join(d, n)] = None
        for n in fs:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.join(d, n)] = f.read()
    return out


def start(ctx, i, rng):
    B = blocks(rng)
    cfg = SimulationConfig(B)
    cfg.verbose = bool(rng.random() < 0.2)
    p = bl.all_polygons(B)[0]
    s = p.parent.parent
    lo, hi = np.array(s.bbox()[0]), np.array(s.bbox()[1])
    batch = int(rng.integers(1, 6))
    steps = batch * int(rng.integers(1, 4))
    possible = rng.random() < 0.75
    if not possible:
        batch = int(rng.integers(2, 7))
        steps = int(rng.integers(1, 20))
        if steps % batch == 0:
            steps += 1
    cfg.engine.update(num_steps=steps, batch_size=batch, voxel_size=float((hi - lo).min()), time_step=float((hi - lo).min()) / 343 / 10)
    sinks = int(rng.integers(1, 4))
    cfg.rays.update(num_rays=int(rng.integers(1, 4)), source=tuple((lo + hi) / 2), absorbers=[tuple(hi + 5.0)] * sinks)
    pats = [("energy_<step>.npy", "position_<step>.npy", "hits_<step>.npy"), ("e<step>.npy", "p<step>.npy", "h<step>.npy"), ("<step>.e.npy", "<step>.p.npy", "<step>.h.npy")][int(rng.integers(3))]
    cfg.paths["energy_file"], cfg.paths["position_file"], cfg.paths["hits_file"] = pats
    top = os.path.join(ctx.scratch, "s%d" % i)
    os.makedirs(os.path.join(top, "other"))
    with open(os.path.join(top, "other", "keep.txt"), "w") as f:
        f.write("keep")
    proj = os.path.join(top, str(rng.choice(["out", "a/b", "my out"])))
    buf = os.path.join(proj, "states") if rng.random() < 0.7 else os.path.join(top, "elsewhere", "s")
    cfg.paths["project_dir"], cfg.paths["buffer_dir"] = proj, buf
    state = str(rng.choice(["new", "project", "empty", "filled", "folder", "file", "hidden"], p=[0.3, 0.1, 0.15, 0.2, 0.1, 0.05, 0.1]))
    if state == "project":
        os.makedirs(proj)
        with open(os.path.join(proj, "notes.txt"), "w") as f:
            f.write("mine")
    if state in ("empty", "filled", "folder", "hidden"):
        os.makedirs(buf)
    if state == "filled":
        np.save(os.path.join(buf, str(rng.choice([pats[1].replace("<step>", "0"), pats[0].replace("<step>", "99"), "old.bin"]))), np.zeros(3))
    if state == "hidden":
        with open(os.path.join(buf, ".hidden"), "w") as f:
            f.write("x")
    if state == "folder":
        os.makedirs(os.path.join(buf, "old"))
    if state == "file":
        os.makedirs(os.path.dirname(buf), exist_ok=True)
        with open(buf, "w") as f:
            f.write("a file")
    full = state in ("filled", "folder", "file", "hidden")
    again = bool(rng.random() < 0.3)
    ctx.info(kind="start", steps=steps, batch=batch, possible=possible, state=state, patterns=pats, again=again, project=proj[len(top):], buffers=buf[len(top):])
    ctx.distinct("start", steps, batch, state, pats, again, buf[len(top):])
    ctx.count("starts")
    before, held = files(top), freeze(B, cfg)
    try:
        try:
            sim = Simulation(B, cfg)
        except Exception as e:
            ctx.require(full or not possible, "start", "a possible simulation was refused", error=repr(e)[:200])
            ctx.count("refused_filled" if full else "refused_steps")
            after = files(top)
            lost = [f for f in before if after.get(f, 0) != before[f]]
            ctx.require(not lost, "start-lost", "a refused simulation changed or removed existing files", files=lost)
            extra = [f for f in after if f not in before and after[f] is not None]
            ctx.require(not extra, "start-extra", "a refused simulation wrote files", files=extra)
            return
        ctx.require(possible, "start-steps", "a number of steps that is no multiple of the batch was accepted", steps=steps, batch=batch)
        ctx.require(not full, "start-filled", "a simulation was started in a directory that is not empty", state=state)
        sim.run()
        ctx.count("ran")
        check_files(ctx, top, before, proj, buf, pats, cfg, steps)
        ctx.require(freeze(B, cfg) == held, "inputs", "a simulation changed the building or its configuration")
        if again:
            before = files(top)
            try:
                Simulation(B, cfg)
            except Exception:
                pass
            else:
                ctx.fail("start-filled", "a second simulation was started over the results of the first one")
            after = files(top)
            ctx.require(after == before, "start-lost", "a refused simulation changed the results of the previous one")
            cfg2 = SimulationConfig(B)
            cfg2.verbose = False
            cfg2.engine, cfg2.rays = dict(cfg.engine), dict(cfg.rays)
            buf2 = os.path.join(proj, "second")
            cfg2.paths.update(project_dir=proj, buffer_dir=buf2)
            sim2 = Simulation(B, cfg2)
            sim2.run()
            ctx.count("ran")
            check_files(ctx, top, before, proj, buf2, ("energy_<step>.npy", "position_<step>.npy", "hits_<step>.npy"), cfg2, steps)
    finally:
        shutil.rmtree(top)


def check_files(ctx, top, before, proj, buf, pats, cfg, steps):
    after = files(top)
    lost = [f for f in before if after.get(f, 0) != before[f]]
    ctx.require(not lost, "run-lost", "a simulation changed or removed other files", files=lost)
    ctx.require(os.path.isdir(proj), "project", "the project directory was not created")
    want = {os.path.join(buf, pat.replace("<step>", str(k))) for pat in pats for k in range(steps + 1)}
    new = {f for f in after if f not in before and after[f] is not None}
    ctx.require(new == want, "files", "the recorded files are not the configured ones", missing=sorted(want - new)[:4], extra=sorted(new - want)[:4])
    shapes = [(cfg.rays["num_rays"],), (cfg.rays["num_rays"], 3), (len(cfg.rays["absorbers"]),)]
    for pat, shape in zip(pats, shapes):
        for k in (0, steps):
            a = np.load(os.path.join(buf, pat.replace("<step>", str(k))))
            ctx.require(a.shape == shape, "file-shape", "a recorded file has another shape", file=pat, step=k, got=list(a.shape), expected=list(shape))
    pos = np.load(os.path.join(buf, pats[1].replace("<step>", "0")))
    ctx.require(np.allclose(pos, np.array(cfg.rays["source"]), atol=1e-12), "source", "rays do not start at the source", got=pos)


def case(ctx, i, rng):
    if i % 4 == 3:
        start(ctx, i, rng)
    else:
        settings(ctx, rng)

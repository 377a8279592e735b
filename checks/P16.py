"""P16: simulation recordings survive storage and post-processing."""
import os
import shutil

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.dump_buffers import dump_buffers
from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.impulse_response import impulse_response
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter
from building3d.sim.rays.simulation_config import SimulationConfig
from building3d.types.cyclic_buffer import convert_to_contiguous
from building3d.types.cyclic_buffer import cyclic_buf

from vlib import optional

position_buffer_to_lines = optional.load("building3d.sim.rays.movie_from_buffer:position_buffer_to_lines")

LEVEL = "exploration"
RULE = (
    "random recordings (0-130 steps, 1-12 rays, 0-4 sinks, irregular doubles) written in one or several overlapping batches to new and "
    "existing directories under several file name patterns next to unrelated files, read back and compared bit by bit; ring buffers of "
    "every small size driven by random pushes against a plain list; impulse responses and line data recomputed entry by entry. "
    "Distinct = different recording shape and splitting, or ring buffer history."
)
ASSUMPTIONS = [
    "a ring buffer of n rows holds the last n-1 rows, because equal read and write positions mean empty",
    "impulse responses are scaled so that the largest total of one sink is one",
]
PLAN = {"quick": (2500, 60), "thorough": (40000, 500)}
REQUIRE = {"recordings": 300, "batches": 300, "many_steps": 60, "incomplete": 50, "ring_reads": 2000, "ring_wrapped": 300, "responses": 300, "lines": 300, "no_hits": 20}


def config(rng):
    b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
    cfg = SimulationConfig(b)
    cfg.verbose = False
    return b, cfg


def numbers(rng, shape):
    r = rng.random()
    if r < 0.5:
        return rng.uniform(-10, 10, shape)
    if r < 0.8:
        return rng.integers(0, 2**62, shape).astype(np.float64) / 2.0**40 * rng.choice([1.0, 1e-7, -1e6])
    return rng.choice([0.0, 1.0, -0.0, 1 / 3, 1e-300, 1e300, np.pi], shape)


PATTERNS = [
    None, None,
    ("energy_<step>.npy", "position_<step>.npy", "hits_<step>.npy"),
    ("<step>_e.npy", "<step>_p.npy", "<step>_h.npy"),
    ("e.<step>.npy", "p.<step>.npy", "h.<step>.npy"),
    ("x<step>e.npy", "x<step>p.npy", "x<step>h.npy"),
    ("hits_energy_<step>.npy", "position_<step>.npy", "hits_<step>.npy"),
]


def recording(ctx, i, rng):
    b, cfg = config(rng)
    steps = int(rng.choice([1, 2, 3, 9, 10, 11, 12, 30, 99, 101, 130], p=[0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.15, 0.05, 0.05, 0.05]))
    rays, sinks = int(rng.integers(1, 13)), int(rng.integers(0, 5))
    pos, enr, hit = numbers(rng, (steps, rays, 3)), numbers(rng, (steps, rays)), numbers(rng, (steps, sinks))
    keep = [pos.copy(), enr.copy(), hit.copy()]
    pat = PATTERNS[int(rng.integers(len(PATTERNS)))]
    if pat:
        cfg.paths["energy_file"], cfg.paths["position_file"], cfg.paths["hits_file"] = pat
    top = os.path.join(ctx.scratch, "r%d" % i)
    d = os.path.join(top, ["states", "a b", "out_1", "n/m", "energy_3"][int(rng.integers(5))])
    if rng.random() < 0.5:
        os.makedirs(d)
        for f in ("notes.txt", "energy_.npy", "position_x.npy", "hits_1.npy.bak", "position_-1.npy"):
            if rng.random() < 0.5:
                open(os.path.join(d, f), "w").close()
        if rng.random() < 0.3:
            os.makedirs(os.path.join(d, "old"))
            np.save(os.path.join(d, "old", "energy_999.npy"), np.zeros(3))
    # split into batches which repeat the last row of the previous one, like the simulation does
    cuts = [0]
    while cuts[-1] < steps - 1:
        cuts.append(min(steps - 1, cuts[-1] + int(rng.choice([1, 2, 5, 10, 1000]))))
    if len(cuts) == 1:
        cuts.append(0)
    ctx.info(kind="recording", steps=steps, rays=rays, sinks=sinks, cuts=cuts, patterns=pat)
    ctx.distinct(steps, rays, sinks, cuts, pat)
    ctx.count("recordings")
    ctx.count("batches", len(cuts) - 1)
    if steps > 10:
        ctx.count("many_steps")
    try:
        for a, z in zip(cuts[:-1], cuts[1:]):
            s = slice(a, z + 1)
            dump_buffers(pos[s], enr[s], hit[s], d, cfg, a)
        for got, want, name in zip((pos, enr, hit), keep, ("positions", "energies", "hits")):
            ctx.require(np.array_equal(got, want), "input", "saving changed the recording", what=name)
        for again in range(2):
            res = read_buffers(d, cfg)
            for got, want, name in zip(res, keep, ("positions", "energies", "hits")):
                ctx.require(
                    got.shape == want.shape and got.dtype == np.float64, "shape", "a recording read back has another shape or type",
                    what=name, got=[list(got.shape), str(got.dtype)], expected=list(want.shape),
                )
                same = got.tobytes() == np.ascontiguousarray(want).tobytes()
                bad = np.argwhere(~(got == want))[:2].tolist() if not same else []
                ctx.require(same, "content", "a recording read back differs", what=name, where=bad)
        if rng.random() < 0.2:
            bare = os.path.join(top, "bare")
            os.makedirs(bare)
            kept = [k for k in range(3) if rng.random() < 0.5]
            for k in kept[:2]:
                f = cfg.paths[["position_file", "energy_file", "hits_file"][k]].replace("<step>", "0")
                shutil.copy(os.path.join(d, f), bare)
            ctx.count("incomplete")
            try:
                read_buffers(bare, cfg)
            except Exception:
                ctx.count("monitor_evaluations")
            else:
                ctx.fail("incomplete", "a recording without some kind of files was read without complaint", kinds=kept[:2])
        if steps > 2 and rng.random() < 0.4:
            k = int(rng.integers(0, steps))
            f = cfg.paths[["position_file", "energy_file", "hits_file"][int(rng.integers(3))]].replace("<step>", str(k))
            os.remove(os.path.join(d, f))
            ctx.count("incomplete")
            try:
                read_buffers(d, cfg)
            except Exception:
                ctx.count("monitor_evaluations")
            else:
                ctx.fail("incomplete", "a recording with a missing file was read without complaint", missing=f)
    finally:
        shutil.rmtree(top)


def ring(ctx, rng):
    n, w = int(rng.integers(2, 9)), int(rng.integers(1, 4))
    buf = np.zeros((n, w))
    head = tail = 0
    rows = []
    k = int(rng.integers(0, 4 * n))
    ctx.info(kind="ring", size=n, width=w, pushes=k)
    ctx.distinct("ring", n, w, k)
    start = int(rng.integers(0, n)) if rng.random() < 0.4 else 0
    head = tail = start
    for j in range(k + 1):
        if j == 0 or rng.random() < 0.6 or j == k:
            ctx.count("ring_reads")
            if j > n:
                ctx.count("ring_wrapped")
            keep = buf.copy()
            got = np.array(convert_to_contiguous(buf, head, tail))
            want = np.array(rows[max(0, len(rows) - (n - 1)):]).reshape(-1, w)
            ctx.require(got.shape == want.shape and np.array_equal(got, want), "ring", "a ring buffer does not return the last rows in order", pushes=j, size=n, start=start, got=got, expected=want)
            ctx.require(np.array_equal(buf, keep), "ring-read", "reading a ring buffer changed it")
        if j == k:
            break
        row = numbers(rng, (w,))
        rows.append(row.copy())
        buf, head, tail = cyclic_buf(buf, head, tail, row, n)
        ctx.require(0 <= head < n and 0 <= tail < n, "ring-index", "a ring buffer position is outside the buffer", head=head, tail=tail)


def response(ctx, rng):
    b, cfg = config(rng)
    steps, sinks = int(rng.choice([1, 2, 7, 50, 333, 1500])), int(rng.integers(1, 5))
    dt = float(rng.choice([2.5e-5, 1e-4, 0.1, 1 / 3, 1e-3, 7e-6, 1.0]))
    cfg.engine["time_step"] = dt
    hit = np.where(rng.random((steps, sinks)) < rng.choice([0.05, 0.5, 1.0]), rng.uniform(0, 50, (steps, sinks)), 0.0)
    if rng.random() < 0.1:
        hit[:] = 0
    if rng.random() < 0.3:
        hit[:, int(rng.integers(sinks))] = 0
    keep = hit.copy()
    ctx.info(kind="response", steps=steps, sinks=sinks, time_step=dt)
    ctx.distinct("response", steps, sinks, dt, float(hit.sum()))
    total = hit.sum(axis=0).max()
    if total == 0:
        ctx.count("no_hits")
        try:
            impulse_response(hit, cfg)
        except Exception:
            ctx.count("monitor_evaluations")
        else:
            ctx.fail("no-hits", "a response was made from a recording without any hit")
        return
    ctx.count("responses")
    ir = impulse_response(hit, cfg)
    ctx.require(np.array_equal(hit, keep), "response-input", "making a response changed the recording")
    t = np.asarray(ir.index, dtype=float)
    ctx.require(ir.shape == (steps, sinks), "response-shape", "a response has another number of rows or columns", got=list(ir.shape), expected=[steps, sinks])
    err = np.abs(t - np.arange(steps) * dt)
    ctx.require(bool((err <= 1e-9 * dt * (1 + np.arange(steps))).all()), "response-time", "time stamps are not multiples of the time step", worst=float(err.max()), time_step=dt)
    v = ir.to_numpy()
    want = keep / total
    ctx.require(np.allclose(v, want, rtol=1e-9, atol=1e-15), "response-values", "a response does not contain the recorded energies", worst=float(np.abs(v - want).max()))
    ctx.require(list(ir.columns) == list(range(sinks)), "response-columns", "sinks are not in order", got=[str(c) for c in ir.columns])


def lines(ctx, rng):
    b, cfg = config(rng)
    steps, rays = int(rng.integers(1, 12) if rng.random() < 0.8 else rng.integers(12, 200)), int(rng.integers(1, 9))
    pos, enr = numbers(rng, (steps, rays, 3)), numbers(rng, (steps, rays))
    keep = pos.copy()
    ctx.info(kind="lines", steps=steps, rays=rays)
    ctx.distinct("lines", steps, rays)
    ctx.count("lines")
    P = RayBuffPlotter(b, pos, enr)
    ctx.require(np.array_equal(np.asarray(P.get_points()), keep[-1]), "plot-points", "plotted points are not the last positions")
    verts, ln = P.get_lines()
    verts = np.asarray(verts)
    ctx.require(len(ln) == rays, "plot-lines", "one line per ray expected", got=len(ln), expected=rays)
    for r in range(rays):
        got = verts[np.asarray(ln[r], dtype=int)]
        ctx.require(got.shape == (steps, 3) and np.array_equal(got, keep[:, r]), "plot-line", "a plotted line does not follow its ray", ray=r)
    verts, idx = position_buffer_to_lines(pos)
    verts, idx = np.asarray(verts), [int(v) for v in idx]
    at, r = 0, 0
    while at < len(idx):
        n = idx[at]
        got = verts[idx[at + 1: at + 1 + n]]
        ctx.require(r < rays and n == steps and np.array_equal(got, keep[:, r]), "movie-line", "a line of the movie does not follow its ray", ray=r, length=n)
        at += 1 + n
        r += 1
    ctx.require(r == rays, "movie-lines", "one line per ray expected", got=r, expected=rays)
    # the energies drawn along the lines are taken in the order steps x rays; vertices must cover all positions
    ctx.require(len(verts) == steps * rays, "movie-vertices", "every position must be drawn once", got=len(verts))
    ctx.require(np.array_equal(pos, keep), "plot-input", "drawing changed the recording")


def case(ctx, i, rng):
    k = rng.random()
    if k < 0.35:
        recording(ctx, i, rng)
    elif k < 0.6:
        ring(ctx, rng)
    elif k < 0.8:
        response(ctx, rng)
    else:
        lines(ctx, rng)

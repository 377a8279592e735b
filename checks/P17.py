"""P17: rays never leave the building (or the rooms connected to their room)."""
import numpy as np

from vlib import sim
from vlib.common import Skip

LEVEL = "exploration"
RULE = (
    "seeded simulations in boxes, concave extrusions, stacked storeys and groups of touching boxes (stitched or not, one or more zones, "
    "in any orientation), with random sources (also close to walls), step lengths up to 0.45 of the smallest feature, grid resolutions, "
    "absorptions and batch sizes; every recorded position is located in the exact layout. Distinct = different scene and configuration."
)
ASSUMPTIONS = [
    "one step with its margin is not longer than a grid cell and parallel surfaces are more than 2.02 steps apart (the loop never ends otherwise)",
    "runs in interpreted mode; P21 compares with compiled runs",
]
PLAN = {"quick": (420, 60), "thorough": (6000, 640)}
REQUIRE = {"simulations": 60, "positions": 20000, "turned": 15, "connected": 15, "separated": 8, "opaque": 5, "crossed_rooms": 20, "near_wall": 8, "reflections": 500}
CASE_CPU_S = 60


def case(ctx, i, rng):
    sc = sim.random_scene(rng)
    near = rng.random() < 0.25
    run = sim.Run(rng, sc, rays=(3, 9), source_margin=0.05 if near else 1.1)
    if run.src is None:
        raise Skip("no room for the source")
    run.opaque = rng.random() < 0.12
    ctx.info(**run.describe(), opaque=run.opaque)
    ctx.distinct(sorted(run.describe().items(), key=str))
    home = sc.locate(run.src, 0.0)
    if len(home) != 1:
        raise Skip("source on a boundary")
    allowed = {home[0]} if run.opaque else sc.component(home[0])
    pos, enr, hit, last = run.execute(ctx.scratch)
    ctx.count("simulations")
    if sc.R is not None:
        ctx.count("turned")
    if near:
        ctx.count("near_wall")
    if run.opaque:
        ctx.count("opaque")
    if len(allowed) > 1:
        ctx.count("connected")
    if len(sc.cells) > len(allowed):
        ctx.count("separated")
    want = (run.num_steps + 1, run.num_rays, 3)
    ctx.require(pos.shape == want, "shape", "the recording does not have one row per step and ray", got=list(pos.shape), expected=list(want))
    ctx.require(bool(np.isfinite(pos).all() and np.isfinite(enr).all() and np.isfinite(hit).all()), "undefined", "a position or energy is undefined")
    ctx.require(bool(np.allclose(pos[0], run.src, atol=1e-12)), "start", "rays do not start at the source", got=pos[0, 0])
    tol = 1e-7 * float(1 + np.abs(pos[0]).max() + (sc.hi - sc.lo).max())
    rooms = set()
    for r in range(run.num_rays):
        cur = {home[0]}
        for k in range(1, pos.shape[0]):
            if np.array_equal(pos[k, r], pos[k - 1, r]):
                continue
            at = sc.locate(pos[k, r], tol)
            ctx.count("positions")
            ctx.count("monitor_evaluations")
            if not at:
                ctx.fail("left", "a ray left the building", ray=r, step=k, before=pos[k - 1, r], position=pos[k, r])
            if not (set(at) & allowed):
                ctx.fail("room", "a ray entered a room that is not connected with its own", ray=r, step=k, before=pos[k - 1, r], position=pos[k, r], room=[sc.cells[j].name for j in at])
            rooms.update(at)
        d = np.diff(pos[:, r], axis=0)
        n = np.linalg.norm(d, axis=1)
        live = n > 0
        u = d[live] / n[live][:, None]
        ctx.count("reflections", int((np.abs(np.diff(u, axis=0)).max(axis=1) > 1e-6).sum()) if len(u) > 1 else 0)
    if len(rooms) > 1:
        ctx.count("crossed_rooms")
    ctx.sample(dict(kind=sc.desc["kind"], rays=run.num_rays, steps=run.num_steps))

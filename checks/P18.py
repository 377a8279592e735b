"""P18: rays move at constant speed and reflect like mirrors."""
import numpy as np

from vlib import sim
from vlib.common import Skip

LEVEL = "exploration"
RULE = (
    "seeded simulations in boxes, concave extrusions, stacked storeys and groups of touching boxes in any orientation; every recorded "
    "step of every ray is explained by a reference that knows only the outlines: length, direction and the mirror images in the "
    "surfaces ahead. Distinct = different scene and configuration."
)
ASSUMPTIONS = [
    "reach is between 1.00 and 1.01 steps, measured as distance to the surface",
    "steps decided by rounding (ray within 5e-3 of an outline, equal distances) admit every explanation",
    "sources are at least one reach away from every surface, so the first step shows the initial direction",
]
PLAN = {"quick": (380, 55), "thorough": (6000, 640)}
REQUIRE = {"simulations": 50, "steps": 20000, "straight": 10000, "turns": 500, "multiple_turns": 30, "dead_steps": 100, "through": 50}
CASE_CPU_S = 60


def case(ctx, i, rng):
    sc = sim.random_scene(rng)
    run = sim.Run(rng, sc, source_margin=1.1)
    if run.src is None or sc.clearance(run.src) < 1.02 * run.step:
        raise Skip("no room for the source")
    run.opaque = rng.random() < 0.1
    ctx.info(**run.describe(), opaque=run.opaque)
    ctx.distinct(sorted(run.describe().items(), key=str))
    surfs = run.reflecting()
    pos, enr, hit, last = run.execute(ctx.scratch)
    ctx.count("simulations")
    L = run.step
    scale = float(1 + np.abs(pos).max())
    for r in range(run.num_rays):
        d = None
        for k in range(pos.shape[0] - 1):
            a, b = pos[k, r], pos[k + 1, r]
            move = b - a
            if enr[k, r] <= sim.EPS:
                ctx.count("dead_steps")
                ctx.require(not move.any(), "dead-moved", "a ray without energy moved", ray=r, step=k, by=move)
                continue
            n = float(np.linalg.norm(move))
            if n == 0.0:
                ctx.require(enr[k + 1, r] <= sim.EPS, "stopped", "a ray with energy did not move", ray=r, step=k, at=a, energy=enr[k + 1, r])
                continue
            ctx.count("steps")
            ctx.require(abs(n - L) <= 1e-9 * L + 1e-12 * scale, "length", "a step is not speed times time step long", ray=r, step=k, got=n, expected=L)
            if d is None:
                d = move / n
            # cheap common case: nothing within reach
            res = sim.outcomes(surfs, a, d, 1.0, L, absorb=False)
            if res is None:
                ctx.count("undecided")
                d = move / n
                continue
            ok = [x for x in res if np.abs(x[0] - move / n).max() <= 1e-6 + 1e-11 * scale / L]
            ctx.count("monitor_evaluations")
            if not ok:
                straight = np.abs(move / n - d).max() <= 1e-6
                key = "missed" if straight else ("early" if all(not x[3] for x in res) else "mirror")
                msg = {
                    "missed": "a ray did not turn at a reflecting surface within reach",
                    "early": "a ray turned without a surface within reach",
                    "mirror": "a new direction is not the mirror image in the surface ahead",
                }[key]
                ctx.fail(key, msg, ray=r, step=k, position=a, direction=d, got=move / n, expected=[dict(direction=x[0], turns=[s.path for s in x[3]]) for x in res[:4]])
            t = min(len(x[3]) for x in ok)
            ctx.count("straight" if t == 0 else "turns")
            if t > 1:
                ctx.count("multiple_turns")
            d = move / n
            # independent of the reach rule: a step never crosses a reflecting surface
            for s in surfs:
                sure, t = s.hit(a, d)
                if sure == 1 and 1e-6 * L < t < L * (1 - 1e-6):
                    ctx.fail("crossed", "a ray passed through a reflecting surface", ray=r, step=k, start=a, end=b, surface=s.path)
            if any(s.partner is not None and not run.opaque and s.hit(a, d)[0] == 1 and 0 < s.hit(a, d)[1] < L for s in sc.polys):
                ctx.count("through")
    ctx.sample(dict(kind=sc.desc["kind"], rays=run.num_rays, steps=run.num_steps))

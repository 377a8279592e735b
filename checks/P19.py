"""P19: ray energy is accounted for."""
import numpy as np

from vlib import sim
from vlib.common import Skip

LEVEL = "exploration"
RULE = (
    "seeded simulations as in P18 with absorption configured for single polygons, walls, solids, zones and by default (in any order, "
    "also zero and one), and with sinks of several sizes (also overlapping, also containing the source); every change of energy is "
    "explained by the surfaces that explain the turn, or by a sink. Distinct = different scene and configuration."
)
ASSUMPTIONS = [
    "a sink takes effect in the step after the ray entered it; if sinks overlap, either may get the energy",
    "rays with energy below 1e-6 are dead",
]
PLAN = {"quick": (380, 52), "thorough": (6000, 640)}
REQUIRE = {"simulations": 50, "live_steps": 10000, "losses": 300, "distinct_losses": 60, "free_reflections": 80, "died_at_surface": 30, "absorbed": 40, "own_settings": 30, "overrides": 10}
CASE_CPU_S = 60
LEVELS = [0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 1 / 3, 0.5, 1.0]


def configure(rng, run, ctx):
    sc = run.scene
    n = int(rng.choice([0, 1, 3, 6, 10]))
    paths = [s.path for s in sc.polys]
    for _ in range(n):
        p = paths[int(rng.integers(len(paths)))].split("/")
        depth = int(rng.choice([1, 2, 3, 4, 5], p=[0.05, 0.1, 0.15, 0.2, 0.5]))
        run.own.append(("/".join(p[:depth]), float(LEVELS[int(rng.integers(len(LEVELS) - 2))]) if rng.random() < 0.9 else 1.0))
    if n:
        ctx.count("own_settings")
        if len({p for p, _ in run.own}) < len(run.own) or any(a != b and b.startswith(a + "/") for a, _ in run.own for b, _ in run.own):
            ctx.count("overrides")
    run.default_abs = float(LEVELS[int(rng.integers(0, 7))])
    for _ in range(int(rng.choice([0, 1, 2, 3], p=[0.3, 0.3, 0.2, 0.2]))):
        p = sc.source(rng, 0.01 * run.step)
        if p is not None:
            run.absorbers.append(p if rng.random() < 0.9 else run.src)
    if len(run.absorbers) > 1 and rng.random() < 0.3:
        run.absorbers[1] = run.absorbers[0] + rng.uniform(-0.5, 0.5, 3) * run.step
    run.radius = run.step * float(rng.choice([0.3, 0.7, 1.5, 3.0]))


def case(ctx, i, rng):
    sc = sim.random_scene(rng)
    run = sim.Run(rng, sc, rays=(2, 8), source_margin=1.1)
    if run.src is None or sc.clearance(run.src) < 1.02 * run.step:
        raise Skip("no room for the source")
    configure(rng, run, ctx)
    ctx.info(**run.describe())
    ctx.distinct(sorted(run.describe().items(), key=str))
    surfs = run.reflecting()
    pos, enr, hit, last = run.execute(ctx.scratch)
    ctx.count("simulations")
    L, N = run.step, pos.shape[0]
    scale = float(1 + np.abs(pos).max())
    ns = max(1, len(run.absorbers))
    ctx.require(enr.shape == (run.num_steps + 1, run.num_rays) and hit.shape == (run.num_steps + 1, ns), "shape", "energy or sink records have another shape", got=[list(enr.shape), list(hit.shape)])
    ctx.require(bool((enr[0] == 1.0).all()) and not hit[0].any(), "start", "rays do not start with energy one, or sinks with energy", got=[enr[0], hit[0]])
    ctx.require(bool((enr >= 0).all()) and bool((np.diff(enr, axis=0) <= 1e-15).all()), "grows", "an energy grew or became negative", least=float(enr.min()), most=float(np.diff(enr, axis=0).max()))
    sinks = np.array(run.absorbers).reshape(-1, 3)
    d = [None] * run.num_rays
    seen = set()
    for k in range(N - 1):
        sure, maybe = np.zeros(ns), np.zeros(ns)
        total_lo = total_hi = 0.0
        for r in range(run.num_rays):
            e0, e1 = float(enr[k, r]), float(enr[k + 1, r])
            a, move = pos[k, r], pos[k + 1, r] - pos[k, r]
            n = float(np.linalg.norm(move))
            if e0 <= sim.EPS:
                ctx.require(e1 == e0, "dead", "the energy of a dead ray changed", ray=r, step=k, before=e0, after=e1)
                continue
            ctx.count("live_steps")
            if len(sinks):
                dist = np.linalg.norm(sinks - a, axis=1)
                inside = dist < run.radius * (1 - 1e-9) - 1e-12 * scale
                close = dist < run.radius * (1 + 1e-9) + 1e-12 * scale
                if inside.any():
                    ctx.count("absorbed")
                    ctx.require(e1 == 0.0 and n == 0.0, "sink", "a ray in a sink kept its energy or moved", ray=r, step=k, energy=e1, moved=n, distance=float(dist.min()))
                    if close.sum() == 1:
                        sure[close] += e0
                    maybe[close] += e0
                    total_lo += e0
                    total_hi += e0
                    continue
                if close.any():
                    ctx.count("sink_border")
                    maybe[close] += e0
                    total_hi += e0
                    if e1 == 0.0:
                        continue
            if n > 0:
                if d[r] is None:
                    d[r] = move / n
            elif d[r] is None:
                ctx.fail("first", "a ray did not move in its first step", ray=r, energy=e1)
            res = sim.outcomes(surfs, a, d[r], e0, L)
            if res is None:
                ctx.count("undecided")
            else:
                ctx.count("monitor_evaluations")
                tol = 1e-6 + 1e-11 * scale / L
                if n > 0:
                    way = [x for x in res if x[2] and np.abs(x[0] - move / n).max() <= tol]
                    ok = [x for x in way if abs(x[1] - e1) <= 1e-12]
                else:
                    way = [x for x in res if not x[2]]
                    ok = [x for x in way if e1 == 0.0]
                if not ok:
                    ctx.fail(
                        "loss", "an energy loss does not match the absorption of the surfaces at which the ray turned", ray=r, step=k, position=a, direction=d[r],
                        before=e0, after=e1, moved=n, expected=[dict(energy=x[1], moves=x[2], turns=[(s.path, s.absorption) for s in x[3]]) for x in (way or res)[:4]],
                    )
                t = min(len(x[3]) for x in ok)
                if t and n > 0:
                    ctx.count("losses" if e1 < e0 else "free_reflections")
                    if e1 < e0:
                        seen.add(round(e0 - e1, 9))
                elif t:
                    ctx.count("died_at_surface")
            if n > 0:
                d[r] = move / n
        got = hit[k + 1]
        tot = float(got.sum())
        ctx.require(total_lo - 1e-9 <= tot <= total_hi + 1e-9, "sink-total", "sinks did not receive exactly the energy of the rays that entered", step=k, got=tot, expected=[total_lo, total_hi])
        ctx.require(bool((got >= sure - 1e-9).all() and (got <= maybe + 1e-9).all()), "sink-share", "energy was credited to another sink", step=k, got=got, expected=[sure, maybe])
    ctx.count("distinct_losses", len(seen))
    ctx.sample(dict(kind=sc.desc["kind"], settings=run.own[:3], sinks=len(run.absorbers)))

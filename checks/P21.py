"""P21: results do not depend on batching, repetition, threads or compilation."""
import numpy as np

from vlib import sim
from vlib.common import Skip
from vlib.server import Server, ServerDied

LEVEL = "exploration"
RULE = (
    "seeded simulations (scenes, sinks and absorption settings as in P19) run interpreted in one batch size, again (by the same or a new object) in the same and another one, and "
    "compiled in a second process with other batch sizes and 1-4 threads, every second case with the bounds-check sanitizer; all "
    "recordings compared ray by ray and step by step, inputs compared before and after. Distinct = different scene and configuration."
)
ASSUMPTIONS = [
    "repetitions in one mode agree to 1e-9; other batch sizes and modes agree to 1e-6 until a step that rounding decides (several admissible results for the same state)",
]
PLAN = {"quick": (240, 75), "thorough": (4000, 660)}
REQUIRE = {"compared_rays": 150, "compared_steps": 8000, "rebatched": 16, "compiled": 30, "repeated": 16, "sinks": 12, "checked_bounds": 8, "same_object": 5}
CASE_CPU_S = 90
SERVERS = {}


def server(bounds):
    """The compiled interpreter, with or without the bounds-check sanitizer."""
    if bounds not in SERVERS:
        env = dict(NUMBA_NUM_THREADS=4)
        if bounds:
            env["NUMBA_BOUNDSCHECK"] = 1
        SERVERS[bounds] = Server(**env)
    return SERVERS[bounds]


def compare(ctx, run, surfs, a, b, how, exact):
    pos, enr, hit = a[:3]
    p2, e2, h2 = b[:3]
    ctx.require(p2.shape == pos.shape and e2.shape == enr.shape and h2.shape == hit.shape, "shape", "recordings have different shapes", how=how, got=[list(x.shape) for x in b[:3]], expected=[list(x.shape) for x in a[:3]])
    scale = float(1 + np.abs(pos).max())
    tol = 1e-9 * scale if exact else 1e-6 * scale
    forgiven = False
    for r in range(pos.shape[1]):
        bad = (np.abs(p2[:, r] - pos[:, r]).max(axis=1) > tol) | (np.abs(e2[:, r] - enr[:, r]) > 1e-9)
        k = int(np.argmax(bad)) if bad.any() else len(bad)
        ctx.count("compared_rays")
        ctx.count("compared_steps", k)
        ctx.count("monitor_evaluations")
        if k == len(bad):
            continue
        if not exact and k > 0 and decided_by_rounding(run, surfs, pos[: k + 1, r], enr[: k + 1, r]):
            ctx.count("rounding")
            forgiven = True
            continue
        ctx.fail("differs", "the same simulation gives other results: " + how, ray=r, step=k, got=[p2[k, r], e2[k, r]], expected=[pos[k, r], enr[k, r]], before=[pos[max(0, k - 1), r], enr[max(0, k - 1), r]])
    if not forgiven:
        ctx.require(bool(np.allclose(h2, hit, rtol=1e-9, atol=1e-9)), "hits", "sinks received other energies: " + how, worst=float(np.abs(h2 - hit).max()))
    n = a[3][0].shape[0], b[3][0].shape[0]
    for full, last in ((a, a[3]), (b, b[3])):
        m = last[0].shape[0]
        ctx.require(np.allclose(full[0][-m:], last[0], atol=1e-12) and np.allclose(full[1][-m:], last[1], atol=1e-12), "returned", "returned rows differ from the stored ones", how=how, rows=n)


def decided_by_rounding(run, surfs, pos, enr):
    """Whether any of the last steps admits several results."""
    d = None
    for k in range(len(pos) - 1):
        move = pos[k + 1] - pos[k]
        n = np.linalg.norm(move)
        if n == 0 and d is None:
            return False
        if d is None:
            d = move / n
        if k >= len(pos) - 3 and enr[k] > sim.EPS:
            if len(run.absorbers):
                dist = np.linalg.norm(np.array(run.absorbers) - pos[k], axis=1)
                if (np.abs(dist - run.radius) < 1e-5 * run.radius).any():
                    return True
            res = sim.outcomes(surfs, pos[k], d, float(enr[k]), run.step)
            if res is None or len({(tuple(np.round(x[0], 6)), round(x[1], 9), x[2]) for x in res}) > 1:
                return True
        if n > 0:
            d = move / n
    return False


def case(ctx, i, rng):
    sc = sim.random_scene(rng)
    run = sim.Run(rng, sc, rays=(2, 7), source_margin=1.1)
    if run.src is None or sc.clearance(run.src) < 1.02 * run.step:
        raise Skip("no room for the source")
    if rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 4))):
            run.absorbers.append(sc.source(rng, 0.0) if rng.random() < 0.9 else run.src)
        run.radius = run.step * float(rng.choice([0.5, 1.5, 4.0]))
        ctx.count("sinks")
    for _ in range(int(rng.integers(0, 4))):
        p = sc.polys[int(rng.integers(len(sc.polys)))].path
        run.own.append((p, float(rng.choice([0.0, 0.1, 0.3, rng.uniform(0, 0.05)]))))
    surfs = run.reflecting()
    divs = [b for b in range(1, run.num_steps + 1) if run.num_steps % b == 0]
    others = [int(rng.choice(divs)) for _ in range(3)]
    threads = int(rng.integers(1, 5))
    bounds = i % 2 == 0
    ctx.info(**run.describe(), others=others, threads=threads)
    ctx.distinct(sorted(run.describe().items(), key=str))
    base = sim.simulate(run, ctx.scratch)
    ctx.require(base[4], "inputs", "a run changed the building or the configuration")
    if rng.random() < 0.5:
        ctx.count("repeated")
        twice = bool(rng.random() < 0.5)
        ctx.count("same_object", int(twice))
        compare(ctx, run, surfs, base, sim.simulate(run, ctx.scratch, twice=twice), "run again by the same object" if twice else "repeated", True)
    if rng.random() < 0.5:
        ctx.count("rebatched")
        compare(ctx, run, surfs, base, sim.simulate(run, ctx.scratch, batch=others[0]), "in batches of %d instead of %d" % (others[0], run.batch), False)
    first = None
    for b in (run.batch, others[1], others[2]):
        try:
            res = server(bounds).call("vlib.sim:simulate", run, ctx.scratch, batch=b, threads=threads)
        except ServerDied as e:
            del SERVERS[bounds]
            ctx.fail("crash", "compiled code crashed the interpreter", batch=b, status=str(e))
        if res[0] != "ok":
            ctx.fail("compiled-" + res[1], "compiled code raised where interpreted code did not", batch=b, message=res[2])
        res = res[1]
        ctx.count("compiled")
        ctx.count("checked_bounds", int(bounds))
        ctx.require(res[4], "inputs", "a compiled run changed the building or the configuration")
        compare(ctx, run, surfs, base, res, "compiled, in batches of %d instead of %d, %d threads" % (b, run.batch, threads), False)
        if first is None:
            first = res
    res = server(bounds).call("vlib.sim:simulate", run, ctx.scratch, batch=run.batch, threads=1 + threads % 4)
    if res[0] == "ok":
        compare(ctx, run, surfs, first, res[1], "compiled, with %d instead of %d threads" % (1 + threads % 4, threads), True)
    ctx.sample(dict(kind=sc.desc["kind"], rays=run.num_rays, steps=run.num_steps, batches=[run.batch] + others))

"""Harness shared by all checks: seeds, workers, verdicts, evidence, replay, known findings.

A check is a module /verif/checks/<id>.py with

    LEVEL, RULE, ASSUMPTIONS (optional)
    PLAN = {"quick": (cases, seconds), "thorough": (cases, seconds)}
    REQUIRE = {"counter name": minimum}     # monitors that must have been reached
    def case(ctx, i, rng): ...              # one seeded execution observed by the monitors

Verdicts are three-valued.  Held: exit 0.  Violated: exit 1 and a VIOLATION
line.  Anything that prevents a verdict (harness error, a monitor that was
never reached, too few executions before the deadline): exit 3.
"""

import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_CPU_S = 120.0  # CPU seconds; ordinary cases need milliseconds to a few seconds

BASE_ENV = {
    "PYVISTA_OFF_SCREEN": "true",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "ignore",
}


class Violation(Exception):
    def __init__(self, key, msg, data=None):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.data = data


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated input is outside the domain of the property."""


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.counts = {}
        self.distinct_keys = set()
        self.samples = []
        self.violations = []  # dicts
        self.known = load_known(pid)
        self.known_hits = {}
        self.case_no = None
        self.case_info = None
        self.scratch = None

    # -- bookkeeping ----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        """Record a distinct non-trivial observation."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=7).hexdigest()
        if len(self.distinct_keys) < 60000:
            self.distinct_keys.add(h)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def info(self, **kw):
        if self.case_info is None:
            self.case_info = {}
        self.case_info.update(kw)

    # -- verdicts -------------------------------------------------------
    def fail(self, key, msg, **data):
        """A monitor saw behaviour that contradicts the property."""
        if key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(key, msg, data)

    def require(self, cond, key, msg, **data):
        self.count("monitor_evaluations")
        if not cond:
            self.fail(key, msg, **data)


def load_known(pid):
    """Known findings of a property: {key: text}."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, text = line[len("known: ") :].partition(" | ")
            kv = dict(t.split("=", 1) for t in head.split())
            if kv.get("property") == pid:
                out[kv["key"]] = text
    return out


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + pid)


def case_rng(pid, seed, i):
    import numpy as np

    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(pid.encode()), int(i)])


def in_repo(tb):
    """True if the exception was raised while code under test was running."""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            return True
    return False


def where_in_repo(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            last = "%s:%s" % (fr.filename[len(REPO) + 1 :], fr.name)
    return last


def run_case(ctx, mod, i):
    """Execute one case under the monitors.  Returns a violation dict or None."""
    import random as _random

    import numpy as np

    rng = case_rng(ctx.pid, ctx.seed, i)
    np.random.seed(int(rng.integers(2**31)))
    _random.seed(int(rng.integers(2**31)))
    ctx.case_no = i
    ctx.case_info = None
    limit = getattr(mod, "CASE_CPU_S", CASE_CPU_S)

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    v = None
    try:
        mod.case(ctx, i, rng)
        ctx.count("cases")
    except Skip:
        ctx.count("skipped")
    except Violation as e:
        v = dict(key=e.key, msg=e.msg, data=jsonable(e.data))
    except CaseTimeout:
        tb = sys.exc_info()[2]
        v = dict(
            key="no-termination",
            msg="no result after %.0f s of CPU time (in %s)" % (limit, where_in_repo(tb)),
            data=None,
        )
    except RecursionError as e:
        tb = e.__traceback__
        if not in_repo(tb):
            raise
        v = dict(key="unexpected-RecursionError", msg="unbounded recursion in %s" % where_in_repo(tb), data=None)
    except MemoryError:
        raise
    except Exception as e:
        tb = e.__traceback__
        if not in_repo(tb):
            raise
        v = dict(
            key="unexpected-" + type(e).__name__,
            msg="%s raised in %s: %s" % (type(e).__name__, where_in_repo(tb), str(e)[:300]),
            data=dict(traceback=traceback.format_exc()[-1500:]),
        )
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if v is not None:
        ctx.count("cases")
        v["case"] = i
        v["info"] = jsonable(ctx.case_info)
        if v["key"] in ctx.known:
            ctx.known_hits[v["key"]] = ctx.known_hits.get(v["key"], 0) + 1
            return None
    return v


def worker(pid, tier, seed, widx, nw, out):
    mod = load_check(pid)
    ctx = Ctx(pid, tier, seed)
    ncases, budget = mod.PLAN[tier]
    t0 = time.monotonic()
    err = None
    with tempfile.TemporaryDirectory(prefix="verif_%s_" % pid.lower()) as scratch:
        ctx.scratch = scratch
        try:
            if hasattr(mod, "setup"):
                mod.setup(ctx)
            i = widx
            while i < ncases:
                spent = time.monotonic() - t0
                if spent > budget:
                    # on a slow machine continue until the monitors were reached often enough
                    short = [k for k, m in getattr(mod, "REQUIRE", {}).items() if ctx.counts.get(k, 0) * nw < m]
                    if not short or spent > (450 if tier == "quick" else 720):
                        ctx.count("stopped_by_time")
                        break
                v = run_case(ctx, mod, i)
                if v is not None:
                    if v["key"] not in [w["key"] for w in ctx.violations]:
                        ctx.violations.append(v)
                    if len(ctx.violations) >= 3:
                        break
                    ctx.count("violating_cases")
                    if ctx.counts["violating_cases"] >= 5:
                        break
                i += nw
        except BaseException:
            err = "case %s\n%s" % (ctx.case_no, traceback.format_exc())
    res = dict(
        counts=ctx.counts,
        distinct=sorted(ctx.distinct_keys),
        samples=ctx.samples,
        violations=ctx.violations,
        known_hits=ctx.known_hits,
        unavailable=list(sys.modules["vlib.optional"].UNAVAILABLE) if "vlib.optional" in sys.modules else [],
        error=err,
    )
    with open(out, "w") as f:
        json.dump(res, f)


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--case", type=int)
    a = ap.parse_args(argv)
    pid = a.pid
    try:
        seed = int(os.environ.get("VERIF_SEED") or 0)
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    tier = a.tier

    env = dict(os.environ)
    env.update(BASE_ENV)
    mod_env = peek_env(pid)
    env.update(mod_env)
    env["PYTHONPATH"] = VERIF
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        env["VERIF_SEED"] = str(r["seed"])
        return subprocess.call(
            [PY, "-m", "vlib.one", pid, r["tier"], str(r["seed"]), str(r["case"])], env=env, cwd=VERIF
        )
    if a.case is not None:
        return subprocess.call(
            [PY, "-m", "vlib.one", pid, tier, str(seed), str(a.case)], env=env, cwd=VERIF
        )

    t0 = time.monotonic()
    nw = a.workers or int(mod_env.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    os.makedirs(EVID, exist_ok=True)
    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix="verif_run_") as tmp:
        procs = []
        for w in range(nw):
            out = os.path.join(tmp, "w%d.json" % w)
            log = open(os.path.join(tmp, "w%d.log" % w), "w")
            p = subprocess.Popen(
                [PY, "-m", "vlib.work", pid, tier, str(seed), str(w), str(nw), out],
                env=env,
                cwd=VERIF,
                stdout=log,
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
            procs.append((p, out, log))
        hard = t0 + (600 if tier == "quick" else 840)
        for w, (p, out, log) in enumerate(procs):
            try:
                p.wait(timeout=max(1.0, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                errors.append("worker %d exceeded the wall-clock limit" % w)
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["error"]:
                    errors.append("worker %d: %s" % (w, r["error"]))
            else:
                with open(log.name) as f:
                    tail = f.read()[-2000:]
                errors.append("worker %d died (exit %s)\n%s" % (w, p.returncode, tail))
                if p.returncode is not None and p.returncode < 0 and p.returncode != -9:
                    # the interpreter itself crashed while running code under test
                    results.append(
                        dict(counts={}, distinct=[], samples=[], known_hits={}, error=None, violations=[
                            dict(key="crash", msg="interpreter killed by signal %d" % -p.returncode,
                                 data=tail, case=w, info=None)]))
    return finish(pid, tier, seed, results, errors, time.monotonic() - t0)


def peek_env(pid):
    """Environment a check asks for (ENV = {...} literal in its module), without importing it."""
    import ast

    path = os.path.join(VERIF, "checks", pid + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    env = {"NUMBA_DISABLE_JIT": "1"}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == "ENV":
            env.update(ast.literal_eval(node.value))
    return env


def finish(pid, tier, seed, results, errors, wall):
    mod_consts = peek_consts(pid)
    counts, distinct, samples, viol, known_hits = {}, set(), [], [], {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        distinct.update(r["distinct"])
        samples += r["samples"]
        for v in r["violations"]:
            if v["key"] not in [x["key"] for x in viol]:
                viol.append(v)
        for k, v in r["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
    req = mod_consts.get("REQUIRE", {})
    missing = [k for k, m in req.items() if counts.get(k, 0) < m]
    cov = dict(
        evaluations=counts.get("cases", 0),
        distinct_nontrivial=len(distinct),
        rule=mod_consts.get("RULE", ""),
        samples=samples[:6],
        observed={k: v for k, v in sorted(counts.items())},
    )
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=mod_consts.get("LEVEL", "exploration"),
        coverage=cov,
        assumptions=mod_consts.get("ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    gone = sorted({n for r in results for n in r.get("unavailable", [])})
    if gone:
        ev["coverage"]["unavailable"] = gone
    if known_hits:
        ev["coverage"]["known_findings"] = known_hits
    if errors:
        ev["coverage"]["errors"] = [e[:500] for e in errors]
    tmp = os.path.join(EVID, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, pid + ".json"))

    known = load_known(pid)
    for k in known:
        if known_hits.get(k):
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, known[k], known_hits[k]))
    print(
        "%s tier=%s seed=%d cases=%d monitor_evaluations=%d distinct=%d wall=%.1fs"
        % (pid, tier, seed, counts.get("cases", 0), counts.get("monitor_evaluations", 0), len(distinct), wall)
    )
    print("observed: " + json.dumps(cov["observed"]))
    if viol:
        for v in viol:
            path = os.path.join(EVID, "replay_%s_%s_%d_%d.json" % (pid, tier, seed, v["case"]))
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=pid,
                        tier=tier,
                        seed=seed,
                        case=v["case"],
                        key=v["key"],
                        message=v["msg"],
                        data=v["data"],
                        info=v["info"],
                        replay_cmd="/verif/run %s --replay %s" % (pid, path),
                    ),
                    f,
                    indent=1,
                )
            print("  %s: %s" % (v["key"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK-ERROR %s %s" % (pid, e), file=sys.stderr)
        return 3
    if missing:
        print(
            "INCONCLUSIVE property=%s monitors not reached often enough: %s"
            % (pid, ", ".join("%s=%d<%d" % (k, counts.get(k, 0), req[k]) for k in missing)),
            file=sys.stderr,
        )
        return 3
    return 0


def peek_consts(pid):
    import ast

    path = os.path.join(VERIF, "checks", pid + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign):
            name = getattr(node.targets[0], "id", None)
            if name in ("LEVEL", "RULE", "ASSUMPTIONS", "REQUIRE"):
                out[name] = ast.literal_eval(node.value)
    return out

"""P26: random values, identifiers, nested dictionaries and logging helpers."""
import json
import logging
import os
import re

import numpy as np

from vlib import optional

LEVEL = "exploration"
RULE = (
    "histories of random identifiers and numbers with generated limits (swapped, equal, zero, huge), nested dictionaries built from random "
    "key paths against a plain-dictionary model, list shifts and log files in new and existing directories. Distinct = different arguments."
)
ASSUMPTIONS = ["identifiers are unique within one process"]
PLAN = {"quick": (1500, 40), "thorough": (30000, 300)}
REQUIRE = {"ids": 3000, "numbers": 20000, "dicts": 300, "logs": 60, "refused": 100}
SEEN = set()
UUID = re.compile(r"^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$")


def fn(name):
    return optional.get(name)


def ids(ctx, rng):
    f = fn("building3d.random:random_id")
    if f is None:
        return
    for _ in range(3):
        u = f()
        ctx.count("ids")
        ctx.count("monitor_evaluations")
        ctx.require(isinstance(u, str) and UUID.match(u) is not None, "id", "a random identifier is not a UUID", got=u)
        ctx.require(u not in SEEN, "id-unique", "a random identifier repeats", got=u)
        SEEN.add(u)
    n = int(rng.integers(-2, 36))
    ctx.distinct("id", n)
    try:
        u = f(n)
    except ValueError:
        ctx.count("refused")
        ctx.require(n <= 0 or n > 32, "id-size", "an allowed identifier length was refused", size=n)
        return
    ctx.count("monitor_evaluations")
    ctx.require(0 < n <= 32, "id-size", "an impossible identifier length was accepted", size=n, got=u)
    ctx.require(len(u) == n and re.fullmatch("[0-9a-f]+", u) is not None, "id-size", "an identifier of given length is malformed", size=n, got=u)
    if n >= 20:
        ctx.require(u not in SEEN, "id-unique", "a random identifier repeats", got=u)
        SEEN.add(u)


def numbers(ctx, rng):
    w, b = fn("building3d.random:random_within"), fn("building3d.random:random_between")
    np.random.seed(int(rng.integers(2**31)))
    lim = float(rng.choice([0.0, 1e-9, 0.5, 1.0, 7.0, 1e6]))
    lo, hi = (float(v) for v in rng.choice([-5.0, -1.0, 0.0, 0.25, 3.0, 1e5], 2))
    ctx.distinct("numbers", lim, lo, hi)
    if w is not None:
        xs = np.array([w(lim) for _ in range(40)])
        ctx.count("numbers", 40)
        ctx.count("monitor_evaluations", 40)
        ctx.require(bool((xs >= -lim).all() and ((xs < lim).all() or lim == 0)), "within", "a random number is outside of its limits", lim=lim, got=[xs.min(), xs.max()])
        if lim > 0:  # 40 draws on one side of 0, or all within half of the range: probability below 1e-11
            ctx.require(bool((xs < 0).any() and (xs > 0).any() and np.ptp(xs) > lim / 2), "within-spread", "random numbers do not cover their range", lim=lim, got=xs)
    if b is not None:
        xs = np.array([b(lo, hi) for _ in range(40)])
        a, c = min(lo, hi), max(lo, hi)
        ctx.count("numbers", 40)
        ctx.count("monitor_evaluations", 40)
        ctx.require(bool((xs >= a).all() and ((xs < c).all() or a == c)), "between", "a random number is outside of its limits", lo=lo, hi=hi, got=[xs.min(), xs.max()])
        if a < c:
            ctx.require(bool(np.ptp(xs) > (c - a) / 4), "between-spread", "random numbers do not cover their range", lo=lo, hi=hi, got=xs)


def dicts(ctx, rng):
    make, plain = fn("building3d.types.recursive_default_dict:recursive_default_dict"), fn("building3d.types.recursive_default_dict:recursive_default_dict_to_dict")
    if make is None or plain is None:
        return
    d, model = make(), {}
    for _ in range(int(rng.integers(0, 12))):
        ks = [str(rng.choice(["a", "b", "c", "ä", ""])) for _ in range(int(rng.integers(1, 5)))]
        v = [1, 2.5, "x", None, True, [1, 2]][int(rng.integers(6))]
        node, m = d, model
        ok = True
        for k in ks[:-1]:
            if k in m and not isinstance(m[k], dict):
                ok = False
                break
            m = m.setdefault(k, {})
            node = node[k]
        if not ok:
            continue
        if rng.random() < 0.2:  # reading creates an empty level
            got = node[ks[-1]]
            want = m.setdefault(ks[-1], {})
            ctx.require(got == want, "dict-read", "reading a nested dictionary gives another value", keys=ks, got=got, expected=want)
        else:
            node[ks[-1]] = v
            m[ks[-1]] = v
    got = plain(d)
    ctx.count("dicts")
    ctx.count("monitor_evaluations")
    ctx.distinct("dict", json.dumps(model))

    def kinds(x):
        return type(x) is dict and all(kinds(v) for v in x.values() if isinstance(v, dict))

    ctx.require(got == model and json.dumps(got) == json.dumps(model), "dict", "converting a nested dictionary changes it", got=got, expected=model)
    ctx.require(kinds(got), "dict-type", "converting a nested dictionary does not give plain dictionaries", got=str(type(got)))


def shifts(ctx, rng):
    f = fn("building3d.util.roll_back:roll_back")
    if f is None:
        return
    x = [int(v) for v in rng.integers(0, 9, int(rng.integers(1, 8)))]
    y = list(x)
    got = f(y)
    ctx.count("monitor_evaluations")
    ctx.require(list(got) == x[1:] + x[:1] and y == x, "roll", "shifting a list gives another order or changes the list", got=list(got), before=x, after=y)


def logs(ctx, rng):
    f = fn("building3d.logger:init_logger")
    if f is None:
        return
    root = logging.getLogger()
    handlers, level, disabled = list(root.handlers), root.level, logging.root.manager.disable
    path = os.path.join(ctx.scratch, *["d%d" % int(rng.integers(3)) for _ in range(int(rng.integers(0, 3)))], "x.log")
    lines = ["line %d ä %d" % (k, int(rng.integers(1000))) for k in range(int(rng.integers(1, 6)))]
    logging.disable(logging.NOTSET)
    for h in handlers:
        root.removeHandler(h)
    try:
        f(path)
        for l in lines:
            logging.getLogger("verif").warning(l)
        for h in root.handlers:
            h.flush()
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
    finally:
        for h in list(root.handlers):
            root.removeHandler(h)
            h.close()
        for h in handlers:
            root.addHandler(h)
        root.setLevel(level)
        logging.disable(disabled)
    rows = text.splitlines()
    ctx.count("logs")
    ctx.count("monitor_evaluations")
    ctx.require(len(rows) == len(lines) and all(a.endswith(b) and "WARNING" in a for a, b in zip(rows, lines)), "log", "the log file does not contain exactly the logged lines", got=rows, expected=lines)


def case(ctx, i, rng):
    ids(ctx, rng)
    numbers(ctx, rng)
    if i % 3 == 0:
        dicts(ctx, rng)
    shifts(ctx, rng)
    if i % 10 == 0:
        logs(ctx, rng)
    ctx.sample(dict(case=i))

"""Calls of numeric routines with copied arguments, for comparing execution modes."""

import copy
import importlib

import numpy as np


def lookup(name):
    """The routine "module:function", or None if it does not exist (any more)."""
    mod, fn = name.split(":")
    try:
        return getattr(importlib.import_module(mod), fn, None)
    except ImportError:
        return None


def same(a, b, rtol=1e-9, atol=1e-11):
    """Equal up to rounding, recursively."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "iub" and b.dtype.kind in "iub":
            return bool(np.array_equal(a, b))
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    return a == b


def exact(a, b):
    return same(a, b, 0.0, 0.0)


def one(f, args):
    """("ok", result, arguments unchanged) or ("error", type, text)."""
    mine = copy.deepcopy(args)
    with np.errstate(all="ignore"):
        try:
            res = f(*mine)
        except Exception as e:
            return ("error", type(e).__name__, str(e)[:300])
    if isinstance(res, np.ndarray):
        res = res.copy()
    return ("ok", res, exact(mine, args))


def many(name, calls):
    f = lookup(name)
    return [one(f, args) for args in calls]

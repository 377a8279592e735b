"""P13: saving and loading a building preserves it (native and exchange formats)."""
import json
import os

import numpy as np

from building3d.geom.building import Building
from building3d.io.b3d import read_b3d
from building3d.io.b3d import write_b3d
from building3d.io.dotbim import read_dotbim
from building3d.io.dotbim import write_dotbim

from vlib import buildings as bl

LEVEL = "exploration"
RULE = (
    "hierarchies of boxes, concave extrusions and loose polygons (any plane, any shape, stitched or not) with unusual names and, for the "
    "native format, empty levels; written to new and existing files, read back, compared field by field and bit by bit, written again, also after "
    "changes of the model. "
    "Distinct = different hierarchy."
)
ASSUMPTIONS = [
    "the native format stores identifiers of polygons only; the exchange format stores all identifiers but no empty levels",
]
PLAN = {"quick": (2500, 52), "thorough": (40000, 600)}
REQUIRE = {"round_trips": 800, "empty_buildings": 5, "with_empty_levels": 100, "odd_names": 300, "stitched": 30, "rejected": 30, "foreign": 100, "overwritten": 100, "edited": 150}


def snapshot(B, uids):
    """Everything the format stores, in order."""

    def u(o, kind):
        return o.uid if kind in uids else None

    return [
        B.name, u(B, "building"),
        [[z.name, u(z, "zone"),
          [[s.name, u(s, "solid"),
            [[w.name, u(w, "wall"),
              [[p.name, u(p, "polygon"), np.asarray(p.pts, dtype=float).tolist(), np.asarray(p.tri).tolist()]
               for p in w.polygons.values()]] for w in s.walls.values()]] for s in z.solids.values()]] for z in B.zones.values()],
    ]


def prune(snap):
    """Drop levels without polygons."""
    def keep(children, depth):
        out = []
        for c in children:
            if depth > 0:
                c = [c[0], c[1], keep(c[2], depth - 1)]
                if not c[2]:
                    continue
            out.append(c)
        return out

    return [snap[0], snap[1], keep(snap[2], 3)]


def diff(a, b, where="building"):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d != %d items" % (where, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (where, k))
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else "%s: %r != %r" % (where, a, b)


def derived(ctx, A, B, fmt):
    """Quantities that are computed again after reading."""
    pa = {p.path: p for p in bl.all_polygons(A)}
    pb = {p.path: p for p in bl.all_polygons(B)}
    ctx.require(list(pa) == list(pb) and A.get_polygon_paths() == B.get_polygon_paths(), "paths", "paths of polygons differ after reading", format=fmt, got=list(pb)[:5])
    for k, p in pa.items():
        q = pb[k]
        ctx.count("monitor_evaluations")
        ok = np.allclose(p.vn, q.vn, atol=1e-9, rtol=0) and abs(p.area - q.area) <= 1e-9 * (1 + p.area) and np.allclose(p.ctr, q.ctr, atol=1e-9 * (1 + np.abs(p.pts).max()), rtol=0)
        ctx.require(ok, "derived", "normal, area or centroid differ after reading", format=fmt, polygon=k, got=[q.vn, q.area, q.ctr], expected=[p.vn, p.area, p.ctr])
        ctx.require(q.pts.dtype == p.pts.dtype and np.issubdtype(q.tri.dtype, np.integer) and p == q, "polygon-equal", "the polygon read is not equal to the one written", format=fmt, polygon=k)
        ctx.require(B.get(k) is q and q.parent.parent.parent.parent is B, "linked", "the polygon read is not linked to its building", format=fmt, polygon=k)
    for za, zb in zip([z for z in A.zones.values()], [B.zones.get(z) for z in A.zones]):
        if zb is None:
            continue
        for sn, s in za.solids.items():
            if sn in zb.solids:
                v, w = s.volume, zb.solids[sn].volume
                ctx.require(abs(v - w) <= 1e-9 * (1 + abs(v)) or (np.isnan(v) and np.isnan(w)), "volume", "volume differs after reading", format=fmt, got=w, expected=v)


FORMATS = {
    "b3d": (write_b3d, read_b3d, ".b3d", {"polygon"}),
    "bim": (write_dotbim, read_dotbim, ".bim", {"building", "zone", "solid", "wall", "polygon"}),
}
ALL = {"building", "zone", "solid", "wall", "polygon"}


def case(ctx, i, rng):
    fmt = "b3d" if rng.random() < 0.5 else "bim"
    write, read, ext, uids = FORMATS[fmt]
    r = rng.random()
    if r < 0.02:
        d = dict(empty=True)
        B = Building(name="e")
    else:
        odd = rng.random() < 0.6
        emp = 0.35 if rng.random() < 0.4 else 0.0
        B, d = bl.mixed(rng, odd_names=odd, empties=emp, stitched=rng.random() < 0.1)
        ctx.count("odd_names", odd)
        ctx.count("with_empty_levels", emp > 0)
        ctx.count("stitched", d["stitched"])
    ctx.info(format=fmt, **d)
    ctx.distinct(str((fmt, d)))
    polys = bl.all_polygons(B)
    if not polys:
        ctx.count("empty_buildings")
    if rng.random() < 0.3:
        # irregular coordinates; every double must survive
        f = float(rng.uniform(0.1, 3))
        for p in polys:
            p.pts = p.pts * f
        # lengths of decimal expansions matter, not the derived data
        B = Building([z for z in B.zones.values()], name=B.name)
        irregular = True
    else:
        irregular = False
    full = snapshot(B, ALL)
    want = snapshot(B, uids)
    if fmt == "bim":
        want = prune(want)

    sub = os.path.join(ctx.scratch, "c%d" % i)
    os.mkdir(sub)
    path = os.path.join(sub, "f" + ext)
    if rng.random() < 0.3:
        path = os.path.join(sub, "new", "deep dir", "f" + ext)
    elif rng.random() < 0.5:
        with open(path, "w") as f:
            f.write("x" * int(rng.integers(1, 200000)))
        ctx.count("overwritten")
    write(path, B)
    ctx.require(os.path.isfile(path), "no-file", "nothing was written", format=fmt)
    ctx.require(diff(full, snapshot(B, ALL)) is None, "mutated", "saving changed the model", format=fmt, where=diff(full, snapshot(B, ALL)))
    files = sum(len(f) for _, _, f in os.walk(sub))
    ctx.require(files == 1, "extra-files", "saving left other files behind", format=fmt, got=[f for _, _, f in os.walk(sub)])
    C = read(path)
    ctx.count("round_trips")
    ctx.count("monitor_evaluations", 1 + len(polys))
    ctx.require(isinstance(C, Building) and C is not B, "type", "reading did not give a building", format=fmt)
    dd = diff(want, snapshot(C, uids))
    ctx.require(dd is None, "content-" + fmt, "the building read differs from the one written", format=fmt, where=dd)
    if not irregular:
        derived(ctx, B, C, fmt)
    # reading twice gives independent models
    D = read(path)
    for p in bl.all_polygons(D)[:3]:
        p.pts[...] = 5.5
    ctx.require(diff(want, snapshot(C, uids)) is None and diff(full, snapshot(B, ALL)) is None, "shared", "models read from one file share data", format=fmt)
    # writing again gives the same content
    path2 = os.path.join(sub, "g" + ext)
    write(path2, C, parent_dirs=bool(rng.random() < 0.5))
    with open(path) as f, open(path2) as g:
        ja, jb = json.load(f), json.load(g)
    ctx.require(ja == jb, "rewrite", "saving the building read gives another content", format=fmt)
    E = read(path2)
    dd = diff(want, snapshot(E, uids))
    ctx.require(dd is None, "second-trip", "a second round trip changes the building", format=fmt, where=dd)
    if rng.random() < 0.3 and not irregular and polys:
        # the model is changed and saved over the old file
        d["edits"] = bl.edits(rng, B, int(rng.integers(1, 5)))
        ctx.info(**d)
        ctx.count("edited")
        want = snapshot(B, uids)
        want = prune(want) if fmt == "bim" else want
        write(path, B)
        C = read(path)
        dd = diff(want, snapshot(C, uids))
        ctx.require(dd is None, "edited-" + fmt, "the building read after a change differs from the one written", format=fmt, where=dd)
        derived(ctx, B, C, fmt)
        with open(path) as f:
            ja = json.load(f)

    if fmt == "bim":
        ctx.count("foreign")
        info = dict(ja["info"])
        kind = int(rng.integers(3))
        if kind == 0:
            info.pop("generated_by")
        elif kind == 1:
            info["generated_by"] = ["Building", "building3d", "", "Other", "Building3D2", None][int(rng.integers(6))]
        else:
            info = {}
        ja["info"] = info
        with open(path, "w") as f:
            json.dump(ja, f)
        try:
            got = read(path)
        except Exception:
            got = None
        ctx.require(got is None, "foreign", "a file made by another program is accepted", info=info)
    elif rng.random() < 0.3:
        with open(path) as f:
            text = f.read()
        bad = [text[: int(rng.integers(0, len(text)))], "", "[]", "{}", '{"name": "b"}', "not json"][int(rng.integers(6))]
        with open(path, "w") as f:
            f.write(bad)
        try:
            got = read(path)
        except Exception:
            got = None
            ctx.count("rejected")
        ctx.require(got is None, "truncated", "a damaged file is accepted", content=bad[:60])
    for dp, _, fs in os.walk(sub, topdown=False):
        for f in fs:
            os.remove(os.path.join(dp, f))
        os.rmdir(dp)

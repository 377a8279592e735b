"""P14: flat arrays and STL keep the geometry of every building."""
import os

import numpy as np

from building3d.geom.building import Building
from building3d.io.arrayformat import from_array_format
from building3d.io.arrayformat import to_array_format
from building3d.io.stl import read_stl
from building3d.io.stl import write_stl

from vlib import buildings as bl, optional

get_polygon_points_and_faces = optional.load("building3d.io.arrayformat:get_polygon_points_and_faces")

LEVEL = "exploration"
RULE = (
    "hierarchies of boxes, concave extrusions and loose polygons (also stitched, with empty walls and solids, edited after a first export); arrays checked against the "
    "model, rebuilt also after permuting rows; STL text parsed independently, read back, and re-read after legal changes of layout. "
    "Distinct = different hierarchy."
)
ASSUMPTIONS = ["arrays cannot express a zone without solids, so such zones are not part of the round trip"]
PLAN = {"quick": (1600, 46), "thorough": (25000, 600)}
REQUIRE = {"arrays": 300, "rebuilt": 300, "permuted": 100, "stl": 300, "layouts": 100, "multi_zone": 100, "stitched": 20, "empty_members": 50, "edited": 100, "own_ids": 100}


def cyc(t):
    t = [tuple(float(v) for v in x) for x in t]
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


def poly_tris(p):
    return sorted(cyc(t) for t in np.asarray(p.pts)[np.asarray(p.tri)])


def structure(B):
    """Nested lists of polygons, ignoring names."""
    return [[[list(w.polygons.values()) for w in s.walls.values()] for s in z.solids.values()] for z in B.zones.values()]


def same_structure(ctx, A, B, key, tri_order):
    sa, sb = structure(A), structure(B)
    shape = lambda t: [[[len(w) for w in s] for s in z] for z in t]
    ctx.require(shape(sa) == shape(sb), key + "-hierarchy", "the hierarchy differs after rebuilding", got=shape(sb), expected=shape(sa))
    for za, zb in zip(sa, sb):
        for s1, s2 in zip(za, zb):
            for w1, w2 in zip(s1, s2):
                for p, q in zip(w1, w2):
                    ctx.count("monitor_evaluations")
                    ok = np.array_equal(p.pts, q.pts)
                    ctx.require(ok, key + "-points", "points of a polygon differ after rebuilding", got=q.pts, expected=p.pts)
                    ok = np.array_equal(p.tri, q.tri) if tri_order else poly_tris(p) == poly_tris(q)
                    ctx.require(ok, key + "-faces", "triangles of a polygon differ after rebuilding", got=q.tri, expected=p.tri)
                    ctx.require(np.allclose(p.vn, q.vn, atol=1e-9) and abs(p.area - q.area) <= 1e-9 * (1 + p.area), key + "-derived", "normal or area differs after rebuilding", got=[q.vn, q.area], expected=[p.vn, p.area])


def arrays(ctx, rng, B):
    polys = bl.all_polygons(B)
    arr = to_array_format(B)
    pts, faces, pmap, wmap, smap, zmap = (np.asarray(a) for a in arr)
    ctx.count("arrays")
    Z = list(B.zones.values())
    S = [s for z in Z for s in z.solids.values()]
    W = [w for s in S for w in s.walls.values()]
    want_z = [k for k, z in enumerate(Z) for _ in z.solids]
    want_s = [k for k, s in enumerate(S) for _ in s.walls]
    want_w = [k for k, w in enumerate(W) for _ in w.polygons]
    want_p = [k for k, p in enumerate(polys) for _ in p.tri]
    for got, want, what in ((zmap, want_z, "solids to zones"), (smap, want_s, "walls to solids"), (wmap, want_w, "polygons to walls"), (pmap, want_p, "faces to polygons")):
        ctx.count("monitor_evaluations")
        ctx.require(got.tolist() == want, "map", "the map of %s is wrong" % what, got=got.tolist(), expected=want)
    ctx.require(len(faces) == len(pmap) and faces.min() >= 0 and faces.max() < len(pts), "face-range", "faces refer to missing points", sizes=[len(pts), len(faces)])
    ctx.require(len(pts) == sum(len(p.pts) for p in polys), "point-count", "the number of points is wrong", got=len(pts))
    for k, p in enumerate(polys):
        ctx.count("monitor_evaluations")
        sel = faces[pmap == k]
        ctx.require(sorted(cyc(t) for t in pts[sel]) == poly_tris(p), "poly-faces", "faces of a polygon are wrong in the arrays", polygon=p.path)
        a, b = get_polygon_points_and_faces(*arr[:3], k)
        ok = np.array_equal(a, p.pts) and np.array_equal(b, p.tri)
        ctx.require(ok, "poly-extract", "a polygon extracted from the arrays differs", polygon=p.path, got=[a, b], expected=[p.pts, p.tri])
        ctx.require(p.num == k, "number", "the polygon does not know its number", polygon=p.path, got=p.num, expected=k)
    for lst in (Z, S, W):
        ctx.require([o.num for o in lst] == list(range(len(lst))), "number", "objects do not know their numbers", got=[o.num for o in lst])
    again = to_array_format(B)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(arr, again)), "repeat", "a second conversion gives other arrays")

    if any(len(z.solids) == 0 for z in Z):
        return
    keep = [np.array(a) for a in arr]
    C = from_array_format(*arr)
    ctx.count("rebuilt")
    ctx.require(isinstance(C, Building), "type", "no building was made")
    ctx.require(all(np.array_equal(a, b) for a, b in zip(arr, keep)), "inputs", "rebuilding changed the arrays")
    same_structure(ctx, B, C, "rebuilt", True)
    v = [s.volume for s in S]
    w = [s.volume for z in C.zones.values() for s in z.solids.values()]
    ctx.require(np.allclose(v, w, rtol=1e-9, atol=1e-9), "rebuilt-volume", "volumes differ after rebuilding", got=w, expected=v)
    third = to_array_format(C)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(arr, third)), "rebuilt-arrays", "arrays of the rebuilt building differ")
    for a in arr:
        np.asarray(a)[...] = 0
    same_structure(ctx, B, C, "alias", True)

    # the order of faces does not matter
    if rng.random() < 0.6:
        ctx.count("permuted")
        perm = rng.permutation(len(keep[1]))
        C = from_array_format(keep[0], keep[1][perm], keep[2][perm], *keep[3:])
        same_structure(ctx, B, C, "permuted", False)


def parse(text):
    """Independent reader: list of (name, [(normal, triangle)])."""
    tok = text.split()
    out, k = [], 0
    while k < len(tok):
        assert tok[k] == "solid"
        name, k = tok[k + 1], k + 2
        fac = []
        while tok[k] == "facet":
            assert tok[k + 1] == "normal"
            n = tuple(float(x) for x in tok[k + 2 : k + 5])
            assert tok[k + 5 : k + 7] == ["outer", "loop"]
            k += 7
            t = []
            for _ in range(3):
                assert tok[k] == "vertex"
                t.append(tuple(float(x) for x in tok[k + 1 : k + 4]))
                k += 4
            assert tok[k : k + 2] == ["endloop", "endfacet"]
            k += 2
            fac.append((n, t))
        assert tok[k : k + 2] == ["endsolid", name], (tok[k : k + 3], name)
        k += 2
        out.append((name, fac))
    return out


def render(rng, solids, names):
    """The same facets in another legal layout."""
    sp = lambda: [" ", "  ", "\t", " \t "][int(rng.integers(4))]
    ind = lambda: ["", " ", "\t", "      "][int(rng.integers(4))]
    nl = lambda: ["\n", "\n\n", " \n"][int(rng.integers(3))]
    mode = int(rng.integers(4))
    num = lambda x: [repr(x), "%.17e" % x, "%.17E" % x, "%+.17e" % x][mode]
    zero = rng.random() < 0.3
    crlf = rng.random() < 0.3
    out = []
    for (_, fac), name in zip(solids, names):
        out.append(ind() + ("solid " + name).rstrip() + nl())
        for n, t in fac:
            if zero:
                n = (0.0, 0.0, 0.0)
            out.append(ind() + "facet normal" + "".join(sp() + num(x) for x in n) + "\n")
            out.append(ind() + "outer loop\n")
            for v in t:
                out.append(ind() + "vertex" + "".join(sp() + num(x) for x in v) + "\n")
            out.append(ind() + "endloop" + "\n" + ind() + "endfacet" + nl())
        out.append(ind() + ("endsolid " + name).rstrip() + nl())
    s = "".join(out)
    return s.replace("\n", "\r\n") if crlf else s


def compare_stl(ctx, B, C, key, names=None):
    S = [s for z in B.zones.values() for s in z.solids.values()]
    T = [s for z in C.zones.values() for s in z.solids.values()]
    ctx.require(len(C.zones) == 1 and len(S) == len(T), key + "-solids", "the number of zones or solids read is wrong", got=[len(C.zones), len(T)], expected=[1, len(S)])
    for k, (s, t) in enumerate(zip(S, T)):
        ps = [p for w in s.walls.values() for p in w.polygons.values()]
        pt = [p for w in t.walls.values() for p in w.polygons.values()]
        ctx.count("monitor_evaluations", len(pt))
        want = [cyc(x) for p in ps for x in np.asarray(p.pts)[np.asarray(p.tri)]]
        got = [cyc(p.pts) for p in pt]
        ctx.require(sorted(got) == sorted(want), key + "-triangles", "triangles read differ from the ones written", got=len(got), expected=len(want))
        ctx.require(all(len(p.tri) == 1 for p in pt), key + "-one", "a facet is not one triangle")
        normals = [np.asarray(p.vn) for p in ps for _ in p.tri]
        ref = {}
        for c, n in zip(want, normals):
            ref.setdefault(c, []).append(n)
        for p, c in zip(pt, got):
            ctx.require(any(np.allclose(p.vn, n, atol=1e-5) for n in ref[c]), key + "-normal", "a triangle read has another normal than its polygon", got=p.vn, expected=ref[c])
        a, b = sum(p.area for p in ps), sum(p.area for p in pt)
        ctx.require(abs(a - b) <= 1e-9 * (1 + a), key + "-area", "the area read differs", got=b, expected=a)
        v, w = s.volume, t.volume
        ctx.require(abs(v - w) <= 1e-8 * (1 + abs(v)), key + "-volume", "the volume read differs", got=w, expected=v)
        if names is None or names[k]:
            want_id = s.uid if names is None else names[k]
            ctx.require(t.uid == want_id, key + "-id", "the identifier of a solid is lost", got=t.uid, expected=want_id)


def stl(ctx, rng, B, i):
    path = os.path.join(ctx.scratch, "s%d.stl" % i)
    if rng.random() < 0.25:
        for k, s in enumerate(s for z in B.zones.values() for s in z.solids.values()):
            name = ["u%d-%s" % (k, "x" * int(rng.integers(1, 120))), "Room.%d_Ä" % k, "%d" % (10 ** k), "endsolid%d" % k][int(rng.integers(4))]
            try:
                s.uid = name
            except AttributeError:
                break  # not replaceable after creation
        ctx.count("own_ids")
    before = [(p.pts.copy(), p.tri.copy()) for p in bl.all_polygons(B)]
    write_stl(path, B)
    ctx.count("stl")
    with open(path) as f:
        text = f.read()
    ctx.require(all(np.array_equal(a, p.pts) and np.array_equal(b, p.tri) for (a, b), p in zip(before, bl.all_polygons(B))), "stl-mutated", "writing changed the model")
    try:
        got = parse(text)
    except (AssertionError, IndexError, ValueError) as e:
        ctx.fail("stl-syntax", "the text written is not STL", error=str(e)[:100])
        return
    S = [s for z in B.zones.values() for s in z.solids.values()]
    ctx.require(len(got) == len(S), "stl-solids", "the number of solids written is wrong", got=len(got), expected=len(S))
    for (name, fac), s in zip(got, S):
        want = [(p.vn, cyc(t)) for w in s.walls.values() for p in w.polygons.values() for t in np.asarray(p.pts)[np.asarray(p.tri)]]
        ctx.require(sorted(cyc(t) for _, t in fac) == sorted(c for _, c in want), "stl-facets", "facets written differ from the triangles of the solid", got=len(fac), expected=len(want))
        ref = {}
        for n, c in want:
            ref.setdefault(c, []).append(n)
        for n, t in fac:
            ctx.count("monitor_evaluations")
            ctx.require(any(np.allclose(n, m, atol=1e-5) for m in ref[cyc(t)]), "stl-normal", "a facet is written with a wrong normal", got=n, expected=ref[cyc(t)])
    compare_stl(ctx, B, read_stl(path), "stl-read")
    if rng.random() < 0.6:
        ctx.count("layouts")
        kind = int(rng.integers(5))
        names = [["", "part %d" % k, "n%d" % k, "Room-%dA" % k, "%d_ÄX" % k][kind] for k in range(len(S))]
        with open(path, "w", newline="") as f:
            f.write(render(rng, got, names))
        compare_stl(ctx, B, read_stl(path), "stl-layout", names)
    os.remove(path)


def case(ctx, i, rng):
    emp = 0.3 if rng.random() < 0.3 else 0.0
    B, d = bl.mixed(rng, empties=emp, stitched=rng.random() < 0.12, nsolids=(1, 3))
    ctx.info(**d)
    ctx.distinct(str(d))
    if not bl.all_polygons(B):
        return
    ctx.count("multi_zone", len(B.zones) > 1)
    ctx.count("stitched", d["stitched"])
    ctx.count("empty_members", emp > 0)
    arrays(ctx, rng, B)
    stl(ctx, rng, B, i)
    if rng.random() < 0.3:
        d["edits"] = bl.edits(rng, B, int(rng.integers(1, 5)))
        ctx.info(**d)
        ctx.count("edited")
        arrays(ctx, rng, B)
        stl(ctx, rng, B, i)

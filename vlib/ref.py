"""Independent reference geometry used as the oracle of the monitors.

Nothing in this file imports the code under test.  Shapes live on an integer
lattice, so every decision (inside / on the boundary / outside, overlap area,
containment) is exact.  Floating point is used only for metric quantities.
"""

from fractions import Fraction as F
import math

import numpy as np

# --------------------------------------------------------------------------
# Exact planar predicates on integer (or Fraction) coordinates
# --------------------------------------------------------------------------


def cross2(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area2(poly):
    """Twice the signed area (exact)."""
    s = 0
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        s += x0 * y1 - x1 * y0
    return s


def on_segment(p, a, b):
    if cross2(a, b, p) != 0:
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(
        a[1], b[1]
    )


def on_boundary(p, poly):
    n = len(poly)
    return any(on_segment(p, poly[i], poly[(i + 1) % n]) for i in range(n))


def locate(p, poly):
    """'in', 'on' or 'out' (exact)."""
    if on_boundary(p, poly):
        return "on"
    x, y = p
    inside = False
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        if (y0 > y) != (y1 > y):
            # x-coordinate of the crossing compared with x without division
            lhs = (x - x0) * (y1 - y0)
            rhs = (x1 - x0) * (y - y0)
            if y1 - y0 > 0:
                if lhs < rhs:
                    inside = not inside
            else:
                if lhs > rhs:
                    inside = not inside
    return "in" if inside else "out"


def sgn(v):
    return (v > 0) - (v < 0)


def segments_intersect(a, b, c, d):
    """Closed segments share at least one point (exact)."""
    d1, d2 = sgn(cross2(c, d, a)), sgn(cross2(c, d, b))
    d3, d4 = sgn(cross2(a, b, c)), sgn(cross2(a, b, d))
    if d1 * d2 < 0 and d3 * d4 < 0:
        return True
    return (
        on_segment(a, c, d) or on_segment(b, c, d) or on_segment(c, a, b) or on_segment(d, a, b)
    )


def segments_cross_properly(a, b, c, d):
    d1, d2 = sgn(cross2(c, d, a)), sgn(cross2(c, d, b))
    d3, d4 = sgn(cross2(a, b, c)), sgn(cross2(a, b, d))
    return d1 * d2 < 0 and d3 * d4 < 0


def is_simple(poly):
    n = len(poly)
    if n < 3 or len(set(poly)) != n:
        return False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = poly[j], poly[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                # Adjacent edges: only a spike (folding back) is a problem
                if j == i + 1:
                    p, q, r = a, b, d
                else:
                    p, q, r = c, d, b
                if cross2(p, q, r) == 0:
                    dot = (q[0] - p[0]) * (r[0] - q[0]) + (q[1] - p[1]) * (r[1] - q[1])
                    if dot < 0:
                        return False
                continue
            if segments_intersect(a, b, c, d):
                return False
    return area2(poly) != 0


def boundaries_meet(p, q):
    n, m = len(p), len(q)
    for i in range(n):
        for j in range(m):
            if segments_intersect(p[i], p[(i + 1) % n], q[j], q[(j + 1) % m]):
                return True
    return False


def strip_collinear(poly):
    """Cyclic vertex list with the collinear vertices removed."""
    n = len(poly)
    out = [poly[i] for i in range(n) if cross2(poly[i - 1], poly[i], poly[(i + 1) % n]) != 0]
    return out


def ear_clip(poly):
    """Exact triangulation of a simple polygon (list of triangles, positive area)."""
    v = list(poly)
    if area2(v) < 0:
        v.reverse()
    v = strip_collinear(v)
    tris = []
    guard = 0
    while len(v) > 3:
        guard += 1
        if guard > 10000:
            raise RuntimeError("reference triangulation failed")
        n = len(v)
        done = False
        for i in range(n):
            a, b, c = v[i - 1], v[i], v[(i + 1) % n]
            if cross2(a, b, c) <= 0:
                continue
            ok = True
            for p in v:
                if p in (a, b, c):
                    continue
                if cross2(a, b, p) >= 0 and cross2(b, c, p) >= 0 and cross2(c, a, p) >= 0:
                    ok = False
                    break
            if ok:
                tris.append((a, b, c))
                v.pop(i)
                v = strip_collinear(v)
                done = True
                break
        if not done:
            raise RuntimeError("reference triangulation failed")
    if len(v) == 3:
        tris.append(tuple(v))
    return tris


def clip_convex(subject, clip):
    """Sutherland-Hodgman with Fractions, both counter-clockwise."""
    out = [(F(x), F(y)) for x, y in subject]
    m = len(clip)
    for i in range(m):
        a, b = clip[i], clip[(i + 1) % m]
        inp, out = out, []
        if not inp:
            return []
        for k in range(len(inp)):
            p, q = inp[k - 1], inp[k]
            cp, cq = cross2(a, b, p), cross2(a, b, q)
            if cq >= 0:
                if cp < 0:
                    t = F(cp) / (cp - cq)
                    out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
                out.append(q)
            elif cp >= 0:
                t = F(cp) / (cp - cq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def overlap_area2(p, q):
    """Twice the exact area of the intersection of two simple polygons."""
    tot = F(0)
    tq = ear_clip(q)
    for a in ear_clip(p):
        ax0, ax1 = min(t[0] for t in a), max(t[0] for t in a)
        ay0, ay1 = min(t[1] for t in a), max(t[1] for t in a)
        for b in tq:
            if (
                max(t[0] for t in b) <= ax0
                or min(t[0] for t in b) >= ax1
                or max(t[1] for t in b) <= ay0
                or min(t[1] for t in b) >= ay1
            ):
                continue
            c = clip_convex(a, b)
            if len(c) >= 3:
                tot += abs(area2(c))
    return tot


def relation(p, q):
    """Exact relation of two coplanar simple lattice polygons.

    Returns a dict: same, overlap (bool, interiors meet), p_in_q, q_in_p
    (closed containment), meet (boundaries share a point).
    """
    ap, aq = abs(area2(p)), abs(area2(q))
    ov = overlap_area2(p, q)
    return {
        "overlap": ov > 0,
        "area2": ov,
        "p_in_q": ov == ap,
        "q_in_p": ov == aq,
        "same": ov == ap == aq,
        "meet": boundaries_meet(p, q),
    }


def centroid2(poly):
    """Exact centroid (Fractions)."""
    a = F(0)
    cx = F(0)
    cy = F(0)
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        c = x0 * y1 - x1 * y0
        a += c
        cx += (x0 + x1) * c
        cy += (y0 + y1) * c
    return cx / (3 * a), cy / (3 * a)


# --------------------------------------------------------------------------
# Metric reference in 3D (floating point)
# --------------------------------------------------------------------------


def newell(pts):
    """Area vector of a closed polygon (direction = right-hand normal, length = area)."""
    pts = np.asarray(pts, dtype=float)
    o = pts.mean(axis=0)
    q = pts - o
    return np.cross(q, np.roll(q, -1, axis=0)).sum(axis=0) / 2.0


def unit_normal(pts):
    s = newell(pts)
    return s / np.linalg.norm(s)


def poly_area(pts):
    return float(np.linalg.norm(newell(pts)))


def poly_centroid(pts):
    pts = np.asarray(pts, dtype=float)
    o = pts.mean(axis=0)
    q = pts - o
    nvec = newell(pts)
    n = nvec / np.linalg.norm(nvec)
    tot = 0.0
    c = np.zeros(3)
    m = len(q)
    for i in range(m):
        a = 0.5 * float(np.dot(n, np.cross(q[i], q[(i + 1) % m])))
        tot += a
        c += a * (q[i] + q[(i + 1) % m]) / 3.0
    return o + c / tot


def tri_area(a, b, c):
    return 0.5 * float(np.linalg.norm(np.cross(b - a, c - a)))


def dist_point_segment(p, a, b):
    ab = b - a
    L = float(np.dot(ab, ab))
    if L == 0.0:
        return float(np.linalg.norm(p - a))
    t = min(1.0, max(0.0, float(np.dot(p - a, ab)) / L))
    return float(np.linalg.norm(p - a - t * ab))


def plane_frame(pts):
    """Origin, orthonormal (e1, e2, n) of the polygon's plane."""
    pts = np.asarray(pts, dtype=float)
    n = unit_normal(pts)
    # longest edge as the first axis
    ed = np.roll(pts, -1, axis=0) - pts
    k = int(np.argmax(np.linalg.norm(ed, axis=1)))
    e1 = ed[k] - n * np.dot(ed[k], n)
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(n, e1)
    return pts[0], e1, e2, n


def pip_float(xy, poly2):
    """Even-odd rule in floating point; returns (inside, distance to the boundary)."""
    x, y = float(xy[0]), float(xy[1])
    inside = False
    d = math.inf
    n = len(poly2)
    for i in range(n):
        x0, y0 = poly2[i]
        x1, y1 = poly2[(i + 1) % n]
        if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
            inside = not inside
        vx, vy = x1 - x0, y1 - y0
        L = vx * vx + vy * vy
        t = 0.0 if L == 0 else min(1.0, max(0.0, ((x - x0) * vx + (y - y0) * vy) / L))
        d = min(d, math.hypot(x - x0 - t * vx, y - y0 - t * vy))
    return inside, d


def project2(frame, p):
    o, e1, e2, n = frame
    v = np.asarray(p, dtype=float) - o
    return (float(np.dot(v, e1)), float(np.dot(v, e2))), float(np.dot(v, n))


def dist_point_polygon(p, pts, frame=None, poly2=None):
    """Euclidean distance from a point to a planar polygon (its closed surface)."""
    if frame is None:
        frame = plane_frame(pts)
    if poly2 is None:
        poly2 = [project2(frame, q)[0] for q in pts]
    xy, h = project2(frame, p)
    inside, d = pip_float(xy, poly2)
    if inside:
        return abs(h)
    return math.hypot(h, d)


def signed_volume(faces):
    """Volume from the divergence theorem; faces = iterable of point arrays (outward normals)."""
    v = 0.0
    first = None
    for pts in faces:
        pts = np.asarray(pts, dtype=float)
        if first is None:
            first = pts[0]
        nv = newell(pts)
        v += float(np.dot(nv, pts[0] - first)) / 3.0
    return v


def winding_inside(p, tris):
    """Generalised winding number of a closed triangle soup around p (float)."""
    a = tris[:, 0] - p
    b = tris[:, 1] - p
    c = tris[:, 2] - p
    la, lb, lc = (np.linalg.norm(t, axis=1) for t in (a, b, c))
    num = np.einsum("ij,ij->i", a, np.cross(b, c))
    den = (
        la * lb * lc
        + np.einsum("ij,ij->i", a, b) * lc
        + np.einsum("ij,ij->i", b, c) * la
        + np.einsum("ij,ij->i", c, a) * lb
    )
    return float(np.sum(2.0 * np.arctan2(num, den)) / (4.0 * math.pi))


def canon_cycle(pts, nd=9):
    """Rotation-independent key of an oriented vertex cycle."""
    t = [tuple(round(float(x), nd) + 0.0 for x in p) for p in pts]
    k = min(range(len(t)), key=lambda i: t[i:] + t[:i])
    return tuple(t[k:] + t[:k])

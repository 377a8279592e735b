"""Routines that are neither imported by the repository's tests nor part of a class.

A refactoring may move or inline them.  In that case a reference takes their
place, so that a check judges the remaining behaviour; the evidence then lists
them as unavailable.
"""

import importlib

import numpy as np

from . import ref

UNAVAILABLE = []


def get(name, default=None):
    """The routine "module:name", or the default."""
    mod, fn = name.split(":")
    try:
        return getattr(importlib.import_module(mod), fn)
    except (ImportError, AttributeError):
        if name not in UNAVAILABLE:
            UNAVAILABLE.append(name)
        return default


def _bounding_box(pts):
    return pts.min(axis=0), pts.max(axis=0)


def _inside(p, pts):
    return bool((p >= pts.min(axis=0) - 1e-12).all() and (p <= pts.max(axis=0) + 1e-12).all())


def _overlap(a, b):
    return not ((a[1] < b[0] - 1e-12).any() or (a[0] > b[1] + 1e-12).any())


def _at_boundary(p, pts):
    return min(ref.dist_point_segment(p, pts[k - 1], pts[k]) for k in range(len(pts))) < 1e-10


def _nearby(x, y, z, grid):
    out = set()
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            for k in (-1, 0, 1):
                out.update(grid.get((x + i, y + j, z + k), ()))
    return out


def _extract(points, faces, polygons, k):
    sel = faces[polygons == k]
    ix = np.unique(sel)
    return points[ix], (sel - ix.min()).astype(np.int32)


def _stack(verts, faces):
    out, off = [], 0
    for v, f in zip(verts, faces):
        out.append(np.asarray(f) + off)
        off += len(v)
    return np.concatenate(verts), np.concatenate(out)


def _lines(pos):
    steps, rays = pos.shape[:2]
    idx = []
    for r in range(rays):
        idx += [steps] + list(range(r * steps, (r + 1) * steps))
    return np.concatenate([pos[:, r] for r in range(rays)]), idx


DEFAULTS = {
    "building3d.geom.bboxes:bounding_box": _bounding_box,
    "building3d.geom.bboxes:is_point_inside_bbox": _inside,
    "building3d.geom.bboxes:are_bboxes_overlapping": _overlap,
    "building3d.geom.polygon.ispointinside:is_point_at_boundary": _at_boundary,
    "building3d.sim.rays.find_nearby_polygons:find_nearby_polygons": _nearby,
    "building3d.io.arrayformat:get_polygon_points_and_faces": _extract,
    "building3d.geom.mesh:vstack_mesh": _stack,
    "building3d.sim.rays.movie_from_buffer:position_buffer_to_lines": _lines,
    "building3d.geom.exceptions:GeometryError": Exception,
}


def load(name):
    return get(name, DEFAULTS.get(name))

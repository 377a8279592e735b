"""P10: the object hierarchy follows a reference model through random histories of edits."""
import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from vlib import optional

GeometryError = optional.load("building3d.geom.exceptions:GeometryError")

LEVEL = "exploration"
RULE = (
    "random histories of 25-60 operations (create, add, add to another parent, replace, look up from anywhere, refused edits with duplicate / invalid names or shapes) on a "
    "building; after every operation the complete hierarchy, all paths and parents are compared with a reference model. "
    "Distinct = different operation sequence."
)
PLAN = {"quick": (6000, 45), "thorough": (60000, 600)}
REQUIRE = {
    "op_add": 1000, "op_replace_polygon": 200, "op_replace_wall": 100, "refused": 500, "lookups": 5000, "refused_duplicate": 100,
    "refused_name": 100, "refused_replace": 100, "refused_lookup": 200, "refused_shape": 50, "graph_queries": 100, "moved": 200,
}

KIND = ["building", "zone", "solid", "wall", "polygon"]
CLS = {"zone": Zone, "solid": Solid, "wall": Wall}
ADD = {"building": "add_zone", "zone": "add_solid", "solid": "add_wall", "wall": "add_polygon"}
ATTR = {"building": "zones", "zone": "solids", "solid": "walls", "wall": "polygons"}


class Node:
    """Reference model: what was put where."""

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name
        self.kids = []
        self.up = None
        self.uid = obj.uid
        self.pts = np.array(obj.pts) if kind == "polygon" else None

    def path(self):
        return self.name if self.up is None else self.up.path() + "/" + self.name

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Tape:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.log = []
        self.n = 0
        b = Building(name=str(rng.choice(["b", "my building", "B-1", "ünï"])))
        self.root = Node("building", b, b.name)
        self.loose = []  # nodes without a parent

    def name(self):
        r = self.rng.random()
        if r < 0.5:
            return str(self.rng.choice(["a", "b", "c", "d", "a b", "0", "a-b", "A", "", "zażółć"]))
        self.n += 1
        return "n%d" % self.n

    def polygon(self, name):
        rng = self.rng
        o = np.round(rng.uniform(-5, 5, 3), 1)
        if rng.random() < 0.5:
            pts = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float)
        else:
            pts = np.array([[0, 0, 0], [2, 0, 0], [0, 0, 1]], dtype=float)
        return Polygon(pts + o, name=name)

    def make(self, kind, name, kids=()):
        obj = self.polygon(name) if kind == "polygon" else CLS[kind]([k.obj for k in kids], name=name)
        node = Node(kind, obj, obj.name if name is None else name)
        for k in kids:
            k.up = node
            node.kids.append(k)
        return node

    def expect_error(self, what, f, types=Exception):
        ctx = self.ctx
        ctx.count("refused")
        ctx.count("refused_" + what)
        try:
            f()
        except types:
            return
        ctx.fail("accepted-" + what, "an operation that must be refused was accepted", log=self.log[-6:])

    # ---- monitors

    def check(self, full):
        ctx = self.ctx
        roots = [self.root] + self.loose
        for r in roots:
            for x in r.walk():
                o = x.obj
                ctx.count("monitor_evaluations")
                ok = o.name == x.name and o.uid == x.uid
                ok = ok and (o.parent is (x.up.obj if x.up is not None else None))
                ok = ok and o.path == x.path()
                if not ok:
                    ctx.fail("identity", "an object lost its name, id, parent or path", kind=x.kind, got=[o.name, o.uid, o.path, repr(o.parent)], expected=[x.name, x.uid, x.path()], log=self.log[-6:])
                if x.kind == "polygon":
                    if not np.array_equal(o.pts, x.pts):
                        ctx.fail("polygon", "a polygon changed", path=x.path(), log=self.log[-6:])
                    continue
                got = o.children
                if list(got.keys()) != [k.name for k in x.kids] or any(got[k.name] is not k.obj for k in x.kids):
                    ctx.fail("children", "the children differ from what was put there", path=x.path(), got=list(got.keys()), expected=[k.name for k in x.kids], log=self.log[-6:])
                if getattr(o, ATTR[x.kind]) is not got and dict(getattr(o, ATTR[x.kind])) != dict(got):
                    ctx.fail("children-views", "two views of the children differ", path=x.path())
        if not full:
            return
        b = self.root.obj
        polys = {}
        every = list(self.root.walk())
        corners = [y for y in every if y.kind == "polygon"]
        for x in every:
            p = x.path()
            ctx.count("lookups")
            if b.get(p) is not x.obj:
                ctx.fail("lookup", "an object is not found under its path", path=p, log=self.log[-6:])
            if x.kind != "building":
                if x.up.obj[x.name] is not x.obj:
                    ctx.fail("item", "an object is not found under its name", path=p)
                if x.obj.get(self.root.name) is not b or x.obj.get(p) is not x.obj:
                    ctx.fail("lookup-from-child", "a lookup from inside the hierarchy fails", path=p)
                y = self.pick(every)
                if x.obj.get(y.path()) is not y.obj:
                    ctx.fail("lookup-from-child", "a lookup from inside the hierarchy fails", path=y.path(), of=p)
                y = self.pick(corners)
                if y is not None:
                    k = int(self.rng.integers(len(y.pts)))
                    if not np.array_equal(x.obj.get(y.path() + "/%d" % k), y.pts[k]):
                        ctx.fail("lookup-from-child", "a point is not found from inside the hierarchy", path=y.path(), of=p)
            if x.kind == "polygon":
                for a in x.walk():
                    pass
                u = x
                while u is not None:
                    polys.setdefault(id(u), []).append(p)
                    u = u.up
                k = int(self.rng.integers(len(x.pts)))
                if not np.array_equal(b.get(p + "/%d" % k), x.pts[k]):
                    ctx.fail("lookup-point", "a point is not found under its path", path=p)
        for x in self.root.walk():
            if x.kind != "polygon":
                got = x.obj.get_polygon_paths()
                if list(got) != polys.get(id(x), []):
                    ctx.fail("polygon-paths", "the list of polygon paths is wrong", path=x.path(), got=got, expected=polys.get(id(x), []))
        for kind in KIND[1:]:
            each = optional.get("building3d.geom.building.graph:iter_%ss" % kind)
            if each is not None:
                want = [x.obj for x in every if x.kind == kind]
                got = list(each(b))
                if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
                    ctx.fail("listing", "a listing of all objects of one kind is wrong", kind=kind, got=[o.path for o in got], expected=[o.path for o in want], log=self.log[-6:])

    # ---- operations

    def nodes(self, kind, attached=None):
        out = []
        if attached is not False:
            out += [x for x in self.root.walk() if x.kind == kind]
        if attached is not True:
            for r in self.loose:
                out += [x for x in r.walk() if x.kind == kind]
        return out

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))] if xs else None

    def op_add(self):
        rng, ctx = self.rng, self.ctx
        parents = [x for k in KIND[:4] for x in self.nodes(k)]
        w = np.array([{"building": 3.0, "zone": 2.0, "solid": 1.5, "wall": 1.0}[x.kind] for x in parents])
        p = parents[int(rng.choice(len(parents), p=w / w.sum()))]
        kind = KIND[KIND.index(p.kind) + 1]
        name = None if rng.random() < 0.1 else self.name()
        # sometimes an object that was assembled before
        ready = [x for x in self.loose if x.kind == kind and x is not p and all(y is not p for y in x.walk())]
        if ready and rng.random() < 0.5:
            c = self.pick(ready)
            fresh = False
        else:
            kids = []
            if kind != "polygon" and rng.random() < 0.6:
                sub = KIND[KIND.index(kind) + 1]
                used = set()
                for _ in range(int(rng.integers(1, 4))):
                    n = self.name()
                    if n not in used:
                        used.add(n)
                        kids.append(self.make(sub, n))
            c = self.make(kind, name, kids)
            fresh = True
        f = getattr(p.obj, ADD[p.kind])
        self.log.append(["add", p.path(), c.name])
        if any(k.name == c.name for k in p.kids):
            self.expect_error("duplicate", lambda: f(c.obj), GeometryError)
            if fresh and rng.random() < 0.3:
                self.loose.append(c)
            return
        ctx.count("op_add")
        if rng.random() < 0.2:
            # it belonged to another object before: the last one it was added to is its parent
            ctx.count("moved")
            c.was = (Building if p.kind == "building" else CLS[p.kind])([c.obj], name=self.name())
            ctx.require(c.obj.parent is c.was, "parent", "an object given to a constructor has another parent", name=c.name)
            self.log.append(["moved from", c.was.name])
        f(c.obj)
        if not fresh:
            self.loose.remove(c)
        c.up = p
        p.kids.append(c)

    def op_loose(self):
        kind = str(self.rng.choice(["zone", "solid", "wall", "polygon"]))
        self.log.append(["make", kind])
        self.loose.append(self.make(kind, self.name()))

    def op_bad_construction(self):
        """Children with equal names given to a constructor."""
        kind = str(self.rng.choice(["zone", "solid", "wall"]))
        sub = KIND[KIND.index(kind) + 1]
        n = self.name()
        kids = [self.make(sub, n), self.make(sub, n)]
        self.log.append(["construct with duplicates", kind])
        self.expect_error("duplicate", lambda: CLS[kind]([k.obj for k in kids], name="x"), GeometryError)

    def op_bad_name(self):
        kind = str(self.rng.choice(["zone", "solid", "wall", "polygon", "building"]))
        name = str(self.rng.choice(["a/b", "/", "/a", "a/", "x//y"]))
        self.log.append(["bad name", kind, name])
        if kind == "building":
            f = lambda: Building(name=name)
        elif kind == "polygon":
            f = lambda: self.polygon(name)
        else:
            f = lambda: CLS[kind](name=name)
        self.expect_error("name", f)

    def op_bad_shape(self):
        r = int(self.rng.integers(3))
        if r == 0:
            pts = [[0, 0, 0], [1, 0, 0]]
        elif r == 1:
            pts = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.5]]
        else:
            pts = [[0, 0, 0]]
        self.log.append(["bad shape", r])
        self.expect_error("shape", lambda: Polygon(np.array(pts, dtype=float), name="p"))

    def order_free(self, x, kids):
        """Replacing: the untouched children keep their order, the new ones theirs; adopt the reported order."""
        got = list(x.obj.children.keys())
        by = {k.name: k for k in kids}
        if sorted(got) != sorted(by):
            self.ctx.fail("children", "the children after replacing differ", path=x.path(), got=got, expected=sorted(by), log=self.log[-6:])
        x.kids = [by[n] for n in got]

    def relative(self, x, names):
        got = [k.name for k in x.kids if k.name in names]
        self.ctx.require(got == names, "order", "replacing changed the order of children", path=x.path(), got=got, expected=names)

    def op_replace_polygon(self):
        rng = self.rng
        w = self.pick([x for x in self.nodes("wall") if x.kids])
        if w is None:
            return
        old = self.pick(w.kids)
        new, names = [], []
        for _ in range(int(rng.integers(0, 4))):
            r = rng.random()
            n = old.name if r < 0.2 else (self.pick(w.kids).name if r < 0.35 else self.name())
            new.append(self.make("polygon", n))
            names.append(n)
        rest = [k for k in w.kids if k is not old]
        self.log.append(["replace polygon", w.path(), old.name, names])
        clash = len(set(names)) < len(names) or any(k.name in names for k in rest)
        if clash:
            self.expect_error("replace", lambda: w.obj.replace_polygon(old.name, *[k.obj for k in new]), GeometryError)
            return
        self.ctx.count("op_replace_polygon")
        w.obj.replace_polygon(old.name, *[k.obj for k in new])
        for k in new:
            k.up = w
        self.order_free(w, rest + new)
        self.relative(w, [k.name for k in rest])
        self.relative(w, names)

    def op_replace_wall(self):
        rng = self.rng
        s = self.pick([x for x in self.nodes("solid") if x.kids])
        if s is None:
            return
        old = self.pick(s.kids)
        r = rng.random()
        n = old.name if r < 0.3 else (self.pick(s.kids).name if r < 0.6 else self.name())
        new = self.make("wall", n, [self.make("polygon", self.name())])
        rest = [k for k in s.kids if k is not old]
        self.log.append(["replace wall", s.path(), old.name, n])
        if any(k.name == n for k in rest):
            self.expect_error("replace", lambda: s.obj.replace_wall(old.name, new.obj), GeometryError)
            return
        self.ctx.count("op_replace_wall")
        s.obj.replace_wall(old.name, new.obj)
        new.up = s
        self.order_free(s, rest + [new])
        self.relative(s, [k.name for k in rest])

    def op_replace_absent(self):
        if self.rng.random() < 0.5:
            w = self.pick(self.nodes("wall"))
            if w is not None:
                self.log.append(["replace absent polygon", w.path()])
                self.expect_error("replace", lambda: w.obj.replace_polygon("no such", self.polygon(self.name())))
        else:
            s = self.pick(self.nodes("solid"))
            if s is not None:
                self.log.append(["replace absent wall", s.path()])
                self.expect_error("replace", lambda: s.obj.replace_wall("no such", Wall(name=self.name())))

    def op_bad_lookup(self):
        x = self.pick(list(self.root.walk()))
        if x.kind == "polygon":
            bad = x.path() + "/" + str(self.rng.choice(["99", "x"]))
        else:
            bad = x.path() + "/no such"
        if self.rng.random() < 0.3:
            bad = "other" + x.path()[len(self.root.name):]
        self.log.append(["look up", bad])
        self.expect_error("lookup", lambda: self.root.obj.get(bad))

    def op_graph(self):
        self.ctx.count("graph_queries")
        level = str(self.rng.choice(["polygon", "wall", "solid", "zone"]))
        opt = dict(facing=bool(self.rng.random() < 0.7), overlapping=bool(self.rng.random() < 0.3), touching=bool(self.rng.random() < 0.3))
        polys = self.nodes("polygon", True)
        if len(polys) < 2:
            return
        self.log.append(["graph", level, opt])
        g = self.root.obj.get_graph(level=level, **opt)
        depth = {"zone": 1, "solid": 2, "wall": 3, "polygon": 4}[level]
        want = sorted({"/".join(p.path().split("/")[: depth + 1]) for p in polys})
        self.ctx.require(sorted(g) == want, "graph-nodes", "the graph does not list the current objects", got=sorted(g), expected=want, log=self.log[-6:])


def case(ctx, i, rng):
    t = Tape(ctx, rng)
    ops = ["add"] * 9 + ["loose", "bad_construction", "bad_name", "bad_shape", "replace_polygon", "replace_polygon", "replace_wall", "replace_wall", "replace_absent", "bad_lookup", "bad_lookup"]
    n = int(rng.integers(25, 60))
    for k in range(n):
        if rng.random() < 0.04:
            t.op_graph()
        op = str(rng.choice(ops))
        ctx.info(log=t.log[-8:])
        getattr(t, "op_" + op)()
        t.check(k % 5 == 4 or k == n - 1)
    ctx.distinct([str(x) for x in t.log])

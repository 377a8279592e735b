"""P15: wildcard paths map names to values and back."""
import os
import shutil

from building3d.paths.wildcardpath import WildcardPath

LEVEL = "exploration"
RULE = (
    "random patterns of one to three levels with literals that contain characters special to regular expressions, shells and globbing, "
    "repeated and similarly named wildcards; scratch trees with generated members (files and directories) and near misses (other depth, "
    "missing, negative or padded values, prefixes, suffixes, replaced literals, sibling directories, conflicting values); searched, "
    "filtered, edited and searched again. Distinct = different pattern and tree."
)
ASSUMPTIONS = [
    "values are non-negative integers without leading zeros; two wildcards are separated by text that does not start with a digit",
    "if occurrences of a repeated wildcard conflict somewhere in the tree, the search may be refused",
]
PLAN = {"quick": (3000, 60), "thorough": (60000, 500)}
REQUIRE = {"members": 3000, "near_misses": 3000, "filtered": 500, "repeated": 200, "conflicts": 50, "edited": 500, "special": 500, "refused": 300, "made": 500, "made_again": 150}

LIT = ["a", "b", "dir", "file", "sub_dir", "x", "Z", "out", "job", "step", "energy", "zażółć", "v2", "0x", "n", "n1"]
SPECIAL = [".", "+", "(", ")", "[", "]", "{", "}", "^", "$", "|", "?", "*", "\\", "#", "&", "~", "'", " ", "!", "[0-9]", ".*", "\\d", "(?P", "**", "{0}", "%d", "=", ",", ";", ":", "@"]
SEP = ["_", "-", ".", "x", "_to_", "+", "__", " ", "(", "e", "^", "|"]
WILD = ["n", "n1", "n2", "n10", "job", "step", "a", "a_0", "a_1", "a_0_1", "job_step", "k", "Case", "path", "self_", "i", "n_"]
EXT = ["", "", ".npy", ".csv", ".tar.gz", ".x", "$", "+"]


def literal(rng, special):
    s = LIT[int(rng.integers(len(LIT)))]
    if special and rng.random() < 0.6:
        k = SPECIAL[int(rng.integers(len(SPECIAL)))]
        s = [k + s, s + k, s + k + s][int(rng.integers(3))]
    return s


def make_pattern(rng):
    """List of components; a component is a list of ("l", text) and ("w", name)."""
    special = rng.random() < 0.6
    names = [WILD[int(k)] for k in rng.permutation(len(WILD))[: int(rng.integers(1, 4))]]
    comps = []
    depth = int(rng.choice([1, 2, 3], p=[0.45, 0.35, 0.2]))
    used = []
    for d in range(depth):
        comp = []
        nw = int(rng.integers(0, 3)) if d < depth - 1 else int(rng.integers(1, 4))
        if nw == 0 or rng.random() < 0.8:
            comp.append(("l", literal(rng, special) + ("_" if rng.random() < 0.5 else "")))
        for k in range(nw):
            if k:
                comp.append(("l", SEP[int(rng.integers(len(SEP)))]))
            w = names[int(rng.integers(len(names)))]
            used.append(w)
            comp.append(("w", w))
        if nw:
            e = EXT[int(rng.integers(len(EXT)))]
            if e:
                comp.append(("l", e))
        comps.append(comp)
    return comps, sorted(set(used)), len(used) > len(set(used)), special


def text(comps):
    return "/".join("".join(v if t == "l" else "<%s>" % v for t, v in c) for c in comps)


def fill(comps, vals):
    return "/".join("".join(v if t == "l" else str(vals[v]) for t, v in c) for c in comps)


def parse_component(comp, name, vals):
    """Values read from one name, or None. `vals` maps a wildcard to the list of values seen."""
    pos = 0
    for t, v in comp:
        if t == "l":
            if not name.startswith(v, pos):
                return False
            pos += len(v)
        else:
            e = pos
            while e < len(name) and name[e] in "0123456789":
                e += 1
            if e == pos:
                return False
            vals.setdefault(v, []).append(int(name[pos:e]))
            pos = e
    return pos == len(name)


def parse(comps, rel):
    """None: not a member. Otherwise a dict of value lists."""
    parts = rel.split("/")
    if len(parts) != len(comps):
        return None
    vals = {}
    for c, p in zip(comps, parts):
        if not parse_component(c, p, vals):
            return None
    return vals


def walk(parent):
    out = []
    for root, dirs, files in os.walk(parent):
        for f in dirs + files:
            out.append(os.path.relpath(os.path.join(root, f), parent))
    return out


def put(rng, parent, rel, kind=None):
    p = os.path.join(parent, rel)
    try:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.lexists(p):
            if kind or (kind is None and rng.random() < 0.3):
                os.mkdir(p)
            else:
                open(p, "w").close()
    except (FileExistsError, NotADirectoryError):
        pass  # a component already exists as a file


def value(rng):
    r = rng.random()
    if r < 0.7:
        return int(rng.integers(0, 13))
    if r < 0.95:
        return int(rng.integers(0, 2000))
    return 10 ** int(rng.integers(9, 25)) + int(rng.integers(0, 9))


def near_miss(rng, comps, vals, ctx):
    """A path that resembles the pattern."""
    good = fill(comps, vals)
    parts = good.split("/")
    how = int(rng.integers(0, 12))
    k = int(rng.integers(len(parts)))
    if how == 0:
        parts.insert(k, "deeper")
    elif how == 1 and len(parts) > 1:
        del parts[k]
    elif how == 2:
        parts[k] = parts[k] + ["x", "0x", ".bak", "~", "_1", " ", "\n"][int(rng.integers(7))]
    elif how == 3:
        parts[k] = ["x", ".", "copy of ", "-"][int(rng.integers(4))] + parts[k]
    elif how in (4, 5):  # another character at one place
        s = parts[k]
        j = int(rng.integers(len(s)))
        parts[k] = s[:j] + "xQ_.7"[int(rng.integers(5))] + s[j + 1:]
    elif how == 6:  # no value
        parts[k] = "".join(v if t == "l" else "" for t, v in comps[k]) or "x"
    elif how == 7:  # sign, fraction, letters
        bad = ["-3", "+3", "1.5", "a", "1a", "0b1", " 1", "1_000", "½", "<n>", "*"][int(rng.integers(11))]
        parts[k] = "".join(v if t == "l" else bad for t, v in comps[k])
    elif how == 8:
        parts[k] = parts[k].swapcase()
    elif how == 9:
        parts[k:k + 1] = [parts[k], parts[k]]
    elif how == 10:
        parts = ["<" + p + ">" for p in parts]
    else:  # doubled
        parts = parts + parts
    return "/".join("x" if p.strip(".") == "" else p for p in parts)


def padded(comps, rel):
    """True if some value of a member has leading zeros (not judged)."""
    parts = rel.split("/")
    for c, p in zip(comps, parts):
        pos = 0
        for t, v in c:
            if t == "l":
                pos += len(v)
            else:
                e = pos
                while e < len(p) and p[e] in "0123456789":
                    e += 1
                if e - pos > 1 and p[pos] == "0":
                    return True
                pos = e
    return False


def expected(ctx, comps, parent):
    """({path: values}, conflicts, padded paths)."""
    out, conflict, pad = {}, False, set()
    for rel in walk(parent):
        vals = parse(comps, rel)
        if vals is None:
            continue
        if any(len(set(v)) > 1 for v in vals.values()):
            conflict = True
            continue
        full = os.path.normpath(os.path.join(parent, rel))
        if padded(comps, rel):
            pad.add(full)
            continue
        out[full] = {k: v[0] for k, v in vals.items()}
    return out, conflict, pad


def norm(d):
    return {os.path.normpath(str(k)): {str(a): int(b) for a, b in dict(v).items()} for k, v in d.items()}


def search(ctx, rng, wp, comps, names, parent, arg):
    exp, conflict, pad = expected(ctx, comps, parent)
    try:
        got = norm(wp.get_matching_paths_dict_values(arg))
        lst = [os.path.normpath(str(p)) for p in wp.get_matching_paths(arg)]
        nt = {tuple(getattr(c, n) for n in names): os.path.normpath(str(p)) for c, p in wp.get_matching_paths_namedtuple_keys(arg).items()}
    except Exception:
        if conflict:
            ctx.count("conflicts")
            return None
        raise
    if conflict:
        ctx.count("conflicts")
    for p in pad:
        got.pop(p, None)
        lst = [q for q in lst if q != p]
    ctx.count("members", len(exp))
    extra = [p for p in got if p not in exp]
    ctx.require(not extra, "extra", "a path that is not described by the pattern was returned", extra=extra[:3], pattern=text(comps))
    missing = [p for p in exp if p not in got]
    ctx.require(not missing, "missing", "an existing member was not returned", missing=missing[:3], pattern=text(comps))
    for p, v in exp.items():
        ctx.require(got[p] == v, "values", "the values read from a path are wrong", path=p, got=got[p], expected=v)
    ctx.require(sorted(lst) == sorted(exp), "list", "the list of paths differs from the paths with values", got=sorted(lst)[:4], expected=sorted(exp)[:4])
    if not pad:
        want = {tuple(v[n] for n in names): p for p, v in exp.items()}
        ctx.require(nt == want, "namedtuples", "the mapping from values to paths is wrong", got=str(nt)[:300], expected=str(want)[:300])
    # filters
    for _ in range(2):
        keys = [n for n in names if rng.random() < 0.6] or names[:1]
        if exp and rng.random() < 0.8:
            vals = list(exp.values())[int(rng.integers(len(exp)))]
            f = {n: vals[n] for n in keys}
            if rng.random() < 0.2:
                f[keys[0]] = value(rng)
        else:
            f = {n: value(rng) for n in keys}
        ctx.count("filtered")
        want = sorted(p for p, v in exp.items() if all(v[n] == f[n] for n in f))
        res = sorted(q for q in (os.path.normpath(str(p)) for p in wp.get_matching_paths(arg, **f)) if q not in pad)
        ctx.require(res == want, "filter", "searching for given values gives other paths", filter=f, got=res[:4], expected=want[:4])
    return exp


def case(ctx, i, rng):
    comps, names, repeated, special = make_pattern(rng)
    pat = text(comps)
    ctx.info(pattern=pat)
    ctx.distinct(pat)
    if repeated:
        ctx.count("repeated")
    if special:
        ctx.count("special")
    top = os.path.join(ctx.scratch, "c%d" % i)
    parent = os.path.join(top, ["p", "data [1]", "a+b", "out_3", "*", "n_1", pat.split("/")[0].replace("<", "").replace(">", "") or "q"][int(rng.integers(7))])
    os.makedirs(parent)
    arg = parent + ("/" if rng.random() < 0.2 else "")
    wp = WildcardPath(pat)
    if rng.random() < 0.2:
        wp = WildcardPath("other_<q>/<r>")
        wp.path = pat
    ctx.require(str(wp.path) == pat, "pattern", "the pattern is not kept", got=str(wp.path))
    try:
        members = []
        for _ in range(int(rng.integers(0, 7))):
            vals = {n: value(rng) for n in names}
            if rng.random() < 0.1:
                vals = dict.fromkeys(names, vals[names[0]])
            members.append(vals)
            rel = fill(comps, vals)
            order = {n: vals[n] for n in sorted(names, key=lambda _: rng.random())}
            got = wp.fill(parent=arg, **order)
            ctx.require(os.path.normpath(got) == os.path.join(parent, rel), "fill", "the generated path is wrong", got=got, expected=rel)
            ctx.require(wp.fill(**order) == rel, "fill-alone", "the generated relative path is wrong", got=wp.fill(**order), expected=rel)
            if rng.random() < 0.3:
                full = os.path.join(parent, rel)
                try:
                    d = wp.mkdir(arg, **order)
                except (FileExistsError, NotADirectoryError):
                    ctx.count("blocked")  # a file is in the way
                    continue
                ctx.count("made")
                ctx.require(os.path.isdir(full) and os.path.normpath(d) == full, "mkdir", "the directory was not created where the pattern says", got=d, expected=full)
                if rng.random() < 0.5:
                    put(rng, parent, os.path.join(rel, "kept"))
                    d = wp.mkdir(arg, **order)
                    ctx.count("made_again")
                    ctx.require(os.path.normpath(d) == full and os.path.exists(os.path.join(full, "kept")), "mkdir-again", "making a directory that exists is not harmless", got=d)
            else:
                put(rng, parent, rel)
        for _ in range(int(rng.integers(0, 7))):
            vals = {n: value(rng) for n in names}
            put(rng, parent, near_miss(rng, comps, vals, ctx))
            ctx.count("near_misses")
        if repeated and rng.random() < 0.12:
            bad = "/".join("".join(v if t == "l" else str(value(rng)) for t, v in c) for c in comps)
            put(rng, parent, bad)
        # the same structure next to the searched directory
        sib = fill(comps, {n: value(rng) for n in names})
        put(rng, parent + "x", sib)
        put(rng, top, sib)
        search(ctx, rng, wp, comps, names, parent, arg)
        # history: change the tree and search again
        if rng.random() < 0.5:
            ctx.count("edited")
            ents = sorted(walk(parent))
            for rel in [e for e in ents if rng.random() < 0.3]:
                p = os.path.join(parent, rel)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                elif os.path.exists(p):
                    os.remove(p)
            for _ in range(2):
                put(rng, parent, fill(comps, {n: value(rng) for n in names}))
            search(ctx, rng, wp, comps, names, parent, arg)
        # wrong arguments
        good = {n: 1 for n in names}
        bads = [{**good, "unknown": 1}, dict(list(good.items())[1:])]
        swapped = dict(good)
        swapped.pop(names[0])
        swapped["unknown"] = 2
        bads.append(swapped)
        # names close to a known one
        for n in names:
            near = [n + "_", "_" + n, n + n, n[:-1], n[1:], n.upper(), n.swapcase(), n[:1]]
            near = [x for x in near if x and x not in names and x != "parent"]
            x = near[int(rng.integers(len(near)))]
            bads.append({**good, x: 1})
            bads.append({**{k: v for k, v in good.items() if k != n}, x: 1})
        for b in bads:
            try:
                r = wp.fill(**b)
            except Exception:
                ctx.count("refused")
                ctx.count("monitor_evaluations")
                continue
            ctx.fail("accepted", "wrong wildcard arguments were accepted", arguments=b, got=r)
        ctx.sample(dict(pattern=pat, members=members[:2]))
    finally:
        shutil.rmtree(top)

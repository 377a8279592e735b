"""Write DESIGN.md from its parts, the check modules, the evidence and the seeded changes."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXT = {
    "P01": "Monitors every polygon object after construction, flipping, copying and re-reading of its fields. Oracle: exact lattice area, centroid, normal and point-set of the outline; triangles must tile it (area sum, pairwise disjoint centroids, orientation). Beyond tests: every start corner, concave and collinear outlines, any plane.",
    "P02": "Monitors each membership answer. Oracle: exact integer classification (crossing number and on-segment tests on the lattice). Queries include points on edge extensions, on internal diagonals and just beyond corners.",
    "P03": "Monitors distances, intersections, visibility and close-pair search. Oracle: closed-form distances, exact integer segment tests, brute-force pairs.",
    "P04": "Monitors the three relations in both argument orders. Oracle: exact overlap area by rational clipping and exact boundary contact.",
    "P05": "Monitors the parts returned by slicing. Oracle: for simple chains the exact two outlines; for any other successful cut, conservation of area and of sampled points; names follow the reference points; the input is unchanged.",
    "P06": "Monitors rotations (rigidity, handedness, axis, composition) and small vector, point, tetrahedron and box helpers against definitions in exact or long arithmetic.",
    "P07": "Monitors generated solids: edge pairing of the closed surface, outward normals, exact volume, names, bounding box.",
    "P08": "Monitors inside, boundary and lookup answers. Oracle: exact lattice location in the extrusion or among integer boxes. Buildings grow and are stitched between questions.",
    "P09": "Monitors buildings before and after stitching: volume, area, closedness, names, sampled points of every face covered exactly once, interfaces consisting of equal opposite outlines, idempotence. Pairs of single faces in any plane give many nested contacts whose nearest corners do not see each other.",
    "P10": "Model-based monitor: a reference hierarchy receives the same history of edits, and the complete state is compared after each operation, including refused ones. Objects also move from one parent to another, and look-ups start at any object.",
    "P11": "Monitors mesh arrays at every level: index ranges, the multiset of oriented triangles, area, enclosed volume, bounding boxes; empty members at any place; repeated after edits of the same model.",
    "P12": "History monitor: edits (new solids and zones, split, flipped and stitched faces) alternate with queries over all options, levels and recalculation flags. Oracle: exact rectangle relations for box faces, pairwise answers otherwise.",
    "P13": "Round-trip monitor for both formats with unusual names, empty levels, irregular doubles, existing and new paths, damaged and foreign files. Compared bit by bit, then written again; edited models are saved over their older files.",
    "P14": "Monitors array maps against the hierarchy, the rebuilt building (also from permuted rows), STL text with an independent parser, and reading of text in other legal layouts; repeated after edits.",
    "P15": "History monitor over scratch directory trees with near misses. Oracle: an independent matcher working on path components.",
    "P16": "Monitors dumped and re-read recordings, ring buffers (against a plain list), impulse responses (every entry recomputed), line data for plots and movies.",
    "P17": "Monitors every recorded position of every ray of seeded simulations. Oracle: exact location in the room layout (boxes joined by matching openings of one zone, concave extrusions).",
    "P18": "Monitors every step of every ray: step length, direction, and that each turn is a product of mirror images in surfaces that the ray was about to reach.",
    "P19": "Monitors energies and sink records of every step. Oracle: the absorption of the surfaces that explain the turn, and distances to sinks.",
    "P20": "History monitor of the transparency answers while buildings are created, edited, dropped and queried. Oracle: integer block contacts.",
    "P21": "Runs the same seeded simulation in different batches, thread counts and execution modes and compares all recordings, also of a second run by the same simulation. Inputs are compared before and after.",
    "P22": "Monitors grid answers at random and critical points against exact distances to all polygons, and the next surface against exhaustive search.",
    "P23": "Calls every numeric routine compiled with bounds checks and interpreted with equal inputs and compares results, refusals and arguments. Sanitizer: the compiler's array bounds checks; a crash of the compiled process is a violation.",
    "P24": "The plotter class of the drawing library is instrumented, real meshes are built; every mesh it holds is snapshot when a frame or picture is produced and compared with the recording or objects.",
    "P25": "Monitors each answer in both directions of a segment. Oracle: signed heights over the plane and even-odd location of the crossing point; clipping of the triangles by the box, grown and shrunk by a margin.",
    "P26": "Monitors helper results: formats and uniqueness of identifiers, ranges and spread of random numbers, a plain-dictionary model, log lines re-read from scratch files.",
    "P27": "Model-based monitor: plain dictionaries receive the same settings, and the values of all polygons in all configurations are compared. Starts of simulations are observed through the files of a scratch directory before and after, for possible and impossible step counts and new, empty and filled directories.",
    "P28": "Monitors volumes, extents, adjacency and interface answers of all pairs of solids before and after additions, replaced walls, stitching and rotation. Oracle: integer contacts of the boxes, exact volumes of the extrusions. Beyond tests: contacts of every kind, edge and corner contacts, several zones.",
}


def constants(path):
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                found[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return found


def main():
    out = [open(ROOT + "/tools/design_head.md").read()]
    missing = []
    for line in open(ROOT + "/properties.jsonl"):
        prop = json.loads(line)
        pid = prop["id"]
        path = "%s/checks/%s.py" % (ROOT, pid)
        if not os.path.exists(path):
            missing.append("* %s %s\n" % (pid, prop["title"]))
            continue
        mod = constants(path)
        plan = mod["PLAN"]
        out.append("### %s %s\n\n%s\n\n" % (pid, prop["title"], TEXT[pid]))
        out.append("* Explored: %s\n" % mod["RULE"])
        out.append(
            "* Bounds: quick %d cases (at most %d s), thorough %d cases (at most %d s).\n"
            % (plan["quick"] + plan["thorough"])
        )
        out.append("* Why tests cannot decide it: %s\n" % prop["why_tests_cant"])
        out += ["* Assumption: %s.\n" % text.rstrip(".") for text in mod.get("ASSUMPTIONS", [])]
        out.append("\n")
    if missing:
        out.append("### No check yet\n\n" + "".join(missing) + "\n")
    out.append(open(ROOT + "/tools/design_tail.md").read())
    out.append("\n## Seeded changes\n\nEach was tried on the quick tier with seed 0 or 1.\n\n")
    results = json.load(open(ROOT + "/tools/seeded_results.json"))
    for path in sorted(glob.glob(ROOT + "/seeded*/*/meta.json"), key=lambda p: p.split("/")[-2]):
        bug = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        out.append("* %s (%s): %s. Needs %s. %s.\n" % (
            bug, meta["property"], meta["what_it_breaks"], meta["needs"], results.get(bug, "Not tried yet")))
    open(ROOT + "/DESIGN.md", "w").write("".join(out))


main()

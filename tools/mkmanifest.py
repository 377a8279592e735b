"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "runtime invariant monitor on every constructed polygon, exact lattice oracle",
    "P02": "reference-model monitor: exact rational point location",
    "P03": "runtime monitor with exact segment/edge oracles",
    "P04": "reference-model monitor: exact polygon relations by rational clipping",
    "P05": "runtime monitor of area and region conservation after slicing",
    "P06": "reference-model monitor of vector, rotation and area routines",
    "P07": "runtime monitor of closed surfaces, volumes and names of generated solids",
    "P08": "reference-model monitor: exact point-in-solid location",
    "P09": "runtime monitor of interfaces, area and volume after stitching",
    "P10": "model-based history monitor of the object hierarchy",
    "P11": "runtime monitor of mesh arrays against polygons",
    "P12": "history monitor of adjacency answers against pairwise relations",
    "P13": "round-trip monitor of saved files",
    "P14": "round-trip monitor of arrays and independently parsed STL",
    "P15": "history monitor of wildcard paths over a scratch directory tree",
    "P16": "reference-model monitor of recordings and responses",
    "P17": "runtime invariant monitor over simulated ray trajectories",
    "P18": "runtime monitor of every ray step against a mirror-reflection model",
    "P19": "runtime energy-accounting monitor over simulations",
    "P20": "history monitor of transparency answers against block geometry",
    "P21": "differential runtime monitoring across batches, threads and execution modes",
    "P22": "runtime monitor of acceleration-grid answers against exhaustive search",
    "P23": "differential monitoring of compiled (bounds-checked) and interpreted code",
    "P24": "instrumented plotter: runtime monitor of everything drawn in frames and pictures",
    "P25": "reference-model monitor of segment and box crossings",
    "P26": "history and invariant monitors of small helpers",
    "P27": "model-based history monitor of settings, and before/after monitor of directories",
    "P28": "runtime monitor of volumes and adjacency against exact contacts",
}
NOTE = "Runtime monitors and reference oracles over seeded generated workloads; held means no monitor fired on the executions explored."


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
            checks.append(
                dict(
                    property=i,
                    quick_cmd="/verif/run %s --tier quick" % i,
                    thorough_cmd="/verif/run %s --tier thorough" % i,
                    evidence_file="evidence/%s.json" % i,
                    technique=TECH[i],
                    level="exploration",
                    level_note=NOTE,
                )
            )
        else:
            na.append(dict(property=i, reason="no check has been built for this property yet"))
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c 'import building3d, numpy, numba'",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo are needed: monitors wrap public functions and results from outside. Known findings: known_findings.txt.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

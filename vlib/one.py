"""Re-run a single case (replay)."""
import sys
import tempfile

from vlib.common import Ctx, load_check, run_case

if __name__ == "__main__":
    pid, tier, seed, case = sys.argv[1:5]
    mod = load_check(pid)
    ctx = Ctx(pid, tier, int(seed))
    with tempfile.TemporaryDirectory(prefix="verif_one_") as s:
        ctx.scratch = s
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        v = run_case(ctx, mod, int(case))
    print("info:", ctx.case_info)
    print("counts:", ctx.counts)
    for k in ctx.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, ctx.known[k]))
    if v:
        print(v["key"], v["msg"], v["data"])
        print("VIOLATION property=%s replay=case:%s" % (pid, case))
        sys.exit(1)
    print("held")

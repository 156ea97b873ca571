"""Runs the generated cases of one property on the code of /repo's working tree and writes the trace."""
import importlib
import json
import os
import sys
import traceback

import lib


def main():
    prop, cases_path, trace_path, seed, tier = sys.argv[1:6]
    seed = int(seed)
    mod = importlib.import_module(os.environ.get("VERIF_DRIVER") or "d_" + prop.lower())
    try:
        lw = lib.load_legwork(g_table=getattr(mod, "G_TABLE", False))
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    cases = json.load(open(cases_path))
    mod.LW = lw
    if hasattr(mod, "setup"):
        mod.setup(lw, seed, tier)

    def work(case):
        r = lib.rng_for(seed, prop, case["id"])
        lib.forms_for(seed, prop, case["id"])
        try:
            evs = mod.run(case["c"], r)
        except Exception:
            # neither an outcome the driver expects nor one it can encode: recorded as such, always a violation
            evs = [{"fn": "crash", "nocanary": True, "out": {"ok": False}, "class": case["c"], "msg": traceback.format_exc()[-3000:]}]
        for e in evs:
            e["case"] = case["id"]
        out = list(evs)
        # canaries: falsified copies that the judge has to reject
        if case["id"] % 5 == 0:
            for e in evs:
                if e.get("nocanary"):
                    continue
                c = lib.corrupt(e["out"], e.get("_cfac", 1.01), r)
                if c is not None:
                    out.append(dict(e, out=c, canary=True))
        return out

    events = lib.parallel(cases, work, procs=getattr(mod, "PROCS", 8))
    with open(trace_path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")


main()

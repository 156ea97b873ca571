#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (checks/config.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import config
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(config, "NOT_APPLICABLE", {})
TECH = {
    "calls": "TLA+ specification checked with TLC: laws of the specified functions on a generated grid, TLC-generated calls replayed on the code, every recorded result judged by TLC against the specification",
    "machine": "TLA+ state machine checked with TLC: invariants on the bounded model, TLC-generated histories replayed on the real package in separate processes, every recorded step judged by TLC against the specification",
    "store": "TLA+ state machine (spec/SourceStore.tla) checked with TLC: invariants on the bounded model, TLC-generated operation histories replayed on the real objects, every recorded transition judged by TLC against the specification",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 checks/run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
            "technique": c.get("technique", TECH[c.get("kind", "calls")]),
            "level": "model_checking",
            "level_note": c.get("note", "Every explored call's outcome equals the TLA+ specification's prediction to tight relative tolerance; explored inputs are generated from the specification's case classes with seeded concrete values. "
                                "Trusts TLC, the double-precision Java operators of spec/Reals64.tla, numpy/scipy/astropy, and the driver's recording."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks are needed: the drivers call the public interface of /repo's working tree.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. VERIF_KEEP=1 keeps a check's working directory."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")

#!/usr/bin/env python3
"""Decides one property:  python3 checks/run.py C15  (environment: VERIF_SEED, VERIF_TIER).

1. TLC checks the laws / invariants of the property's specification and generates cases or operation sequences,
2. the driver runs them on the code of /repo's working tree and records a trace,
3. TLC judges every event of the trace against the specification (plus canaries that must be rejected).
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: the machinery failed."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(VERIF, "checks"))


class Machinery(Exception):
    pass


def build_java():
    srcs = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
    import hashlib
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + srcs, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Tlc:
    def __init__(self, work):
        self.work, self.cls = work, build_java()

    def run(self, module, cfg, env=None, workers="8", extra=(), timeout=800, heap="6g", props=()):
        """cfg: text of the configuration. Returns (output, stats)."""
        name = "%s-%d" % (module, len(os.listdir(self.work)))
        cfgp = os.path.join(self.work, name + ".cfg")
        open(cfgp, "w").write(cfg)
        meta = os.path.join(self.work, name + ".meta")
        # -cleanup/-metadir keep the states out of the tree; specs are read from SPEC
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides",
               "-Djava.io.tmpdir=" + self.work, "-Dverif.data=" + os.path.join(VERIF, "data"), "-DTLA-Library=" + SPEC] + list(props) + [
               "-cp", self.cls + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", workers,
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=self.work, text=True)
        except subprocess.TimeoutExpired as x:
            raise Machinery("TLC timeout on %s: %s" % (module, (x.stdout or b"")[-2000:]))
        out = p.stdout
        open(os.path.join(self.work, name + ".out"), "w").write(out)
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states", out.replace(",", "") if False else out)
        m = m or re.findall(r"The number of states generated: (\d+)()", out)
        st = {"rc": p.returncode, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1] or 0) if m else 0, "wall": time.time() - t}
        return out, st


def emitted(out):
    """JSON values printed by PrintT(ToJson(..)) (printed as TLA+ strings)"""
    res = []
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                res.append(json.loads(line[1:-1].replace('\\"', '"').replace("\\\\", "\\")))
    return res


def cfg_text(init, nxt, consts, subst, inv=(), extra=""):
    s = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    s += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()) + "".join("  %s <- %s\n" % kv for kv in subst.items())
    for i in inv:
        s += "INVARIANT %s\n" % i
    return s + extra


def judge(tlc, module, subst, consts, trace_path, events, shards=16, timeout=800):
    """Verdicts of all events: list of (index, clauses). An event TLC cannot evaluate is a verdict 'unjudgeable'."""
    bad, dead, st_sum = {}, set(), {"generated": 0, "distinct": 0}
    for attempt in range(8):
        out, st = tlc.run(module, cfg_text("JudgeInit", "JudgeNext", dict(consts, Shards=shards), subst), env={"TRACE": trace_path}, timeout=timeout)
        if st["rc"] == 0:
            for r in emitted(out):
                bad[r["ev"] - 1] = sorted(r["bad"])
            if st["distinct"] != len(events) + shards:
                raise Machinery("judge consumed %d states for %d events" % (st["distinct"], len(events)))
            st_sum["generated"] += st["generated"]; st_sum["distinct"] += st["distinct"]
            break
        # find the event whose evaluation failed
        pos = re.findall(r"/\\ pos = (\d+)", out)
        if not pos or "Error" not in out:
            raise Machinery("judge failed:\n" + out[-6000:])
        k = int(pos[-1]) - 1
        if k in dead or k >= len(events):
            raise Machinery("judge failed:\n" + out[-6000:])
        msg = out[out.find("Error"):][:1500]
        sys.stderr.write("unjudgeable event %d: %s\n" % (k, msg))
        dead.add(k)
        for r in emitted(out):
            bad[r["ev"] - 1] = sorted(r["bad"])
        events[k] = {"fn": "skip", "was": events[k]}
        write_trace(trace_path, events)
    # (after that many, what has been judged is enough: none of this happens on values the specification knows)
    for k in dead:
        bad[k] = ["unjudgeable"]
    return bad, st_sum


def write_trace(path, events):
    with open(path, "w") as f:
        for e in events:
            if e.get("fn") == "crash":
                e = {"fn": "crash"}
            f.write(json.dumps({k: v for k, v in e.items() if not k.startswith("_")}) + "\n")


def run_driver(prop, work, cases_path, seed, tier, timeout=700, extra_env=None):
    trace = os.path.join(work, "trace.ndjson")
    env = dict(os.environ, PYTHONPATH=os.path.join(VERIF, "harness"), PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               MPLCONFIGDIR=os.path.join(work, "mpl"), HOME=work)
    env.update(extra_env or {})
    cmd = [PY, os.path.join(VERIF, "harness", "drive.py"), prop, cases_path, trace, str(seed), tier]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=work)
    if p.returncode == 3:
        return None, p.stdout            # the package cannot be imported
    if p.returncode != 0:
        raise Machinery("driver failed:\n" + p.stdout[-6000:])
    return [json.loads(l) for l in open(trace)], p.stdout


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(prop, tier, seed, t0, level, coverage, assumptions, violations, known):
    """violations: list of (signature, event). Writes evidence and replay files, prints, returns the exit code."""
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump([{"signature": s, "event": e} for s, e in violations[:40]], f, indent=1)
        byc = {}
        for s, _ in violations:
            byc[s] = byc.get(s, 0) + 1
        for s, n in sorted(byc.items(), key=lambda x: -x[1])[:20]:
            print("  broken: %s (%d events)" % (s, n))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s %s" % (prop, json.dumps({k: v for k, v in coverage.items() if isinstance(v, int)})))
    return 0


def settle(prop, tier, seed, t0, cfg, events, bad, states, transitions, extra):
    """Splits the judge's findings into canaries, known findings and violations; writes the evidence."""
    canaries = [i for i, e in enumerate(events) if e.get("canary")]
    missed = [i for i in canaries if i not in bad]
    viol, known = [], []
    kf = [k for k in known_findings() if k.get("property") == prop and not k.get("fixed")]
    for i in sorted(bad):
        e = events[i] if events[i].get("fn") != "skip" else events[i]["was"]
        if e.get("canary"):
            continue
        for c in bad[i]:
            sig = "%s:%s" % (e.get("fn"), c)
            m = [k for k in kf if k["signature"] == sig and k.get("case", e.get("kf")) == e.get("kf")]
            if m:
                if m[0]["what"] not in known:
                    known.append(m[0]["what"])
            else:
                viol.append((sig, e))
    if missed and not viol:
        raise Machinery("canaries accepted: %s" % json.dumps([events[i] for i in missed[:3]])[:3000])
    real = [e for e in events if not e.get("canary")]
    coverage = {"states": states, "transitions": transitions, "traces_validated_against_impl": len(real), "canaries_rejected": len(canaries) - len(missed)}
    coverage.update(extra)
    fns = {}
    for e in real:
        fns[e.get("fn")] = fns.get(e.get("fn"), 0) + 1
    coverage["functions"] = fns
    coverage["samples"] = [{k: v for k, v in e.items() if not k.startswith("_")} for e in real[:3]]
    return finish(prop, tier, seed, t0, "model_checking", coverage, cfg.get("assumptions", []), viol, known)


def import_failed(prop, tier, seed, t0, st, log):
    return finish(prop, tier, seed, t0, "model_checking", {"states": st["distinct"], "transitions": st["generated"],
                  "traces_validated_against_impl": 0, "samples": ["import"]}, [], [("import failed", {"log": log[-3000:]})], [])


JUDGE_SUBST = {k: k + "_" for k in ("Dims", "ValidCase", "LawPoints", "Law", "Judge")}


def run_calls(prop, cfg, seed, tier, t0, work):
    """Call-level properties: cases -> calls -> judge."""
    tlc = Tlc(work)
    module = cfg.get("module", prop)
    n = int(cfg["n"][tier] * float(os.environ.get("VERIF_SCALE", "1")))
    consts = {"Seed": seed, "NCases": n}
    out, st = tlc.run(module, cfg_text("GenInit", "GenNext", dict(consts, Shards=1), JUDGE_SUBST, inv=["Lawful"]))
    if st["rc"] != 0:
        raise Machinery("specification laws/generation failed:\n" + out[-5000:])
    cases = sorted(emitted(out), key=lambda r: r["id"])
    cp = os.path.join(work, "cases.json")
    json.dump(cases, open(cp, "w"))
    events, log = run_driver(prop, work, cp, seed, tier)
    if events is None:
        return import_failed(prop, tier, seed, t0, st, log)
    tp = os.path.join(work, "judge.ndjson")
    write_trace(tp, events)
    bad, js = judge(tlc, module, JUDGE_SUBST, consts, tp, events)
    return settle(prop, tier, seed, t0, cfg, events, bad, st["distinct"] + js["distinct"], st["generated"] + js["generated"],
                  {"cases": len(cases), "law_points_checked": max(0, st["distinct"] - 2 * n)})


# ---------------------------------------------------------------- histories of operations on collections
INVARIANTS = ["TypeOk", "CurveMatches", "CurveMissing", "TolMatches", "MergedSpent", "Aligned", "SnrOwn"]
ACTION_PROPS = ["MergedForever", "OthersUntouched", "StaleHarmless", "ChangeLocal", "NeverRemoved", "SnrPersists", "SubsetFaithful",
                "FilesKept", "LoadFaithful", "EvolveSpends"]
WITH_TABLE = ("C05", "C06", "C07", "C08", "C09", "C11", "C28")       # a g table is loaded (costs a few seconds)


def st_(*xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def store_cfg(prof, small, depth, n_objs=4, max_n=5):
    if small:
        c = {"MaxObjs": 2, "MaxN": 2, "Full": "FALSE", "Instruments_": st_("LISA", "custom", "Hubble"), "Psds": st_("none", "psdA"),
             "Times": st_("auto", "31557600.0"), "Arms": st_("auto"), "Noises": st_("auto", "thiele21"), "BadNoises": st_("bogus"),
             "Classes": st_("Source", "Evolving"), "GKinds": st_("exact"), "Tols": st_("0.05", "0.01")}
    else:
        c = {"MaxObjs": n_objs, "MaxN": max_n, "Full": "TRUE", "Instruments_": st_("LISA", "TianQin", "DECIGO", "custom", "Hubble"), "Psds": st_("none", "psdA", "psdB"),
             "Times": st_("auto", "31557600.0", "126230400.0", "157788000.0", "15778800.0", "98567321.8"), "Arms": st_("auto", "2500000000.0", "1000000000.0", "1734567891.3"),
             "Noises": st_("auto", "robson19", "huang20", "thiele21", "karnesis21", "none", "cnA", "cnB"), "BadNoises": st_("bogus"),
             "Classes": st_("Source", "Stationary", "Evolving"),
             "GKinds": st_("exact", "table") if prof in WITH_TABLE else st_("exact"),
             "Tols": st_("0.05", "0.052", "0.01", "0.0104", "0.0055", "0.0018", "0.001", "0.1", "0.3", "0.8") if prof == "C03" else st_("0.05", "0.0123456789")}
    c.update(Depth=depth, Profile='"%s"' % prof)
    s = "INIT Init\nNEXT %s\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n" % ("NextAll" if small else "NextRnd", "VIEW View\n" if small else "")
    s += "".join("  %s = %s\n" % kv for kv in c.items()) + "  KindSeq <- %s\n" % ("KindSeqAll" if small else "KindSeq_")
    if small:
        return s + "".join("INVARIANT %s\n" % i for i in INVARIANTS) + "".join("PROPERTY %s\n" % i for i in ACTION_PROPS)
    return s + "".join("INVARIANT %s\n" % i for i in INVARIANTS + ["Finished"])


def run_store(prop, cfg, seed, tier, t0, work):
    """Collection properties: the state machine model checked in a small scope, histories of it replayed on real collections, every
    recorded operation judged."""
    tlc = Tlc(work)
    n, depth = int(cfg["n"][tier] * float(os.environ.get("VERIF_SCALE", "1"))), cfg.get("ops", {}).get(tier, 14)
    mc, ms = tlc.run("StoreMC", store_cfg(prop, True, cfg["mc"][tier]))
    if ms["rc"] != 0:
        raise Machinery("model checking of the specification failed:\n" + mc[mc.find("Error"):][:5000])
    out, gs = tlc.run("StoreMC", store_cfg(prop, False, depth, max_n=cfg.get("max_n", 5)), workers="1",
                      extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(seed)])
    if gs["rc"] != 0:
        raise Machinery("generation of histories failed:\n" + out[out.find("Error"):][:5000])
    cases = [{"id": i, "c": h} for i, h in enumerate(emitted(out))]
    if len(cases) < n // 2:
        raise Machinery("only %d histories generated" % len(cases))
    cp = os.path.join(work, "cases.json")
    json.dump(cases, open(cp, "w"))
    events, log = run_driver(prop, work, cp, seed, tier, extra_env={"VERIF_DRIVER": "d_store", "VERIF_PROP": prop})
    if events is None:
        return import_failed(prop, tier, seed, t0, ms, log)
    tp = os.path.join(work, "judge.ndjson")
    write_trace(tp, events)
    bad, js = judge(tlc, "StoreJudge", JUDGE_SUBST, {"Seed": seed, "NCases": 1, "Profile": '"%s"' % prop}, tp, events)
    return settle(prop, tier, seed, t0, cfg, events, bad, ms["distinct"] + js["distinct"], ms["generated"] + js["generated"],
                  {"cases": len(cases), "model_states": ms["distinct"], "model_transitions": ms["generated"], "model_depth": cfg["mc"][tier],
                   "model_invariants": INVARIANTS, "model_action_properties": ACTION_PROPS, "operations_per_history": depth})


def machine_cfg(m, consts, nxt, inv, props, view):
    s = "INIT Init\nNEXT %s\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n" % (nxt, "VIEW View\n" if view else "")
    s += "".join("  %s = %s\n" % kv for kv in consts.items())
    return s + "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % i for i in props)


def run_machine(prop, cfg, seed, tier, t0, work):
    """As run_store, for another state machine: cfg["machine"] model checked and simulated, histories judged by module prop."""
    tlc = Tlc(work)
    m = cfg["machine"]
    n, depth = int(cfg["n"][tier] * float(os.environ.get("VERIF_SCALE", "1"))), cfg["ops"][tier]
    mc, ms = tlc.run(m, machine_cfg(m, dict(cfg["small"], Depth=cfg["mc"][tier]), "Next", cfg["invariants"], cfg["properties"], True))
    if ms["rc"] != 0:
        raise Machinery("model checking of the specification failed:\n" + mc[mc.find("Error"):][:5000])
    out, gs = tlc.run(m, machine_cfg(m, dict(cfg["big"], Depth=depth), "NextRnd", cfg["invariants"] + ["Finished"], [], False), workers="1",
                      extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(seed)])
    if gs["rc"] != 0:
        raise Machinery("generation of histories failed:\n" + out[out.find("Error"):][:5000])
    cases = [{"id": i, "c": h} for i, h in enumerate(emitted(out))]
    if len(cases) < n // 2:
        raise Machinery("only %d histories generated" % len(cases))
    cp = os.path.join(work, "cases.json")
    json.dump(cases, open(cp, "w"))
    events, log = run_driver(prop, work, cp, seed, tier)
    if events is None:
        return import_failed(prop, tier, seed, t0, ms, log)
    tp = os.path.join(work, "judge.ndjson")
    write_trace(tp, events)
    bad, js = judge(tlc, prop, JUDGE_SUBST, {"Seed": seed, "NCases": 1}, tp, events)
    return settle(prop, tier, seed, t0, cfg, events, bad, ms["distinct"] + js["distinct"], ms["generated"] + js["generated"],
                  {"cases": len(cases), "model_states": ms["distinct"], "model_transitions": ms["generated"], "model_depth": cfg["mc"][tier],
                   "model_invariants": cfg["invariants"], "model_action_properties": cfg["properties"], "operations_per_history": depth})


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import config
    cfg = config.CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = {"calls": run_calls, "store": run_store, "machine": run_machine}[cfg.get("kind", "calls")](prop, cfg, seed, tier, t0, work)
    except Machinery as e:
        print("MACHINERY-FAILURE property=%s\n%s" % (prop, e))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()

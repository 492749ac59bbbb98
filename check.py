#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current source tree."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))


def build(out):
    B = os.environ.get("VERIF_BUILD") or os.path.join(V, ".build")
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", os.path.join(V, "harness", "build.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import fw
    import props

    P = props.PROPS[prop]
    out = tempfile.mkdtemp(prefix="vfacts-")
    try:
        keep = os.environ.get("VERIF_FACTS")
        if keep:
            rc, log = 0, ""
            src = keep
        else:
            rc, log = build(out)
            src = out
        tb = time.time() - t0
        if rc != 0:
            print("the source tree does not compile; nothing can be decided")
            print(log[-3000:])
            write(prop, tier, seed, {"explanation": "the tree did not compile", "obligations": 0}, time.time() - t0)
            return 0
        scs = [s for s in P["scenarios"] if tier == "thorough" or s.tier == "quick"]
        if tier == "thorough":
            for s in scs:
                s.limit = max(s.limit, 3000)
        progs = {c: fw.Prog(os.path.join(src, c + ".bin.json")) for c in sorted({s.crate for s in scs})}
        known = json.load(open(os.path.join(V, "known_findings.json")))
        fw.KNOWN[:] = [k for k in known.get("findings", []) if k.get("property") == prop]
        rs = fw.run_all(progs, scs, int(os.environ.get("VERIF_JOBS", "8")), 760 - tb if tier == "quick" else None)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return report(prop, tier, seed, P, scs, rs, t0, tb)


def report(prop, tier, seed, P, scs, rs, t0, tb):
    import fw

    viol, undec, obl, samples, fns, unm = {}, [], {}, {}, set(), {}
    byname = {s.name: s for s in scs}
    for r in rs:
        for v in r["viol"]:
            viol.setdefault((v["rule"], v["function"], v["what"]), v)
        undec += [dict(u, scenario=r["scenario"]) for u in r["undec"]]
        for k, v in r["obl"].items():
            o = obl.setdefault(k, [0, 0, 0])
            for i in range(3):
                o[i] += v[i]
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
        fns |= set(r["functions"])
        for k, v in r["unmodelled"].items():
            unm[k] = unm.get(k, 0) + v
        s = byname[r["scenario"]]
        if not r["error"] and not r.get("cut") and s.min_ok and r["oksinks"] < s.min_ok:
            v = {"rule": "the operation can succeed", "function": s.root, "what": "no execution of %s reaches a successful outcome" % s.root, "where": s.root, "scenario": s.name}
            if not r["unmodelled"]:
                viol.setdefault((v["rule"], v["function"], v["what"]), v)
    errors = [(r["scenario"], r["error"]) for r in rs if r["error"]]
    new, old = [], []
    for k, v in sorted(viol.items()):
        (old if fw.listed(v) else new).append(v)
    nobl = sum(v[0] for v in obl.values())
    ndis = sum(v[1] for v in obl.values())
    cov = {
        "explanation": P["how"],
        "obligations": nobl,
        "discharged": ndis,
        "undecided_obligations": sum(v[2] for v in obl.values()),
        "rules": {k: {"obligations": v[0], "discharged": v[1], "undecided": v[2]} for k, v in sorted(obl.items())},
        "samples": list(samples.values())[:12],
        "functions_analysed": sorted(fns),
        "scenarios": [{k: r[k] for k in ("scenario", "root", "error", "wall", "results", "steps", "calls", "loops", "sinks", "oksinks")} for r in sorted(rs, key=lambda r: r["scenario"])],
        "abstract_steps": sum(r["steps"] for r in rs),
        "undecided": undec[:40],
        "unmodelled": unm,
        "analysis_errors": errors,
        "violations": new,
        "known_findings": old,
        "facts_wall_s": round(tb, 1),
    }
    write(prop, tier, seed, cov, time.time() - t0)
    for v in old:
        print("KNOWN-FINDING: property=%s %s in %s: %s" % (prop, v["rule"], v["function"], v["what"]))
    for s, x in errors:
        print("UNDECIDED scenario %s: %s" % (s, x))
    for u in undec[:10]:
        print("UNDECIDED %s in %s: %s (%s)" % (u["rule"], u["function"], u["what"], u["why"]))
    print("%s %s: %d functions, %d scenarios, %d obligations, %d discharged, %.1f s" % (prop, tier, len(fns), len(rs), nobl, ndis, time.time() - t0))
    if new:
        rd = os.path.join(V, "evidence")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new):
            p = os.path.join(rd, "%s.violation%d.json" % (prop, i))
            json.dump(v, open(p, "w"), indent=1)
            print("%s: %s in %s at %s: %s [scenario %s]" % (prop, v["rule"], v["function"], v["where"], v["what"], v.get("scenario")))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rd, "%s.violation0.json" % prop)))
        return 1
    return 0


def write(prop, tier, seed, cov, wall):
    d = os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.startswith(prop + ".violation"):
            os.unlink(os.path.join(d, f))
    json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2)}, open(os.path.join(d, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())

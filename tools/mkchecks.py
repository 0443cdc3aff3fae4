#!/usr/bin/env python3
"""Writes /verif/checks/*.json and /verif/MANIFEST.json from the tables below."""
import json, os, glob
V = "/verif"
C = {}          # property -> spec
NA = {}         # property -> reason

GENERAL = [
    "Go semantics of the explored SSA are those of the engine in /verif/engine (validated by replaying sampled paths and every counterexample natively).",
    "z3 answers are trusted; every model it returns is re-evaluated.",
]

def run(h, time=60, ttime=0, reach=(), th=None, tier="", note="", **params):
    opts = {}
    for k in ("preempt", "tpreempt", "switches", "maxalloc", "maxsteps", "maxg", "maxtimesteps", "conc", "nonative"):
        if k in params:
            opts[k] = params.pop(k)
    r = {"h": h, "time": time, "params": params}
    if th: r["thorough"] = th
    if ttime: r["ttime"] = ttime
    if reach: r["reach"] = list(reach)
    if tier: r["tier"] = tier
    if note: r["note"] = note
    r.update(opts)
    return r

def check(id, runs, note, assumptions=(), technique="symbolic execution of the Go SSA, SMT (z3)"):
    C[id] = dict(runs=runs, note=note, assumptions=list(assumptions) + GENERAL, technique=technique)

exec(open(os.path.join(V, "tools", "checks_table.py")).read())

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
os.makedirs(V + "/checks", exist_ok=True)
for f in glob.glob(V + "/checks/*.json"):
    if os.path.basename(f)[:-5] not in C:
        os.remove(f)
man = {"version": 1, "setup_cmd": "bash /verif/build.sh", "checks": [], "not_applicable": []}
for id in props:
    if id in C:
        c = C[id]
        with open(f"{V}/checks/{id}.json", "w") as f:
            json.dump({"property": id, "level": "model_checking", "runs": c["runs"], "assumptions": c["assumptions"]}, f, indent=1)
            f.write("\n")
        man["checks"].append({"property": id, "quick_cmd": f"bash /verif/check.sh {id} quick",
            "thorough_cmd": f"bash /verif/check.sh {id} thorough", "evidence_file": f"evidence/{id}.json",
            "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": id, "reason": NA.get(id, "not yet decided: its harness is being built")})
man["notes"] = "See DESIGN.md. No hooks are compiled into /repo: harnesses are separate packages loaded with /repo's current sources."
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print("claimed", [c["property"] for c in man["checks"]], "not", [n["property"] for n in man["not_applicable"]])

#!/usr/bin/env python3
"""Writes checks.json (what each check explores) and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def H(fn, pkg, files, quick=60, thorough=None, params=None, qp=None, tp=None, reach=(), bounds="", **kw):
    h = {"fn": fn, "pkg": pkg, "files": files if isinstance(files, list) else [files], "params": params or {},
         "quick": {"seconds": quick, "params": qp or {}}, "thorough": {"seconds": thorough or quick * 4, "params": tp or {}},
         "reach": list(reach), "bounds": bounds}
    h.update(kw)
    return h

TECH = "symbolic execution of the real code (Go SSA) with an SMT solver deciding every branch and assertion"
CHECKS = {}
NA = {}

exec(open(os.path.join(V, "tools", "checks_table.py")).read())

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
json.dump(CHECKS, open(os.path.join(V, "checks.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "bin/verif setup", "checks": [], "not_applicable": [],
       "hooks": {"guard": "verif", "enable": "no hooks: harnesses are laid over the packages with the Go build overlay (tag and source of /repo unchanged)", "source_commits": []}}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": "bin/verif check -prop %s -tier quick" % i, "thorough_cmd": "bin/verif check -prop %s -tier thorough" % i,
                              "technique": TECH, "level": "model_checking",
                              "level_note": ("Bounded: %s Outside: %s Trusted: the SSA interpreter, its closed forms of library routines and the SMT solver; counterexamples and sampled paths are replayed against the native build."
                                             % (c["bounds"], c["outside"]))})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks;", [n["property"] for n in man["not_applicable"]])

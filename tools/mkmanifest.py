#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import spec
NA = getattr(spec, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in spec.SPEC:
        s = spec.SPEC[i]
        py = s.get("python")
        bounds = " | ".join("%s: %s" % (j["e"], j.get("bounds", "")) for j in s["jobs"])
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": ("symbolic execution of the real Python modules with Z3-backed proxy values; Z3 decides branches and assertions; counterexamples replayed on plain Python"
                                     if py else "symbolic execution of the LLVM IR of the real C++ code; Z3 decides branches and assertions; counterexamples replayed on the native build"),
                       "level": "model_checking", "level_note": ("bounded. " + bounds)[:1500]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: work in progress")})
m = {"version": 1, "setup_cmd": "make -C engine", "checks": checks, "not_applicable": na,
     "notes": "no hooks in /repo: the checks compile /repo's sources as they are"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")

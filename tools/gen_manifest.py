#!/usr/bin/env python3
"""MANIFEST.json from the check registry and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
reg, notes = {}, {}
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if f.endswith(".py"):
        m = importlib.import_module(f[:-3]); reg.update(m.CHECKS); notes.update(getattr(m, "NOTES", {}))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i in reg:
        spec, note = notes.get(i, ("", ""))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "TLA+ specification %s checked by TLC, bound to the code by replaying its behaviours and validating recorded traces" % spec,
                       "level": "model_checking", "level_note": note or "Exhaustive within the constants of the specification; conformance of the code on every generated behaviour, under AddressSanitizer. Trusts TLC, the compiler and the driver's projection."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py", "hooks": {"guard": "none", "enable": "no hook is needed: drivers in /verif/harness link the unmodified sources of /repo", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds both amalgamations (regenerated from the sources, and the committed one) from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")

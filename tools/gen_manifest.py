#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))

EDIT = "TLA+ model of edit histories (TLC, exhaustive on small surfaces)"
T = {
 "C04": (EDIT + "; recorded call histories judged by TraceOps (well-formedness of the half-edge structure)",
         "Exhaustive small-surface model plus recorded random histories of real calls, each state checked by TLC; bounded by history length and mesh size."),
 "C05": (EDIT + "; spec-enumerated split cases replayed on the code, recorded histories judged by TraceOps",
         "All half-edges of all small reachable surfaces are replayed; larger surfaces by recorded histories."),
 "C06": (EDIT + "; spec-enumerated flip cases replayed on the code, recorded histories judged by TraceOps",
         "All half-edges of all small reachable surfaces are replayed; larger surfaces by recorded histories."),
 "C07": (EDIT + "; spec-enumerated collapse cases replayed on the code, recorded histories judged by TraceOps",
         "All half-edges of all small reachable surfaces are replayed; integer coordinates make the orientation test exact."),
 "C08": (EDIT + "; recorded histories judged by TraceOps (refusal leaves every observable unchanged)",
         "Recorded random histories; every call's before/after structure compared by the specification."),
 "C09": (EDIT + "; topology invariant model-checked, recorded histories judged by TraceOps",
         "Invariant proved by exhaustive exploration up to 9 vertices, bound to the code by recorded histories."),
}
try:
    from manifest_table import MORE, NA
    T.update(MORE)
except ImportError:
    NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: calls inside the library are observed by linker wrapping (--wrap) in the harness build", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Specification language TLA+ (TLC). run.py PROPERTY is the single entry point; known_findings.txt lists repaired and known defects."}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                            "thorough_cmd": "python3 run.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0],
                            "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

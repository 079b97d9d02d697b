#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harnesses present."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from props import P, NA
claimed = [p for p in P if os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                               "observe_at": p["observe"], "hook_needed": None}}, f); f.write("\n")
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check is registered yet")} for p in P if p not in claimed]
checks = []
for p in claimed:
    src = open(os.path.join(V, "harness", p["id"] + ".cpp")).read()
    fz = "fuzz-thorough" in src
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "property-based testing: " + p["how"] + ("; plus libFuzzer on the same checks" if fz and "libFuzzer" not in p["how"] else ""),
                   "level": "exploration",
                   "level_note": "Generated-input search with shrinking; holds on every generated case, no claim beyond them. " + (p["assume"] + " " if p["assume"] else "") +
                       "Trusts the reference model in harness/%s.cpp, clang and AddressSanitizer." % p["id"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the checks use zpl's public interface only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check compiles zpl from /repo/code and one harness into /verif/build (ignored by git); VERIF_SEED selects the search, the same seed gives the same cases."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("properties %d, claimed %d" % (len(P), len(claimed)))

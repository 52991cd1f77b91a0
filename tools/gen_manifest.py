#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "harness", i + ".cpp")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py " + i + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", "property-based testing with generated inputs against a reference model, with shrinking"),
                       "level": "exploration",
                       "level_note": n.get("note", "Generated-input search against an explicit oracle; a pass means no counterexample among the cases counted in the evidence. Trusts the oracle in the harness, g++ and AddressSanitizer.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the library is header-only and the harnesses include it directly", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Replay a reported failure with ./check.py <id> --replay <path>."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

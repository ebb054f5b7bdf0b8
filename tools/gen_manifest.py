#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props as P
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in P.PROPS:
        c = P.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + c["technique"],
                       "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": P.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 build.py --all",
     "hooks": {"guard": "KML_SIM", "enable": "-DKML_SIM=1 (passed by build.py; no hook was needed in /repo, every seam is an existing interface or a libc symbol)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py builds the simulator from /repo's working tree, runs seeded simulations on 8 workers, minimises any failure and replays it in a fresh process before reporting. Replay a file with: <simulator> --replay FILE (build.py prints the simulator's path)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Write MANIFEST.json from lib/jobs.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import jobs
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
TECH = {"model_checking": "stateless model checking of the real code: exhaustive bounded exploration (mcrt) against a reference model",
        "exploration": "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model",
        "fault_enumeration": "exhaustive enumeration of operating-system refusals on the real code, with bounded schedules"}
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": s.get("technique") or TECH[s["level"]], "level": s["level"],
                       "level_note": s.get("note") or s["bounds"]})
    else:
        na.append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py",
           "hooks": {"guard": "GC_MC_SMALL_WORKLISTS", "enable": "compile with -DGC_MC_SMALL_WORKLISTS: tracing worklists get small initial buffers, so that bounded runs reach their boundaries", "source_commits": ["a019f89"]},
           "checks": checks, "not_applicable": na,
           "notes": "check.py PROPERTY [quick|thorough] [job-regex]; see DESIGN.md"}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

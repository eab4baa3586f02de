#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
SCHED = "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound)"
SEQ = "bounded exhaustive enumeration of inputs and histories on the real code against a reference model"
FAULT = "exhaustive fault enumeration (every fault position of every history up to a bound) on the real code"
TECH = {"C01": SCHED, "C02": SCHED, "C05": SCHED, "C06": SCHED, "C16": SCHED, "C24": SCHED.replace("all schedules up to a preemption bound", "one thread stopped for good at every point of its execution"),
        "C04": FAULT + "; schedules of failing updates under a controlled scheduler", "C14": FAULT, "C19": FAULT, "C26": FAULT + " and signal delivery moment",
        "C21": SEQ + "; separate hashers under a controlled scheduler", "C22": SEQ + "; separate summaries under a controlled scheduler"}
NOTE = {"model_checking": "Every schedule of the listed closed scenarios within the bounds, on the real code rewritten with scheduling points. ",
        "fault_enumeration": "Every fault position of every history within the bounds, on the real code. ",
        "exploration": "Everything enumerated within the bounds, on the real code. "}
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks rewrite a scratch copy of the working tree", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Known findings: C09 group-concat and hash-collision (known_findings.json). Repairs are the fix: commits in /repo."}
for c, cfg in sorted(CHECKS.items()):
    a = cfg.get("assumptions", [])
    m["checks"].append({"property": c, "quick_cmd": "python3 check.py %s" % c, "thorough_cmd": "python3 check.py %s --tier thorough" % c,
                        "technique": TECH.get(c, SEQ), "level": cfg["level"],
                        "level_note": NOTE[cfg["level"]] + "Bounds: " + cfg["bounds"] + "." + (" Assumes: " + "; ".join(x.rstrip(".") for x in a) + "." if a else "")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

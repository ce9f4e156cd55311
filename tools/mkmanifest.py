#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the check modules present and the reasons below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = dict(X02="ThreadSanitizer plus a perturbing task scheduler: the real code under stress, race reports and cross-schedule result comparison",
            X03="AddressSanitizer and UndefinedBehaviorSanitizer builds of the real extension modules under hostile API workloads")
DEF_T = "runtime monitoring: reference-model oracle over recorded API results of the real code under randomised and hostile workloads"
FULL = (" The class needs Eigen, fsph or voro++, which the regular build lacks: the check compiles the real freud sources against the installed Eigen and against stand-ins for fsph and voro++ (shim/ext).")
NOTE = "monitors judge every generated case against an independent oracle; nothing is claimed about inputs not generated"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "vf", "checks", pid + ".py")):
        checks.append(dict(property=pid, quick_cmd="bin/check " + pid, thorough_cmd="bin/check %s --tier thorough" % pid,
                           technique=TECH.get(pid, DEF_T), level="exploration", level_note=NOTE + (FULL if pid in ('V01', 'O04', 'O05', 'E03', 'E04', 'S03') else '')))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "its check is not written yet")))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="Each check builds a private copy of /repo's working tree under /verif/.cache (ignored by git). No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/checks.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from checks import CHECKS
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "VERIF_MONITOR", "enable": "-DVERIF_MONITOR on the compiler command line (lib/build.py); no hook is needed so far",
              "source_commits": []},
    "checks": [],
    "not_applicable": [{"property": "C34", "reason": "No CUDA tool chain or GPU is available and the multi-session sources do not compile in this tree, so there is no execution to monitor."}],
}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    m["checks"].append({
        "property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "python3 run.py " + pid,
        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"],
        "evidence_file": "evidence/%s.json" % pid})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/properties.py."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "bin"))
from properties import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
hooks = [l.split()[0] for l in log if " verif hook" in l]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "cfg(goko_verif)", "enable": "RUSTFLAGS=\"--cfg goko_verif\" when building the crates under /verif/harness (bin/env.sh)",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

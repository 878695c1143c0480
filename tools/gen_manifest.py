#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in CHECKS]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build-all",
    "hooks": {"guard": "LIBNPY_VERIF_ZIP64_LIMIT",
              "enable": "run.py compiles src/npz.cpp with -DLIBNPY_VERIF_ZIP64_LIMIT=<n> for the lowered-limit jobs of C15 (and C10, C13, C21); all other jobs leave it undefined",
              "source_commits": hook},
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 run.py {p} --tier quick",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"], "level": c["level"],
        "level_note": c.get("note") or ("Exhaustive within: " + (c["bounds"]["quick"] if isinstance(c["bounds"], dict) else c["bounds"]) + ". Trusts: the reference in harness/common, the compiler and sanitizers."),
    } for p, c in sorted(CHECKS.items())],
    "not_applicable": na,
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, subprocess
from checks_table import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = dict(
    version=1,
    setup_cmd="python3 setup.py",
    hooks=dict(guard="--cfg rtbvh_verif", enable="harness/.cargo/config.toml sets rustflags = [\"--cfg\", \"rtbvh_verif\"]", source_commits=hooks),
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=CHECKS[p["id"]]["technique"], level="exploration",
                 level_note=CHECKS[p["id"]]["rule"]) for p in props if p["id"] in CHECKS],
    not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in CHECKS],
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

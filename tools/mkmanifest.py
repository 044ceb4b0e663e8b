#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("hook")]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --help > /dev/null",
    "hooks": {
        "guard": "cfg(tp_verif)",
        "enable": "RUSTFLAGS='--cfg tp_verif' (set by checks/common.py for every build of the monitors)",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    if p in registry.CHECKS:
        c = registry.CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"python3 run.py {p} --tier quick",
            "thorough_cmd": f"python3 run.py {p} --tier thorough",
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "no check has been built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

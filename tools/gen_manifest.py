#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.py build",
     "hooks": {"guard": "raknet_verif", "enable": "RUSTFLAGS=\"--cfg raknet_verif --cfg tokio_unstable\" (harness/.cargo/config.toml)",
               "source_commits": HOOKS},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: property-based testing over a deterministic simulation; see DESIGN.md. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

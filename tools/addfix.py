#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, w = sys.argv[1:4]
c = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True, check=True).stdout.strip()
open(os.path.join(V, "known_findings.jsonl"), "a").write(json.dumps(
    {"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c[:10]} {w}"}) + "\n")

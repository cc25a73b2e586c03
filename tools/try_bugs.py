#!/usr/bin/env python3
"""Author's tool: apply each seeded bug to /repo in turn and run its check (and others given)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    p = f"{V}/seeded/{i}/patch.diff"
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", p], check=True)
        r = subprocess.run(["python3", "check.py", prop], cwd=V, capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if "VIOLATION" in l] or r.stdout.splitlines()[-2:]
        print(i, prop, r.returncode, *[o[:300] for o in out[:2]], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])

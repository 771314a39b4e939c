#!/usr/bin/env python3
"""Apply each planted bug to /repo, run its property's check, undo. usage: run.py [--all-checks] [ids...]"""
import json, os, subprocess, sys
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY"); continue
    try:
        r = subprocess.run(["python3", "vf.py", "check", m["property"]], cwd="/verif", capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", "INCOMPLETE", "NO ANSWER", "BUILD"))]
        print(i, m["property"], r.returncode, v[:2], r.stdout.splitlines()[-1][:80], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])

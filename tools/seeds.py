#!/usr/bin/env python3
"""seeds.py [ID...]: applies each planted bug to /repo, runs its property's check, undoes it, and says what caught it."""
import glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    prop = json.load(open(f"{d}/meta.json"))["property"]
    t = time.time()
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{d}/patch.diff"])
    try:
        p = subprocess.run(["python3", f"{V}/tools/check.py", prop, "quick"], capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    out = [l for l in p.stdout.splitlines() if l.strip()]
    hit = [l for l in out if l.startswith("VIOLATION")]
    kind = "missed" if p.returncode != 1 else ("obligation" if hit and hit[0].endswith("no-failing-input-found") else "failing input")
    print(f"{i} [{prop}] exit {p.returncode} {kind} {time.time() - t:.0f} s | " + " | ".join(o[:220] for o in out[:4]), flush=True)

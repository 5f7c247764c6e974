#!/usr/bin/python3
"""seedcheck.py [id...]: runs the check of each seeded change's property against it (in scratch copies) and prints what was caught."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sel = sys.argv[1:]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    if sel and i not in sel:
        continue
    p = json.load(open(m))["property"]
    d = tempfile.mkdtemp(prefix="sc_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        subprocess.run(["git", "-C", d + "/r", "apply", os.path.dirname(m) + "/patch.diff"], check=True)
        r = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, PYSW_REPO=d + "/r"), capture_output=True, text=True)
        print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, f"ERROR {r.returncode}"), r.stdout.strip().splitlines()[-1], r.stderr[-300:] if r.returncode > 1 else "", flush=True)
    finally:
        shutil.rmtree(d)

#!/usr/bin/python3
"""autoseed.py [id...]: writes seeded/<id>/ for the bugs of tools/autoseeds.py.

Each is a textual edit. In a scratch clone: the tests must pass; the demonstration is a history found by the check of the
property (its cfg and acts), run against the code with the harness copied beside it, compared with what the unchanged code
does on that history. Bugs that the check misses are reported as MISSED: they get a hand written demo in seeds.py."""
import json, os, re, shutil, subprocess, sys, tempfile
from multiprocessing.pool import ThreadPool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/harness")
from autoseeds import SEEDS
import registry
sel = sys.argv[1:]

DEMO = '''import sys, os, json
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
sys.dont_write_bytecode = True
import importlib, engine
h = json.load(open(os.path.join(D, "history.json")))
m, c = h["component"]
comp = getattr(importlib.import_module(m), c)()
io, steps, _ = engine.run_code(comp, h["cfg"], h["acts"])
got = json.loads(json.dumps([io] + [o for a, o in steps]))
for i, (e, g) in enumerate(zip(h["outs"], got)):
    if e != g:
        print("step", i, h["acts"][i - 1] if i else "set up")
        for k in e:
            if e.get(k) != g.get(k): print("  ", k, "expected", json.dumps(e[k])[:600], "\\n   ", " " * len(k), "observed", json.dumps(g.get(k))[:600])
        sys.exit(1)
sys.exit(0 if len(got) == len(h["outs"]) else 1)
'''
REC = '''import sys, json, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import engine
h = json.load(open(sys.argv[1]))
comp = getattr(importlib.import_module(h["component"][0]), h["component"][1])()
io, steps, _ = engine.run_code(comp, h["cfg"], h["acts"])
h["outs"] = [io] + [o for a, o in steps]
json.dump(h, open(sys.argv[1], "w"))
''' % (V + "/harness")

def imports(f, seen):
    if f in seen or not os.path.exists(f"{V}/harness/{f}.py"): return
    seen.add(f)
    for l in open(f"{V}/harness/{f}.py"):
        m = re.match(r"\s*(?:import (.*)|from (\w+) import)", l)
        if m:
            for n in (m.group(1).split(",") if m.group(1) else [m.group(2)]):
                imports(n.strip().split(" ")[0], seen)

def do(s):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r, v = d + "/r", d + "/v"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        os.makedirs(v); 
        for x in ("harness", "spec", "check.py"):
            (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", f"{v}/{x}")
        if os.path.exists(V + "/build"): os.symlink(V + "/build", v + "/build")
        os.makedirs(d + "/root"); os.symlink(r + "/content/lib", d + "/root/lib")
        e = dict(os.environ, PYTHONPATH=d + "/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        for (f, old, new) in s["edits"]:
            p = r + f if f[0] == "/" else f"{r}/content/lib/pyswitch/{f}"
            t = open(p).read()
            if t.count(old) != 1: return s["id"], f"BAD edit {f} count={t.count(old)}"
            open(p, "w").write(t.replace(old, new))
        patch = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + r, "test/pyswitch"], cwd=r, env=e, capture_output=True, text=True)
        if t.returncode: return s["id"], "BAD tests " + t.stdout.strip().splitlines()[-1]
        try:
            c = subprocess.run(["python3", "check.py", s["property"]], cwd=v, env=dict(os.environ, PYSW_REPO=r), capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return s["id"], "BAD timeout"
        m = re.search(r"^VIOLATION property=(\S+) replay=(\S+)", c.stdout, re.M)
        if not m: return s["id"], "MISSED " + c.stdout.strip().splitlines()[-1] + c.stderr[-300:]
        rp = json.load(open(f"{v}/{m.group(2)}"))
        comp = [x for x in registry.PROPS[s["property"]] if getattr(__import__(x[0]), x[1])().name == rp["component"]][0]
        out = f"{V}/seeded/{s['id']}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        json.dump(dict(component=comp, cfg=rp["cfg"], acts=rp["acts"]), open(out + "/history.json", "w"))
        subprocess.run(["/usr/bin/python3", "-c", REC, out + "/history.json"], check=True, env=dict(os.environ, PYSW_REPO="/repo"))
        seen = set(); imports("engine", seen); imports(comp[0], seen)
        for h in seen: shutil.copy(f"{V}/harness/{h}.py", out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.py", "w").write(DEMO)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=r, env=dict(os.environ, PYSW_REPO=r), capture_output=True, text=True)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if b.returncode == 0 or a.returncode != 0:
            shutil.rmtree(out)
            return s["id"], f"BAD demo with={b.returncode} without={a.returncode} {a.stdout[-300:]} {a.stderr[-300:]}"
        return s["id"], f"OK steps={len(rp['acts'])} " + b.stdout.strip()[:250].replace("\n", " | ")
    finally:
        shutil.rmtree(d)

todo = [s for s in SEEDS if not sel or s["id"] in sel]
for i, m in ThreadPool(2).imap_unordered(do, todo):
    print(i, m, flush=True)

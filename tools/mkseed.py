#!/usr/bin/python3
"""mkseed.py [id...]: writes seeded/<id>/ from tools/seeds.py, and verifies each in a scratch copy of /repo: builds, tests pass, demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
sel = sys.argv[1:]
d = tempfile.mkdtemp(prefix="seed_")
try:
    subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
    r = d + "/r"
    os.makedirs(d + "/root"); os.symlink(r + "/content/lib", d + "/root/lib")
    e = dict(os.environ, PYTHONPATH=d + "/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    for s in SEEDS:
        if sel and s["id"] not in sel:
            continue
        out = f"{V}/seeded/{s['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for (f, old, new) in s["edits"]:
            p = f"{r}/content/lib/pyswitch/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(out + "/patch.diff", "w").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout)
        for h in ("world.py", "vdev.py"):
            shutil.copy(f"{V}/harness/{h}", out)
        open(out + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport world, vdev\nfrom vdev import cc, pc, sysex\nworld.fresh()\n" + s["demo"].strip("\n") + "\nprint('ok')\n")
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 60 /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + r, "test/pyswitch"], cwd=r, env=e, capture_output=True, text=True)
        ok_t = t.returncode == 0
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=r, env=dict(os.environ, PYSW_REPO=r), capture_output=True, text=True)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        good = ok_t and b.returncode != 0 and a.returncode == 0
        print(s["id"], "OK" if good else "BAD", "| tests", t.stdout.strip().splitlines()[-1], "| demo with:", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:100], "| without:", a.returncode, a.stderr[-300:])
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        if not good:
            shutil.rmtree(out)
finally:
    shutil.rmtree(d)

#!/usr/bin/python3
"""Development aid: mutate.py FILE OLD NEW [-n INDEX] ID...  Applies a change to a scratch copy of /repo, runs the test suite and the given checks there.
With - as FILE: reads a patch file (OLD) instead. Nothing here is used by the checks."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut_")
try:
    for x in ("content", "test", "web"):
        if x == "web":
            shutil.copytree("/repo/web/htdocs/python", d + "/web/htdocs/python")
        else:
            shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("__pycache__"))
    if f == "-":
        subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", old], check=True)
    else:
        p = f"{d}/content/lib/pyswitch/{f}"
        s = open(p).read()
        old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
        assert s.count(old) == 1, f"{s.count(old)} occurrences"
        open(p, "w").write(s.replace(old, new))
    os.makedirs(d + "/root")
    os.symlink(d + "/content/lib", d + "/root/lib")
    e = dict(os.environ, PYTHONPATH=d + "/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + d, "test/pyswitch"], cwd=d, env=e, capture_output=True, text=True)
    print("tests:", r.stdout.strip().splitlines()[-1])
    for i in ids:
        r = subprocess.run([sys.executable, V + "/check.py", i], env=dict(os.environ, PYSW_REPO=d), capture_output=True, text=True)
        print(i, "exit", r.returncode, "|", "\n".join(r.stdout.strip().splitlines()[-5:])[-1200:] if r.returncode else "NOT DETECTED", r.stderr[-1500:] if r.returncode == 3 else "")
finally:
    shutil.rmtree(d)

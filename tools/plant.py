#!/opt/venv/bin/python
"""Makes and validates the planted bugs described in tools/seeds/*.py in a scratch copy of /repo.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (the text of demo.py, run with cwd = the tree)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def load(f):
    s = importlib.util.spec_from_file_location("seed", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def run(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)


def base_lines(path):
    return set(subprocess.run(["git", "-C", "/repo", "show", "ccd2b3a:" + path], capture_output=True, text=True).stdout.splitlines())


def plant(f):
    sid = os.path.basename(f)[:-3]
    m = load(f)
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        t = os.path.join(tmp, "repo")
        shutil.copytree("/repo", t, symlinks=True)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(m.DEMO.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = run(["bash", os.path.join(d, "demo.sh")], t)
        if r.returncode != 0:
            return "%s: demo fails on the unchanged tree: %s" % (sid, (r.stdout + r.stderr)[-600:])
        for path, old, new in m.EDITS:
            p = os.path.join(t, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: text occurs %d times in %s" % (sid, s.count(old), path)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        touched = False
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = base_lines(l[6:])
            elif l.startswith("-") and not l.startswith("---") and l[1:] in cur:
                touched = True
        if not touched:
            return "%s: no line of the original repository is changed" % sid
        r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], t)
        if " passed" not in r.stdout or "failed" in r.stdout or r.returncode:
            return "%s: tests fail: %s" % (sid, r.stdout[-400:])
        r = run([PY, "-c", "import importlib,pathlib\nfor p in pathlib.Path('czone').rglob('*.py'):\n    n='.'.join(p.with_suffix('').parts).replace('.__init__','')\n    importlib.import_module(n)"], t)
        if r.returncode:
            return "%s: does not import: %s" % (sid, r.stderr[-300:])
        for i in range(2):
            r = run(["bash", os.path.join(d, "demo.sh")], t)
            if r.returncode == 0:
                return "%s: demo passes with the change" % sid
        out = os.path.join(ROOT, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, n), os.path.join(out, n))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "%s: ok (%s)" % (sid, (r.stdout + r.stderr).strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    fs = sorted(os.path.join(ROOT, "tools", "seeds", x) for x in os.listdir(os.path.join(ROOT, "tools", "seeds")) if x.endswith(".py"))
    if len(sys.argv) > 1:
        fs = [f for f in fs if any(a in os.path.basename(f) for a in sys.argv[1:])]
    for f in fs:
        print(plant(f), flush=True)

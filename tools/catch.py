#!/opt/venv/bin/python
"""Runs the check of each planted bug's property on a scratch copy with the bug (VERIF_REPO), several at a time."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(sid):
    meta = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        t = os.path.join(tmp, "repo")
        shutil.copytree("/repo", t, symlinks=True)
        v = os.path.join(tmp, "verif")
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        r = subprocess.run(["git", "apply", os.path.join(ROOT, "seeded", sid, "patch.diff")], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return sid, meta["property"], "patch does not apply"
        e = dict(os.environ, VERIF_REPO=t, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["/opt/venv/bin/python", "check.py", meta["property"]], cwd=v, env=e, capture_output=True, text=True, timeout=1800)
        L = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        how = "MISSED" if r.returncode == 0 else "caught" + (" (no input)" if L and "no-failing" in L[0] else "") if r.returncode == 1 and L else "BROKEN rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:])
        lab = ""
        if L:
            p = L[0].split("replay=")[1].split(" ")[0]
            try:
                d = json.load(open(p))
                lab = "%s/%s" % (d.get("item"), d["fail"]["label"]) if "fail" in d else str(d.get("failed_obligations", [{}])[0].get("label"))
            except Exception as ex:
                lab = str(ex)
        nob = sum(l.startswith("undischarged") for l in r.stdout.splitlines())
        return sid, meta["property"], "%s; %d obligations failed; %s" % (how, nob, lab)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
if len(sys.argv) > 1:
    ids = [i for i in ids if any(a in i for a in sys.argv[1:])]
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print("%-28s %s %s" % r, flush=True)

#!/usr/bin/env python3
"""runseed.py [-p C01,C02 | -a] [-j N] ID|DIFF...: runs the quick check of the bug's property
(-a: of all properties) against a scratch copy of /repo with the bug, mounted over /repo (and a
copy of /verif over /verif) in a private mount namespace."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("-p"); ap.add_argument("-a", action="store_true"); ap.add_argument("-j", type=int, default=2)
ap.add_argument("ids", nargs="*")
o = ap.parse_args()


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def run(id):
    diff = id if id.endswith(".diff") else "/verif/seeded/%s/patch.diff" % id
    props = o.p.split(",") if o.p else ["C%02d" % i for i in range(1, 26)] if o.a else \
        [json.load(open("/verif/seeded/%s/meta.json" % id))["property"]]
    top = tempfile.mkdtemp(prefix="iso-")
    res = []
    try:
        sh(["cp", "-a", "/repo", top + "/repo"])
        sh(["rsync", "-a", "--exclude", "build", "--exclude", "replays", "--exclude", ".git", "--exclude", "seeded", "/verif/", top + "/verif/"]) \
            if shutil.which("rsync") else sh("mkdir %s/verif; cd /verif; tar cf - --exclude=./build --exclude=./replays --exclude=./.git --exclude=./seeded . | tar xf - -C %s/verif" % (top, top), shell=True)
        rc, out = sh(["git", "apply", diff], cwd=top + "/repo")
        if rc: return [(id, "-", "patch: " + out)]
        for p in props:
            t = time.time()
            rc, out = sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick" % (top, top, p)])
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res.append((id, p, "rc=%d %d violations %.0f s %s" % (rc, len(v), time.time() - t, "" if rc in (0, 1) else out[-1500:])))
    finally:
        shutil.rmtree(top)
    return res


with ThreadPoolExecutor(o.j) as ex:
    for r in ex.map(run, o.ids or sorted(os.listdir("/verif/seeded"))):
        for x in r: print(*x, flush=True)

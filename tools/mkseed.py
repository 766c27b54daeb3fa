#!/usr/bin/env python3
"""mkseed.py FILE.py [ID...]: makes seeded/<ID>/ from the bugs described in FILE.py.

A bug is S(id, property, edits, needs, breaks, demo, cpp=False, header=True): edits are
(file below /repo, old text, new text); header: regenerate include/wisardpkg.hpp as well.
Everything happens in a scratch copy of /repo that is mounted over /repo in a private mount
namespace, so the bug never touches the real tree: the copy is built, the stable tests have to
pass, and demo.sh has to succeed without and fail with the change."""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"
BUGS = {}


def S(id, prop, edits, needs, breaks, demo, cpp=False, header=True):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cpp=cpp, header=header)


DEMO_PY = '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n'
DEMO_CPP = '''#!/bin/bash
# cwd: /repo
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -O0 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I include "$(dirname "$0")/demo.cc" -o "$t/demo" || exit 98
cd "$t" && ./demo
'''
HEAD_PY = 'import os, sys, json, tempfile\nsys.path.insert(0, os.path.join(os.getcwd(), "test"))\nimport wisardpkg as wp\n\n'


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), env=env)
    return p.returncode, p.stdout


def inside(repo, script):
    """run a shell script with the copy mounted over /repo"""
    return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && { %s; }" % (repo, script)])


def make(id, b):
    top = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(top, "repo")
        rc, out = sh(["cp", "-a", "/repo", repo]); assert rc == 0, out
        d = os.path.join(top, id)
        os.makedirs(d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_CPP if b["cpp"] else DEMO_PY)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.cc" if b["cpp"] else "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n") if b["cpp"] else HEAD_PY + b["demo"].lstrip("\n"))
        rc, out = inside(repo, "bash /opt/vp/build.sh")
        if rc: return "base build: " + out[-500:]
        rc, out = inside(repo, "timeout 300 bash %s/demo.sh" % d)
        if rc: return "demo fails on the base: rc %d %s" % (rc, out[-800:])
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        if b["header"]:
            rc, out = sh([sys.executable, "-B", "generate_include.py"], cwd=repo); assert rc == 0, out
        rc, out = inside(repo, "bash /opt/vp/test.sh %s/out.json" % top)
        try:
            o = json.load(open(os.path.join(top, "out.json")))
        except OSError:
            return "build: " + out[-1500:]
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in stable if t not in o.get("passed", [])]
        if bad: return "tests fail: %s" % bad[:5]
        rc, out = inside(repo, "timeout 300 bash %s/demo.sh" % d)
        if rc == 0: return "demo passes with the change"
        if rc in (98, 99): return "demo does not build: " + out[-800:]
        rc2, diff = sh(["git", "diff", "--", "src", "include"], cwd=repo)
        with open(os.path.join(d, "patch.diff"), "w") as f: f.write(diff)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1); f.write("\n")
        dst = os.path.join(SEEDED, id)
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return "ok (demo rc %d: %s)" % (rc, out.strip().splitlines()[-1][:100] if out.strip() else "")
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:] or list(BUGS)
    with ThreadPoolExecutor(6) as ex:
        for id, r in zip(ids, ex.map(lambda i: make(i, BUGS[i]), ids)):
            print(id, BUGS[id]["prop"], r, flush=True)

"""python3 tools/plant.py ID   -- confirms /verif/seeded/ID in a scratch copy: applies, tests pass, demo 0 / nonzero.
With edits given in tools-style JSON (seeded/ID.edits.json outside git) it first makes the patch."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make(ident, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]"""
    d = os.path.join(VERIF, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("cp -a /repo %s/r" % work)
        r = work + "/r"
        for f, old, new in edits:
            p = os.path.join(r, "src/infi/instruct", f)
            t = open(p).read()
            assert t.count(old) == 1, (ident, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        out = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(out)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(work)
    return confirm(ident)


def confirm(ident):
    """Works on /repo itself, as the demo imports the installed package, and undoes the change straight afterwards."""
    d = os.path.join(VERIF, "seeded", ident)
    if sh("git status --porcelain", cwd="/repo").stdout.strip():
        print("repo not clean")
        return False
    demo = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), demo)
    a = sh("timeout 280 bash %s/demo.sh" % demo, cwd="/repo")
    ap = sh("git apply %s/patch.diff" % d, cwd="/repo")
    try:
        b = sh("bash /opt/vp/build.sh", cwd="/repo")
        out = tempfile.mktemp()
        t = sh("bash /opt/vp/test.sh %s" % out)
        failed = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
        c = sh("timeout 280 bash %s/demo.sh" % demo, cwd="/repo")
    finally:
        sh("git checkout -- .", cwd="/repo")
        shutil.rmtree(demo)
    ok = a.returncode == 0 and ap.returncode == 0 and b.returncode == 0 and t.returncode == 0 and c.returncode not in (0, 124) and not re.search(r"[1-9][0-9]* failed", t.stdout)
    print(ident, "OK" if ok else "BAD", "clean=%d apply=%d build=%d tests=%d (%s) patched=%d" % (
        a.returncode, ap.returncode, b.returncode, t.returncode, failed, c.returncode))
    if not ok:
        print(a.stdout[-600:], ap.stdout[-300:], t.stdout[-800:] if t.returncode else "", c.stdout[-600:])
    return ok


def detect(ident, props=None, tier="quick"):
    d = os.path.join(VERIF, "seeded", ident)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git apply %s/patch.diff" % d, cwd="/repo")
    try:
        for p in props or [prop]:
            r = subprocess.run("bash check.sh %s %s" % (p, tier), shell=True, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_SHRINK="5"))
            print(ident, p, "exit", r.returncode, r.stdout.strip()[-300:].replace("\n", " | "))
    finally:
        sh("git checkout -- .", cwd="/repo")


if __name__ == "__main__":
    if sys.argv[1] == "detect":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for i in ids:
            detect(i)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for i in ids:
            confirm(i)

"""Confirm planted changes: python3 tools/plant.py TABLE.py [ids…]   (development tool; no check reads /verif/seeded)

TABLE.py holds BUGS: id -> dict(property, needs, breaks, edits [(file, old, new)], demo (python text)). Without a
table, the changes in /verif/seeded are checked again. Every change is made in a scratch copy of /repo, where its demonstration and the tests are run; those that are confirmed are written to
/verif/seeded/<id>, with what the checks of their property say about them in /tmp/scratch/plant/<id>.log.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import threading

OUT = "/verif/seeded"
LOCK = threading.Lock()
DEMO = """#!/bin/bash
# Run with the working directory in a checkout: exit 0 when the property holds, 1 when it does not.
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=4
for py in /opt/venv/bin/python python3; do [ -x "$(command -v $py)" ] && exec $py "$(cd "$(dirname "$0")" && pwd)/demo.py"; done
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = {**os.environ, "OMP_NUM_THREADS": "2", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", **(env or {})}
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr


def one(name, b, tests=True):
    root = "/tmp/scratch/plant/" + name
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    repo = root + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    out = root + "/out"
    os.makedirs(out)
    open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    rc, txt = sh(["bash", out + "/demo.sh"], repo)
    if rc:
        return name, "DEMO FAILS ON THE CLEAN TREE\n" + txt[-1500:]
    for f, old, new in b["edits"]:
        p = "%s/xrd_simulator/%s" % (repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return name, "EDIT OF %s MATCHES %d TIMES" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    _, diff = sh(["git", "diff"], repo)
    open(out + "/patch.diff", "w").write(diff)
    rc, txt = sh(["bash", out + "/demo.sh"], repo)
    if rc == 0:
        return name, "DEMO PASSES WITH THE CHANGE"
    demo_says = txt.strip().splitlines()[-1:]
    if tests:
        with LOCK:  # the tests need most of the memory
            rc, txt = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -15", repo, {"PYTHONPATH": repo}, 1500)
        if " passed" not in txt.splitlines()[-1] or "failed" in txt.splitlines()[-1] or "error" in txt.splitlines()[-1]:
            return name, "TESTS CATCH IT\n" + txt[-1200:]
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    dst = os.path.join(OUT, name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    return name, "KEPT (%s)" % demo_says


def detect(name, prop):
    """The check of the property on the scratch copy."""
    repo = "/tmp/scratch/plant/%s/repo" % name
    rc, txt = sh(["python3", "run.py", prop], "/verif", {"VERIF_REPO": repo, "VERIF_SEED": "1", "OMP_NUM_THREADS": "1"})
    open("/tmp/scratch/plant/%s.log" % name, "w").write(txt)
    lines = [x for x in txt.splitlines() if x.startswith("VIOLATION")]
    says = sorted({x.strip().split(":")[0] for x in txt.splitlines() if x.startswith("  ") and ":" in x})
    book = "/verif/tools/detections.json"
    d = json.load(open(book)) if os.path.exists(book) else {}
    d.setdefault(name, {})[prop] = says if rc == 1 and lines else "missed"
    json.dump(d, open(book, "w"), indent=1, sort_keys=True)
    return rc, lines[:1] or txt.splitlines()[-2:], [x for x in txt.splitlines() if x.startswith("  ")][:1]


def again(names):
    """The check of the property on every kept change."""
    for name in names or sorted(os.listdir(OUT)):
        meta = json.load(open(os.path.join(OUT, name, "meta.json")))
        repo = "/tmp/scratch/plant/%s/repo" % name
        shutil.rmtree(os.path.dirname(repo), ignore_errors=True)
        os.makedirs(os.path.dirname(repo))
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "apply", os.path.join(OUT, name, "patch.diff")], cwd=repo, check=True)
        print("%-28s %s %s" % (name, meta["property"], detect(name, meta["property"])), flush=True)
        shutil.rmtree(os.path.dirname(repo), ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) < 2 or not sys.argv[1].endswith(".py"):
        again(sys.argv[1:])
        sys.exit()
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    names = sys.argv[2:] or list(bugs)
    with cf.ThreadPoolExecutor(2) as ex:
        for name, msg in ex.map(lambda n: one(n, bugs[n]), names):
            print("%-28s %s" % (name, msg), flush=True)
    for name in names:
        if os.path.isdir(os.path.join(OUT, name)):
            print("%-28s %s %s" % (name, bugs[name]["property"], detect(name, bugs[name]["property"])), flush=True)
        shutil.rmtree("/tmp/scratch/plant/" + name, ignore_errors=True)

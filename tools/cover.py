"""Lines of the library that no check executes: /opt/venv/bin/python tools/cover.py [scale] [ids…]   (development tool)"""
import ast
import glob
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, HERE + "/.vendor", REPO]
sys.dont_write_bytecode = True
PKG = REPO + "/xrd_simulator/"
hit, by_prop = {}, {}
mon = sys.monitoring
mon.use_tool_id(1, "cover")


current = "import"


def line(code, number):
    if code.co_filename and code.co_filename.startswith(PKG):
        hit.setdefault(code.co_filename, set()).add(number)
        by_prop.setdefault("%s:%d" % (os.path.basename(code.co_filename), number), {})[current] = 1
    return mon.DISABLE


mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)

import torch  # noqa: E402
from vf import core  # noqa: E402

torch.set_num_threads(2)
scale = float(sys.argv[1]) if len(sys.argv) > 1 else 0.02
for p in sys.argv[2:] or ["C%02d" % i for i in range(1, 25)]:
    t = time.monotonic()
    current = p
    mon.restart_events()
    ctx = core.Ctx(tempfile.mkdtemp())
    for name, c in core.load_property(p).items():
        r = core.explore(c, max(10, int(c.quick * scale)), 5, ctx, set(), time.monotonic() + 60, 1, True)
        if r.failure:
            print(p, name, r.failure["message"])
    print(p, round(time.monotonic() - t), file=sys.stderr, flush=True)
json.dump({k: sorted(v) for k, v in by_prop.items()}, open("/tmp/scratch/lines.json", "w"))
for f in sorted(glob.glob(PKG + "*.py")):
    tree = ast.parse(open(f).read())
    src = open(f).read().splitlines()
    missing = []
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(getattr(fn.body[0], "value", None), ast.Constant) else fn.body
            for s in ast.walk(ast.Module(body, [])):
                if isinstance(s, ast.stmt) and s.lineno not in hit.get(f, ()) and not isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass)):
                    missing.append((fn.name, s.lineno))
    for name, n in missing:
        print("%s:%d %s: %s" % (os.path.basename(f), n, name, src[n - 1].strip()[:100]))

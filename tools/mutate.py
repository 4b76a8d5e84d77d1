"""Mutation test of the checks: python3 tools/mutate.py N [--seed K] [--workers 8] [--files a.py,b.py]   (development tool)

Draws N small changes of the library (operators, constants, indices, dropped statements, swapped arguments), gives each to
the checks whose cases execute the changed line (/tmp/scratch/lines.json of tools/cover.py), in scratch copies of the library
and of these checks, and lists those that no check notices in /tmp/scratch/mutants.txt, to be looked at by hand.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess

REPO, HERE, TMP = "/repo", "/verif", "/tmp/scratch/mut"
SCALE = dict(C11=0.12, C21=0.12, C19=0.06, C20=0.1)
ORDER = ["C05", "C06", "C24", "C13", "C04", "C02", "C03", "C10", "C08", "C01", "C07", "C12", "C15", "C17", "C18", "C16", "C22", "C23", "C14", "C09", "C20", "C21", "C19", "C11"]
SKIP = {"print_memory_report", "return_device_memory", "_tensor_name", "_get_proximity_intervals", "_get_candidate_spheres", "_print_progress", "_verbose_manager", "__enter__",
        "__exit__", "_set_xfab_logging", "configure_device", "_estimate_airy_kernel_memory", "return_device_memory"}
IGNORE = ("_verbose", "device=", "available_bytes", "target_bytes", "batch_size", "print", "max_airy_radius")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def mutants_of(tree):
    """(function, line, description, change) with change(node) applied to the same node of a copy."""
    out = []
    fn = None

    def visit(node, name, doc):
        for child in ast.iter_child_nodes(node):
            n = child.name if isinstance(child, (ast.FunctionDef, ast.ClassDef)) else name
            if isinstance(child, ast.FunctionDef) and child.name in SKIP or isinstance(child, ast.ClassDef) and child.name in SKIP:
                continue
            if child in (getattr(node, "annotation", None), getattr(node, "returns", None)):
                continue
            visit(child, n, doc)
        if name is None:
            return
        ln = getattr(node, "lineno", None)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            t = type(node.ops[0])
            if t in CMP:
                out.append((name, ln, "%s -> %s" % (t.__name__, CMP[t].__name__), node, ("cmp", CMP[t])))
            if t in FLIP:
                out.append((name, ln, "%s -> %s" % (t.__name__, FLIP[t].__name__), node, ("cmp", FLIP[t])))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if not (isinstance(node.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.left, "value", None), str)):
                out.append((name, ln, "%s -> %s" % (type(node.op).__name__, BIN[type(node.op)].__name__), node, ("bin", BIN[type(node.op)])))
                out.append((name, ln, "left operand only", node, ("left",)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((name, ln, "drop %s" % type(node.op).__name__, node, ("operand",)))
        elif isinstance(node, ast.BoolOp):
            out.append((name, ln, "and <-> or", node, ("bool",)))
            out.append((name, ln, "first condition only", node, ("first",)))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
            v = node.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1, -v] if isinstance(v, int) else [v * 1.01, v * 2, -v]):
                if w != v:
                    out.append((name, ln, "%r -> %r" % (v, w), node, ("const", w)))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2:
                out.append((name, ln, "swap the first two arguments", node, ("swap",)))
            if len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
                f = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
                if f in ("abs", "clone", "copy", "deepcopy", "unique", "floor", "ceil", "round", "sqrt", "square", "sin", "cos", "sort", "transpose", "conj", "ensure_torch", "ensure_numpy", "list", "rad2deg", "deg2rad"):
                    out.append((name, ln, "drop %s()" % f, node, ("arg",)))
            if isinstance(node.func, ast.Attribute) and not node.args and node.func.attr in ("clone", "copy", "abs", "T", "long", "flatten", "round", "floor"):
                out.append((name, ln, "drop .%s()" % node.func.attr, node, ("receiver",)))
            if isinstance(node.func, ast.Attribute):
                for a, b in (("min", "max"), ("any", "all"), ("floor", "ceil"), ("sin", "cos"), ("sum", "mean"), ("arccos", "arcsin"), ("zeros", "ones"), ("maximum", "minimum")):
                    for x, y in ((a, b), (b, a)):
                        if node.func.attr == x:
                            out.append((name, ln, "%s -> %s" % (x, y), node, ("attr", y)))
            for i, k in enumerate(node.keywords):
                if k.arg not in ("dtype", "verbose", "stacklevel"):
                    out.append((name, ln, "drop keyword %s" % k.arg, node, ("keyword", i)))
        elif isinstance(node, ast.Attribute) and node.attr == "T":
            out.append((name, ln, "drop .T", node, ("receiver_attr",)))
        elif isinstance(node, (ast.AugAssign,)):
            out.append((name, ln, "drop statement", node, ("pass",)))
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            out.append((name, ln, "drop statement", node, ("pass",)))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            out.append((name, ln, "drop statement", node, ("pass",)))
        elif isinstance(node, ast.If):
            out.append((name, ln, "always", node, ("test", True)))
            out.append((name, ln, "never", node, ("test", False)))
        elif isinstance(node, ast.IfExp):
            out.append((name, ln, "negate the condition", node, ("neg",)))

    visit(tree, fn, None)
    return out


class Change(ast.NodeTransformer):
    def __init__(self, target, what):
        self.target, self.what = target, what

    def visit(self, node):
        if node is not self.target:
            return super().generic_visit(node)
        w = self.what
        if w[0] == "cmp":
            node.ops = [w[1]()]
        elif w[0] == "bin":
            node.op = w[1]()
        elif w[0] == "left":
            return node.left
        elif w[0] == "operand":
            return node.operand
        elif w[0] == "bool":
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        elif w[0] == "first":
            return node.values[0]
        elif w[0] == "const":
            return ast.copy_location(ast.Constant(w[1]), node)
        elif w[0] == "swap":
            node.args[0], node.args[1] = node.args[1], node.args[0]
        elif w[0] == "arg":
            return node.args[0]
        elif w[0] == "receiver":
            return node.func.value
        elif w[0] == "receiver_attr":
            return node.value
        elif w[0] == "attr":
            node.func.attr = w[1]
        elif w[0] == "keyword":
            del node.keywords[w[1]]
        elif w[0] == "pass":
            return ast.copy_location(ast.Pass(), node)
        elif w[0] == "test":
            node.test = ast.Constant(w[1])
        elif w[0] == "neg":
            node.test = ast.UnaryOp(ast.Not(), node.test)
        return node


def run(job, pool, lines):
    i, f, name, ln, what, text = job
    slot = pool.get()
    try:
        repo, verif = "%s/r%d" % (TMP, slot), "%s/v%d" % (TMP, slot)
        path = "%s/xrd_simulator/%s" % (repo, f)
        keep = open(path).read()
        open(path, "w").write(text)
        props = lines.get("%s:%d" % (f, ln)) or []
        props = [p for p in ORDER if p in props or props == ["C01"]]  # lines run at import, such as defaults
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SHARDS="1", VERIF_SEED=str(100 + i), OMP_NUM_THREADS="1")
        found = None
        try:
            for p, factor in [(p, 1) for p in props] + [(p, 6) for p in props if p not in ("C11", "C21", "C20")]:
                r = subprocess.run(["python3", "run.py", p, "--scale", str(factor * SCALE.get(p, 0.05))], cwd=verif, env=env, capture_output=True, text=True, timeout=600)
                if r.returncode == 1:
                    found = p
                    break
                if r.returncode != 0:
                    found = "%s ended with %d" % (p, r.returncode)
                    break
        except subprocess.TimeoutExpired:
            found = "timeout"
        open(path, "w").write(keep)
        return job, props, found
    finally:
        pool.put(slot)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--files", default="")
    a = ap.parse_args()
    lines = json.load(open("/tmp/scratch/lines.json"))
    jobs = []
    for f in sorted(os.listdir(REPO + "/xrd_simulator")):
        if not f.endswith(".py") or f in ("__init__.py", "cuda.py") or a.files and f not in a.files.split(","):
            continue
        src = open("%s/xrd_simulator/%s" % (REPO, f)).read()
        tree = ast.parse(src)
        for k, (name, ln, what, node, change) in enumerate(mutants_of(tree)):
            if ("%s:%d" % (f, ln)) in lines and not any(w in src.splitlines()[ln - 1] for w in IGNORE):
                jobs.append((f, name, ln, what, k))
    random.Random(a.seed).shuffle(jobs)
    print(len(jobs), "mutants")
    todo = []
    for i, (f, name, ln, what, k) in enumerate(jobs[:a.n]):
        tree = ast.parse(open("%s/xrd_simulator/%s" % (REPO, f)).read())
        _, _, _, node, change = mutants_of(tree)[k]
        try:
            text = ast.unparse(ast.fix_missing_locations(Change(node, change).visit(tree)))
            compile(text, f, "exec")
        except Exception as e:
            print("skip", f, ln, what, e)
            continue
        todo.append((i, f, name, ln, what, text))
    shutil.rmtree(TMP, ignore_errors=True)
    os.makedirs(TMP)
    pool = queue.Queue()
    for s in range(a.workers):
        subprocess.run(["cp", "-a", HERE, "%s/v%d" % (TMP, s)], check=True)
        os.makedirs("%s/r%d" % (TMP, s))
        subprocess.run("cp -a %s/xrd_simulator %s/r%d/" % (REPO, TMP, s), shell=True, check=True)
        pool.put(s)
    out = open("/tmp/scratch/mutants.txt", "a")
    killed = 0
    with cf.ThreadPoolExecutor(a.workers) as ex:
        for n, (job, props, found) in enumerate(ex.map(lambda j: run(j, pool, lines), todo)):
            i, f, name, ln, what, _ = job
            killed += found is not None
            src = open("%s/xrd_simulator/%s" % (REPO, f)).read().splitlines()[ln - 1].strip()
            print("%s %s:%d %s [%s] %s  | %s" % ("SURVIVED" if found is None else "killed by " + str(found), f, ln, name, what, src[:90], ",".join(props) if found is None else ""), file=out, flush=True)
    print("%d of %d killed" % (killed, len(todo)), file=out, flush=True)
    shutil.rmtree(TMP)


if __name__ == "__main__":
    main()

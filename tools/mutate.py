"""Mutation testing of the checks: python3 tools/mutate.py OUT.jsonl [FILE...]   (files relative to src/infi/instruct)

Every mutant lives in a scratch copy.  Mutants that the repository's tests notice are of no interest; the others are run
against the checks of their side, the first one that reports is recorded, the rest are survivors to look at by hand."""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/infi/instruct"
REC = ["C01", "C04", "C09", "C02", "C03", "C06", "C11", "C07", "C08", "C05", "C10", "C13"]
BUF = ["C12", "C13", "C17", "C15", "C18", "C14", "C10", "C16", "C19"]
RUNS = {"C16": 15, "C08": 120, "C10": 50, "C07": 250}
RUNNER = """
import sys, os, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
root = sys.argv[1]
sys.path.insert(0, root + "/src")
import infi
infi.__path__ = [p for p in infi.__path__ if not p.endswith("src/infi")] + [root + "/src/infi"]
import infi.instruct
assert infi.instruct.__file__.startswith(root), infi.instruct.__file__
import pytest
sys.exit(pytest.main(["-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore", root + "/tests"]))
"""

CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}


def variants(node):
    """Replacements for one node: (description, new node)."""
    out = []

    def put(desc, **kw):
        n = copy.deepcopy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        out.append((desc, n))
    if isinstance(node, ast.Compare):
        for alt in CMP.get(type(node.ops[0]), ()):
            put("cmp", ops=[alt()] + node.ops[1:])
    elif isinstance(node, ast.BinOp):
        for alt in BIN.get(type(node.op), ()):
            if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant):
                continue
            put("bin", op=alt())
    elif isinstance(node, ast.BoolOp):
        put("bool", op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for v in node.values:
            out.append(("bool-part", copy.deepcopy(v)))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(("not", copy.deepcopy(node.operand)))
    elif isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            put("const", value=not node.value)
        elif isinstance(node.value, int):
            put("const+1", value=node.value + 1)
            if node.value > 0:
                put("const-1", value=node.value - 1)
    elif isinstance(node, (ast.If, ast.IfExp)):
        put("if-true", test=ast.Constant(True))
        put("if-false", test=ast.Constant(False))
    elif isinstance(node, ast.While):
        put("while-false", test=ast.Constant(False))
    elif isinstance(node, ast.Call):
        if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            out.append(("unwrap", copy.deepcopy(node.args[0])))
        if node.args and isinstance(node.args[0], ast.AST) and len(node.args) >= 2:
            put("drop-arg", args=node.args[:-1])
        if node.keywords:
            put("drop-kw", keywords=node.keywords[:-1])
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            out.append(("unwrap-method", copy.deepcopy(node.func.value)))
    elif isinstance(node, ast.Slice):
        if node.lower is not None:
            put("slice-lower", lower=None)
        if node.upper is not None:
            put("slice-upper", upper=None)
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete, ast.Break, ast.Continue)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append(("delete", ast.Pass()))
    elif isinstance(node, ast.Return) and node.value is not None:
        put("return-none", value=ast.Constant(None))
    elif isinstance(node, ast.ExceptHandler):
        if node.type is not None:
            out.append(("bare-except", ast.ExceptHandler(type=None, name=None, body=node.body)))
            put("except-never", type=ast.Tuple([], ast.Load()))
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:      # printing and declarations of names are not what is tested here
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__safe_repr__", "__str__", "_shallow_repr"):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []
    for i, n in enumerate(nodes):
        if id(n) in skip or isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        for k, (desc, _) in enumerate(variants(n)):
            out.append((i, k, desc, getattr(n, "lineno", 0)))
    return out


def render(path, i, k):
    tree = ast.parse(open(path).read())
    n = list(ast.walk(tree))[i]
    new = variants(n)[k][1]
    tree = Replace(n, new).visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), ast.unparse(n)[:100], ast.unparse(ast.fix_missing_locations(new))[:100] if not isinstance(new, ast.ExceptHandler) else "except"


def one(job):
    rel, i, k, desc, line = job
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        text, old, new = render(os.path.join(SRC, rel), i, k)
        shutil.copytree("/repo/src", work + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        shutil.copytree("/repo/tests", work + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(work, "src/infi/instruct", rel), "w").write(text)
        rec = {"file": rel, "line": line, "what": desc, "old": old, "new": new, "i": i, "k": k}
        run = os.path.join(work, "run.py")
        open(run, "w").write(RUNNER)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            r = subprocess.run(["/opt/venv-pypy/bin/python", run, work], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if r.returncode != 0:
                rec["result"] = "tests"
                return rec
        except subprocess.TimeoutExpired:
            rec["result"] = "tests"
            return rec
        env.update(VERIF_REPO=work, VERIF_WORKERS="1", VERIF_SHRINK="0", VERIF_SEED="1", VERIF_EVIDENCE=work, VERIF_REPLAYS=work)
        if rel.startswith("buffer/io_buffer"):
            checks = ["C19"] + BUF[:-1]
        elif rel.startswith("buffer/"):
            checks = BUF[:-1] + ["C19"]
        else:
            checks = REC
        for c in checks:
            env["VERIF_RUNS"] = str(RUNS.get(c, 500))
            try:
                r = subprocess.run(["bash", "check.sh", c, "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                rec["result"] = "timeout:" + c
                return rec
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["result"] = c
                return rec
            if r.returncode not in (0, 1):
                rec.setdefault("odd", []).append([c, r.returncode, r.stdout[-300:]])
        rec["result"] = "survived"
        return rec
    except Exception as e:
        return {"file": rel, "line": line, "what": desc, "result": "error", "error": repr(e)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    out = sys.argv[1]
    files = sys.argv[2:]
    if not files:
        for d, _, names in os.walk(SRC):
            for n in names:
                if n.endswith(".py"):
                    files.append(os.path.relpath(os.path.join(d, n), SRC))
        files.sort()
    jobs = []
    for f in files:
        if f in ("_compat.py", "buffer/compat.py", "utils/__init__.py", "__init__.py"):
            continue
        jobs += [(f,) + m for m in mutants(os.path.join(SRC, f))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r.get("i"), r.get("k")))
    jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
    import random
    random.Random(1).shuffle(jobs)
    print(len(jobs), "mutants")
    with multiprocessing.Pool(int(os.environ.get("MUT_WORKERS", "7"))) as pool, open(out, "a") as f:
        for r in pool.imap_unordered(one, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()

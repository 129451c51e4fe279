"""Mutation survey of the checks: sample small edits of a source file, drop those the repository's own
tests notice, and run the checks that own the file against the rest (on a copy, through REGAIN_REPO).

    python tools/mutate.py FILE N SEED CHECK[,CHECK...] [function,function...]
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ATTR = {"max": "min", "min": "max", "maximum": "minimum", "minimum": "maximum", "sum": "mean", "mean": "sum",
        "triu": "tril", "tril": "triu", "argmax": "argmin", "argmin": "argmax", "zeros_like": "ones_like",
        "ones": "zeros", "log": "log1p", "argsort": "sort"}


class Sites(ast.NodeVisitor):
    def __init__(self, only):
        self.out, self.stack, self.only = [], [], only

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_Raise(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        src = ast.unparse(n)
        if src.startswith(("print", "warnings", "warn(")):
            return
        self.add(n, "delete")
        self.generic_visit(n)

    def visit_If(self, n):
        if "verbose" in ast.unparse(n.test):
            return
        self.generic_visit(n)

    def add(self, n, kind):
        if self.stack and (not self.only or any(f in self.only for f in self.stack)):
            self.out.append((n, kind, ".".join(self.stack)))

    def generic_visit(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            self.add(n, "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            self.add(n, "flip")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "bin")
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            self.add(n, "cmp")
        elif isinstance(n, ast.BoolOp):
            self.add(n, "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(
                n.operand, ast.Constant):
            self.add(n, "unary")
        elif isinstance(n, ast.AugAssign):
            self.add(n, "aug")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ATTR:
                self.add(n, "attr")
            elif n.func.attr == "copy" and not n.args:
                self.add(n, "nocopy")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            self.add(n, "noT")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.add(n, "slice")
        super().generic_visit(n)


def mutate(n, kind, rnd):
    if kind == "const":
        old = n.value
        n.value = rnd.choice([old + 1, old * 2 if old else 1, old - 1]) if isinstance(old, int) else \
            rnd.choice([old * 2, old / 2, old * 1.1])
        return "%r -> %r" % (old, n.value)
    if kind == "flip":
        n.value = not n.value
        return "-> %r" % n.value
    if kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "attr":
        n.func.attr = ATTR[n.func.attr]
    elif kind == "slice":
        s = n.slice
        if s.lower is not None and rnd.random() < 0.5:
            s.lower = None
        elif s.upper is not None:
            s.upper = None
        elif s.step is not None:
            s.step = None
        else:
            s.lower = ast.Constant(1)
    return "-> " + ast.unparse(n)[:90]


class Replace(ast.NodeTransformer):
    def __init__(self, target, kind):
        self.t, self.k = target, kind

    def visit(self, n):
        if n is self.t:
            if self.k in ("delete", "aug"):
                return ast.copy_location(ast.Pass(), n)
            if self.k == "unary":
                return n.operand
            if self.k in ("nocopy",):
                return n.func.value
            if self.k == "noT":
                return n.value
        return self.generic_visit(n)


def main():
    f, N, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    only = set(sys.argv[5].split(",")) if len(sys.argv) > 5 else None
    rnd = random.Random(seed * 1000003 + hash(f) % 1 + len(f))
    tmp = tempfile.mkdtemp(prefix="mut-")
    repo = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", os.environ.get("REGAIN_REPO", "/repo"), repo])
    path = os.path.join(repo, f)
    src = open(path).read()
    env = dict(os.environ, REGAIN_REPO=repo, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1",
               REGMON_EVIDENCE=os.path.join(tmp, "ev"))
    try:
        n_sites = len(scan(ast.parse(src), only))
        order = list(range(n_sites))
        rnd.shuffle(order)
        done = 0
        for i in order:
            if done >= N:
                break
            tree = ast.parse(src)
            node, kind, where = scan(tree, only)[i]
            line = node.lineno
            before = ast.unparse(node)[:90]
            what = mutate(node, kind, rnd)
            new = ast.unparse(ast.fix_missing_locations(Replace(node, kind).visit(tree)))
            open(path, "w").write(new)
            t = subprocess.run([PY, "-m", "pytest", "regain", "-q", "-x", "-p", "no:cacheprovider"], cwd=repo, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            tag = "%s:%d %s [%s] %s %s" % (os.path.basename(f), line, where, kind, before, what)
            if t.returncode:
                print("test  ", tag, flush=True)
                continue
            done += 1
            verdict = "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run([PY, "-m", "regmon", c, "--tier", "quick"], cwd="/verif", env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    verdict = "TIMEOUT"
                    continue
                if r.returncode == 1:
                    verdict = "killed %s %s" % (c, next((x for x in r.stdout.splitlines() if "oracle=" in x),
                                                        "").strip()[:100])
                    break
                if r.returncode:
                    verdict = "rc%d %s" % (r.returncode, c)
            print(verdict.ljust(9), "|", tag, flush=True)
    finally:
        shutil.rmtree(tmp)


def scan(tree, only):
    v = Sites(only)
    v.visit(tree)
    return v.out


main()

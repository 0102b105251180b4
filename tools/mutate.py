#!/usr/bin/env python3
"""Development aid: mutate functions in a scratch copy and report what checks miss.

mutate.py FILE FUNC[,FUNC...] CHECK[,CHECK...]   (FILE relative to src/glimpse)
"""
import ast
import concurrent.futures
import copy
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.And: ast.Or, ast.Or: ast.And,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(fn):
    """Yield (description, apply) pairs; apply mutates a deep copy located by path."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            yield i, f"L{ln} binop {ast.unparse(n)}", lambda m: setattr(
                m, "op", SWAP[type(m.op)]())
        if isinstance(n, ast.BoolOp):
            yield i, f"L{ln} boolop {ast.unparse(n)}", lambda m: setattr(
                m, "op", SWAP[type(m.op)]())
        if isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            yield i, f"L{ln} aug {ast.unparse(n)}", lambda m: setattr(
                m, "op", SWAP[type(m.op)]())
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            yield i, f"L{ln} cmp {ast.unparse(n)}", lambda m: m.ops.__setitem__(
                0, SWAP[type(m.ops[0])]())
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, f"L{ln} const {n.value}", lambda m: setattr(
                m, "value", not m.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield i, f"L{ln} const {n.value}->+1", lambda m: setattr(
                m, "value", m.value + 1)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not,
                                                            ast.Invert)):
            yield i, f"L{ln} drop unary {ast.unparse(n)}", "unary"
        if isinstance(n, ast.If):
            yield i, f"L{ln} if-> always {ast.unparse(n.test)}", lambda m: setattr(
                m, "test", ast.Constant(True))
            yield i, f"L{ln} if-> never {ast.unparse(n.test)}", lambda m: setattr(
                m, "test", ast.Constant(False))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield i, f"L{ln} drop {ast.unparse(n)[:80]}", "drop"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == "copy" and not n.args:
            yield i, f"L{ln} drop .copy() {ast.unparse(n)[:60]}", "copy"
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            yield i, f"L{ln} swap args {ast.unparse(n)[:80]}", lambda m: \
                m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    yield i, f"L{ln} drop kw {n.keywords[k].arg} " \
                        f"{ast.unparse(n)[:60]}", lambda m, k=k: m.keywords.pop(k)


class Repl(ast.NodeTransformer):
    def __init__(self, target, how):
        self.t, self.how = target, how

    def visit(self, n):
        if n is self.t:
            if self.how == "drop":
                return ast.copy_location(ast.Pass(), n)
            if self.how == "unary":
                return n.operand
            if self.how == "copy":
                return n.func.value
        return self.generic_visit(n)


def find(tree, name):
    parts = name.split(".")
    body = tree.body
    for k, p in enumerate(parts):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                if k == len(parts) - 1 and isinstance(n, ast.FunctionDef) and any(
                        ast.unparse(d).endswith(".setter") for d in n.decorator_list) \
                        and not name.endswith("="):
                    continue
                body = n.body
                break
        else:
            raise SystemExit(f"not found: {name}")
    return n


def main():
    rel, funcs, checks = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")
    tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
    path = os.path.join("src", "glimpse", rel)
    src = open(os.path.join("/repo", path)).read()
    jobs = []
    for fname in funcs:
        tree = ast.parse(src)
        fn = find(tree, fname)
        base_nodes = list(ast.walk(fn))
        doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant) else None
        for i, desc, how in mutants(fn):
            if doc is not None and base_nodes[i] in (doc, doc.value):
                continue
            t2 = copy.deepcopy(tree)
            n2 = list(ast.walk(find(t2, fname)))[i]
            if callable(how):
                how(n2)
            else:
                t2 = Repl(n2, how).visit(t2)
            ast.fix_missing_locations(t2)
            jobs.append((fname, desc, ast.unparse(t2)))

    tmp = tempfile.mkdtemp(prefix="mut")

    def work(k):
        fname, desc, text = jobs[k]
        d = os.path.join(tmp, str(k))
        shutil.copytree("/repo/src", os.path.join(d, "src"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, path), "w") as fh:
            fh.write(text)
        env = dict(os.environ, GLINT_REPO=d, GLINT_EVID=os.path.join(d, "ev"))
        res = []
        for c in checks:
            r = subprocess.run(["python3-vt", os.path.join(VERIF, "run.py"),
                                "--property", c, "--tier", tier], env=env,
                               capture_output=True, text=True, cwd=VERIF)
            res.append(r.returncode)
            m = re.search(r"(\d+) undecided", r.stdout)
            if r.returncode == 0 and m and int(m.group(1)):
                res[-1] = f"{m.group(1)} undecided"
            if r.returncode == 1:
                break
        shutil.rmtree(d)
        return fname, desc, res

    killed = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MW", 5))) as ex:
        for fname, desc, res in ex.map(work, range(len(jobs))):
            if 1 in res:
                killed += 1
            else:
                print(f"  MISSED {fname} {desc} {res}", flush=True)
    shutil.rmtree(tmp)
    print(f"{killed} of {len(jobs)} detected")


main()

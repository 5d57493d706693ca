"""mutate.py OUT: single-site mutants of the sources which pass the existing tests (for the author; no check uses it)."""

import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
FILES = [
    "_unit.py", "_unit_system.py", "_unit_reference.py", "_udunits2_xml_parser.py", "_datetime.py", "__main__.py",
    "_grammar/__init__.py", "_expr/graph.py", "_expr/split.py", "_expr/sympy.py", "_expr/dimensionality.py",
    "_expr/substitute.py", "_expr/normaliser.py", "_expr/atoms.py", "_expr/expander.py",
]  # fmt: skip
SWAP = {
    ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
    ast.NotIn: ast.In, ast.Gt: ast.GtE, ast.Lt: ast.LtE, ast.And: ast.Or, ast.Or: ast.And,
}  # fmt: skip


def mutations(tree):
    """(line, description, mutated tree)"""
    nodes = list(ast.walk(tree))
    for i, node in enumerate(nodes):
        def variant(change):
            t = copy.deepcopy(tree)
            change(list(ast.walk(t))[i])
            return ast.unparse(ast.fix_missing_locations(t))

        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
            yield line, f"{ast.unparse(node)}: operator", variant(lambda n: setattr(n, "op", SWAP[type(n.op)]()))
            yield line, f"{ast.unparse(node)}: swapped", variant(
                lambda n: n.__dict__.update(left=n.right, right=n.left))
        elif isinstance(node, ast.Compare):
            yield line, f"{ast.unparse(node)}: comparison", variant(
                lambda n: n.ops.__setitem__(0, SWAP.get(type(n.ops[0]), ast.Eq)()))
        elif isinstance(node, ast.BoolOp):
            yield line, f"{ast.unparse(node)}: and/or", variant(lambda n: setattr(n, "op", SWAP[type(n.op)]()))
            for k in range(len(node.values)):
                if len(node.values) > 1:
                    yield line, f"{ast.unparse(node)}: without {k}", variant(
                        lambda n, k=k: n.values.pop(k) if len(n.values) > 2 else n.values.__setitem__(
                            slice(None), [n.values[1 - k]] * 2))
        elif isinstance(node, ast.UnaryOp):
            yield line, f"{ast.unparse(node)}: without", variant(
                lambda n: n.__dict__.update(op=ast.Not() if isinstance(n.op, ast.Not) else ast.UAdd(),
                                            operand=ast.UnaryOp(ast.Not(), n.operand)
                                            if isinstance(n.op, ast.Not) else n.operand))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, bool)) and not isinstance(node.value, str):
            v = node.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1]):
                yield line, f"{v} -> {w}", variant(lambda n, w=w: setattr(n, "value", w))
        elif isinstance(node, ast.Constant) and node.value is None:
            continue
        elif isinstance(node, ast.Constant) and isinstance(node.value, str) and 0 < len(node.value) < 25:
            yield line, f"{node.value!r} -> 'XX'", variant(lambda n: setattr(n, "value", "XX"))
            yield line, f"{node.value!r} -> ''", variant(lambda n: setattr(n, "value", ""))
        elif isinstance(node, ast.If):
            for w in (True, False):
                yield line, f"if {ast.unparse(node.test)}: {w}", variant(
                    lambda n, w=w: setattr(n, "test", ast.Constant(w)))
        elif isinstance(node, (ast.Break, ast.Continue)):
            yield line, "no " + ast.unparse(node), "REPLACE"
        elif isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords:
            yield line, f"{ast.unparse(node)}: arguments swapped", variant(lambda n: n.args.reverse())
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            yield line, f"{ast.unparse(node)}: not called", variant(
                lambda n: n.__dict__.update(func=ast.Name("_same"), args=[n.func.value]))
        for name in ("body", "orelse", "finalbody"):
            stmts = getattr(node, name, None)
            if isinstance(stmts, list):
                for k, s in enumerate(stmts):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue,
                                      ast.Delete, ast.Assert)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Assert):
                            continue
                        yield s.lineno, f"without {ast.unparse(s)[:80]}", variant(
                            lambda n, k=k, name=name: getattr(n, name).__setitem__(k, ast.Pass()))
                    if isinstance(s, ast.Return) and s.value is not None:
                        yield s.lineno, f"{ast.unparse(s)[:80]}: None", variant(
                            lambda n, k=k, name=name: setattr(getattr(n, name)[k], "value", ast.Constant(None)))


def main(out):
    todo = []
    for f in FILES:
        src = open(f"/repo/pyudunits2/{f}").read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, what, text in mutations(ast.parse(src)):
            if text == "REPLACE":
                continue
            if "_same(" in text:
                head, _, tail = text.partition("from __future__ import annotations\n")
                text = (head + _ + "\n_same = lambda x: x\n" + tail) if _ else "_same = lambda x: x\n" + text
            if text not in seen:
                seen.add(text)
                todo.append((f, line, what, text))
    print(len(todo), "mutants", flush=True)

    def trial(job):
        k, (f, line, what, text) = job
        d = f"/tmp/mut/w{k % 10000}"
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        try:
            open(f"{d}/pyudunits2/{f}", "w").write(text)
            try:
                p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, text=True,
                                   capture_output=True, timeout=120, env={**os.environ, "PYTHONPATH": d})
            except subprocess.TimeoutExpired:
                return None
            if "373 passed" in p.stdout and " failed" not in p.stdout:
                return {"id": k, "file": f, "line": line, "what": what, "text": text}
        finally:
            shutil.rmtree(d)
        return None

    with ThreadPoolExecutor(8) as pool:
        alive = [r for r in pool.map(trial, enumerate(todo)) if r]
    json.dump(alive, open(out, "w"))
    print(len(alive), "pass the tests")


if __name__ == "__main__":
    main(sys.argv[1])

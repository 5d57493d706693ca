"""C22: collecting the terms of an expression keeps its value."""

import json
import random
import subprocess
import sys
from fractions import Fraction

from vlib import env, gen as G, model as M
from vlib.harness import Enum, Prop, Violation
from checks.c03 import Abstract
from checks.c01 import small

PROPERTY = "C22"
ASSUMPTIONS = [
    "products, quotients and powers of names and numbers, with at most one origin outside them all; "
    "the Expander refuses logarithms",
    "numbers with a point are collected in floating point: compared to a relative 1e-9",
]
IDS = ["m", "M", "s", "kg", "S", "a", "b", "A", "foo", "K",
       # Long names, which begin alike or end alike
       "technical_atmosphere_b", "technical_atmosphere_c", "technical_atmosphere", "b_technical_atmosphere",
       "c_technical_atmosphere", "µm", "µs", "a_", "_a"]  # fmt: skip


def case(src):
    if src.chance(40):
        # Few names, so that terms meet and cancel.
        first = src.pick(len(IDS) - 2)
        ids = IDS[first: first + 1 + src.pick(3)]
    else:
        ids = IDS
    ast = G.gen_ast(src, ids=ids, leaves=8, shifts=False, logs=False, exp=small)
    if src.chance(50):
        ast = integers(src, ast)
    if src.chance(20):
        ast = ["shift", ast, G.num_text(src)]
    if not G.date_safe(ast):
        ast = integers(src, ast)
    return G.spell(src, ast)


def long_case(src):
    """Many terms of few names."""
    first = src.pick(len(IDS) - 2)
    ids = IDS[first: first + 1 + src.pick(len(IDS))]
    node = None
    for _ in range(15 + src.pick(60)):
        x = ["id", src.of(ids)] if src.chance(80) else ["num", str(1 + src.pick(12))]
        if src.chance(30):
            x = ["pow", x, src.of([2, -1, -2, 3, 0])]
        if node is not None and src.chance(15):
            x = ["mul" if src.pick(2) else "div", x, ["id", src.of(ids)]]
        node = x if node is None else [src.of(["mul", "mul", "div"]), node, x]
    return G.spell(src, node)


def integers(src, ast):
    if ast[0] == "num":
        return ["num", str(1 + src.pick(12))]
    if ast[0] == "shift":
        return integers(src, ast[1])
    return [integers(src, c) if isinstance(c, list) else c for c in ast]


def inexact(ast):
    return any(n[0] == "num" and not M.INT.fullmatch(n[1]) for n in M.walk(ast))


def as_key(ast):
    try:
        m = Abstract().meaning(ast)
    except (M.ModelError, ZeroDivisionError):
        return None
    origin = None
    if isinstance(m, M.Off):
        origin, m = m.origin, m.unit
    return m.scale, m.dims, origin


def close(a, b):
    if a == b:
        return True
    return abs(a - b) <= Fraction(1, 10**9) * max(abs(a), abs(b))


def collected(c, st):
    from pyudunits2._expr.expander import Expander
    from pyudunits2._grammar import parse

    want = as_key(c["ast"])
    if want is None:
        st.label("division by zero")
        return
    if want[0] and not Fraction(10) ** -250 < abs(want[0]) < Fraction(10) ** 250:
        st.label("out of range")
        return
    st.nontrivial(M.size(c["ast"]) >= 4)
    graph = parse(c["text"])
    before = str(graph)
    result = Expander().visit(graph)
    text = str(result)
    if str(graph) != before:
        raise Violation(f"collecting {c['text']!r} changed it to {str(graph)!r}")
    again = str(Expander().visit(parse(c["text"])))
    if again != text:
        raise Violation(f"{c['text']!r} is collected as {text!r}, and then as {again!r}")
    try:
        ast = M.parse(text)
    except M.ModelError as err:
        raise Violation(f"{c['text']!r} is collected as {text!r}: {err}")
    got = as_key(ast)
    if got is None or got[1:] != want[1:] or not (
        close(got[0], want[0]) if inexact(c["ast"]) else got[0] == want[0]
    ):
        raise Violation(f"{c['text']!r} is collected as {text!r}: {got}, not {want}")
    # Each name once, with its total order
    names = [n[1] for n in M.walk(ast) if n[0] == "id"]
    if sorted(names) != sorted(want[1]):
        raise Violation(f"{c['text']!r} is collected as {text!r}: terms of {sorted(want[1])}")


PROGRAM = """
import json, sys
sys.path.insert(0, sys.argv[1])
from pyudunits2._expr.expander import Expander
from pyudunits2._grammar import parse
print(json.dumps([str(Expander().visit(parse(t))) for t in json.load(sys.stdin)]))
"""


def optimised_cases(tier, seed):
    out = []
    for i in range(8 if tier == "quick" else 64):
        rnd = random.Random(seed * 1000 + i)
        cases = [case(G.Src(rnd.randbytes(112))) for _ in range(25)]
        out.append([c["text"] for c in cases if not any(n[0] == "num" for n in M.walk(c["ast"]))])
    return out


def optimised(texts, st):
    """The same with assertions disabled."""
    from pyudunits2._expr.expander import Expander
    from pyudunits2._grammar import parse

    done = subprocess.run(
        [sys.executable, "-O", "-c", PROGRAM, env.REPO],
        input=json.dumps(texts), capture_output=True, text=True, timeout=300,
    )  # fmt: skip
    if done.returncode:
        raise Violation(f"with assertions disabled: {done.stderr[-500:]}")
    for text, got in zip(texts, json.loads(done.stdout)):
        want = str(Expander().visit(parse(text)))
        if got != want:
            raise Violation(f"with assertions disabled {text!r} is collected as {got!r}, not {want!r}")
    st.nontrivial()


SUBCHECKS = [
    Prop("collected", lambda: G.from_bytes(case, 112), collected, 3500, 200000,
         "products, quotients and powers; non-trivial: four nodes or more"),
    Prop("long", lambda: G.from_bytes(long_case, 400), collected, 300, 10000,
         "15 to 75 terms of few names"),
    Enum("optimised", optimised_cases, optimised,
         "lists of expressions collected in a process without assertions, and in this one"),
]  # fmt: skip


def setup():
    pass

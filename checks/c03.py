"""C03: the text of a unit denotes the unit."""

import re

from vlib import gen as G, model as M, pools as P, sut
from vlib.harness import Enum, Prop, Violation
from checks.c01 import _rename, number_case, small
from checks.c18 import date_text

PROPERTY = "C03"
ASSUMPTIONS = ["the reference parser and arithmetic of vlib.model", "a negative zero is zero"]


def unsigned_zero(text):
    return re.sub(r"(?<![\w.])-0(?![\d.eE])", "0", text)


def canonical_case(src):
    ast = G.gen_ast(src)
    if not G.date_safe(ast):
        ast = _rename(ast)
    return G.spell(src, ast)


def long_case(src):
    return G.spell(src, P.long_product(src, 20, 80))


def canonical(case, st):
    """normalize is idempotent, and keeps the meaning of the tree."""
    from pyudunits2._grammar import normalize

    ast = case["ast"]
    st.nontrivial(M.size(ast) >= 4)
    once = normalize(case["text"])
    try:
        twice = normalize(once)
    except SyntaxError as err:
        raise Violation(f"{case['text']!r} has the text {once!r}, which is refused ({err})")
    if unsigned_zero(once) != unsigned_zero(twice):
        raise Violation(f"{case['text']!r} has the text {once!r}, re-read as {twice!r}")
    # Regrouping is allowed only where it makes no difference: compare with
    # the tree which was spelled (identifiers as independent basis units).
    try:
        want = abstract(ast)
        got = abstract(M.parse(once))
    except M.ModelError:
        return
    st.label("compared as a value")
    if want != got:
        raise Violation(f"{case['text']!r} has the text {once!r}: {want} became {got}")


class Abstract(M.Registry):
    def named(self, name):
        return M.Lin(M.Fraction(1), {name: 1})


def abstract(ast):
    if any(n[0] == "pow" and abs(n[2]) > 60 for n in M.walk(ast)):
        raise M.ModelError("large exponent")
    return Abstract().meaning(ast).key()


def number(case, st):
    """However large, small or long a number, its text is that number."""
    from pyudunits2._grammar import normalize, parse

    text = case["in"].format(case["number"])
    st.nontrivial(len(case["number"]) > 4)
    shown = normalize(text)
    try:
        a, b = parse(text), parse(shown)
    except SyntaxError as err:
        raise Violation(f"{text!r} has the text {shown!r}, which is refused ({err})")
    if values(a) != values(b):
        raise Violation(f"{text!r} has the text {shown!r}, with the numbers {values(b)}, not {values(a)}")


def values(node):
    from pyudunits2._expr import graph

    if isinstance(node, graph.Number):
        return [node.content]
    if isinstance(node, graph.Terminal):
        return [str(node)]
    return [type(node).__name__, *(values(c) for c in node.children())]


def unit_case(src):
    ids = [P.name(src) for _ in range(3)]
    if src.chance(30):
        ids.append(src.of(P.names("off")))
    ast = G.gen_ast(src, ids=ids, leaves=4, logs=False, exp=small)
    ast = no_time_shift(ast)
    if src.chance(25):
        ast = ["log", src.of(G.LOGS), ast]
        for _ in range(src.pick(3)):
            k = src.pick(4)
            by = ["num", G.num_text(src)] if src.pick(2) else ["div", ["id", ids[0]], ["id", ids[0]]]
            if k == 0:
                ast = ["mul", by, ast]
            elif k == 1:
                ast = ["mul", ast, ["num", G.num_text(src)]]
            elif k == 2:
                ast = ["shift", ast, G.num_text(src)]
            else:
                ast = ["log", src.of(G.LOGS), ast]
        ast = no_time_shift(ast)
    if src.chance(1):
        return {"ast": ["num", "1"], "text": src.of(["", " ", "   "])}
    return G.spell(src, ast)


def regroups(ast):
    """Whether it makes no difference that 'a·(b·c)' is written 'a·b·c'. It
    does where a is a logarithm and b has a dimension (a known finding)."""
    db = M.database()

    def log(n):
        if n[0] == "id":
            return db.named(n[1]).linear() is None
        return n[0] == "log" or any(log(c) for c in n[1:] if isinstance(c, list))

    return not any(n[0] == "mul" and n[2][0] in ("mul", "div") and log(n[1]) for n in M.walk(ast))


REGROUPED = ["lg(re m) (m/m)", "lg(re m) (m m-1)", "lg(re m) (Hz s)", "Bm (s/s)", "2 lg(re K) (m/m)"]


def regrouped(text, st):
    u = sut.unit(text)
    v = sut.unit(str(u))
    st.nontrivial()
    if sut.dims(u) != sut.dims(v):
        raise Violation(f"{text!r} has the text {str(u)!r}, which has another dimensionality")


def no_time_shift(ast):
    db = M.database()
    out = [no_time_shift(c) if isinstance(c, list) else c for c in ast]
    if out[0] == "shift" and db.dims(out[1]) == {"second": 1}:
        return out[1]
    return out


def unit(case, st):
    db = M.database()
    u = sut.unit(case["text"])
    text = str(u)
    st.nontrivial(M.size(case["ast"]) >= 3)
    try:
        v = sut.unit(text)
    except Exception as err:
        raise Violation(f"str({case['text']!r}) is {text!r}, which is refused: {err!r}")
    if unsigned_zero(str(v)) != unsigned_zero(text):
        raise Violation(f"{case['text']!r} -> {text!r} -> {str(v)!r}")
    try:
        want, got = db.meaning(case["ast"]), db.meaning(M.parse(text))
    except M.ModelError:
        return
    if want.key() != got.key():
        raise Violation(f"str({case['text']!r}) is {text!r}: {want.key()} became {got.key()}")
    if regroups(case["ast"]) and (not (u == v) or u != v):
        raise Violation(f"{case['text']!r} != unit of its own text {text!r}")
    if sut.dims(u) != sut.dims(v):
        raise Violation(f"{case['text']!r} and {text!r} differ in dimensionality")


def date_case(src):
    pool = P.by_dims()[(("second", 1),)]
    ast = ["id", src.of(pool)]
    if src.chance(30):
        ast = ["mul", ["num", G.num_text(src)], ast]
    if src.chance(15):
        n = P.name(src)
        ast = ["mul", ast, ["div", ["id", n], ["id", n]]]
    text = G.spell(src, ast)["text"].strip()
    op = src.of([" since ", " @ ", " @", " from ", " after ", " ref "])
    return {"ast": ast, "text": text + op + date_text(src)}


def date(case, st):
    from pyudunits2 import DateUnit

    u = sut.unit(case["text"])
    st.nontrivial()
    if not isinstance(u, DateUnit):
        raise Violation(f"{case['text']!r} is not a date unit")
    text = str(u)
    try:
        v = sut.unit(text)
    except Exception as err:
        raise Violation(f"str({case['text']!r}) is {text!r}, which is refused: {err!r}")
    if not isinstance(v, DateUnit):
        raise Violation(f"{case['text']!r} -> {text!r}, not a date unit")
    if str(v) != text:
        raise Violation(f"{case['text']!r} -> {text!r} -> {str(v)!r}")
    if str(v.reference_date) != str(u.reference_date) or str(v.unit) != str(u.unit):
        raise Violation(f"{case['text']!r} -> {text!r} differs: {v.unit}, {v.reference_date}")


SUBCHECKS = [
    Prop("canonical", lambda: G.from_bytes(canonical_case, 128), canonical, 3000, 200000,
         "spellings of generated trees; non-trivial: four nodes or more"),
    Prop("long", lambda: G.from_bytes(long_case, 400), canonical, 150, 8000,
         "products and quotients of 20 to 80 factors"),
    Prop("number", lambda: G.from_bytes(number_case, 110), number, 1500, 100000,
         "a number of any length and magnitude in an expression; non-trivial: five characters or more"),
    Prop("unit", lambda: G.from_bytes(unit_case, 112), unit, 2400, 100000,
         "units of the database; non-trivial: three nodes or more"),
    Enum("regrouped", lambda tier, seed: REGROUPED, regrouped,
         "a logarithm times a product in parentheses"),
    Prop("date", lambda: G.from_bytes(date_case, 64), date, 2400, 100000,
         "time units since generated dates"),
]  # fmt: skip


def setup():
    sut.system()

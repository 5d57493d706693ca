"""C11: conversion between multiples of the same basis units."""

from fractions import Fraction

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Enum, Prop, Violation

PROPERTY = "C11"
ASSUMPTIONS = [
    "exact rational arithmetic over a snapshot of the UDUNITS-2 database is the "
    "authority where the UDUNITS-2 C library agrees with it to 1e-6",
]
REL = 2e-13


def direct_case(src):
    a = P.product(src, most=4)
    b = P.of_dimensionality(src, M.database().dims(a))
    if src.chance(12):
        b = ["mul", b, ["pow", P.product(src, most=2), 0]]
    return [a, b, [P.value(src), P.value(src)]]


def named_case(src):
    key = src.of(P.classes())
    return [
        ["id", P.of_dims(src, key)],
        ["id", P.of_dims(src, key)],
        [P.value(src), P.value(src)],
    ]


def same_case(src):
    """The same product spelled with other names, powers and groupings."""
    a = P.product(src, most=3)
    return [a, respell(src, a), [P.value(src)]]


def respell(src, ast):
    db = M.database()
    op = ast[0]
    if op == "id":
        key = P.dims_key(db.real_dims(db.named(ast[1]).dims))
        return ["id", P.of_dims(src, key)] if key in P.by_dims() else ast
    if op == "mul":
        a, b = respell(src, ast[1]), respell(src, ast[2])
        return ["mul", b, a] if src.pick(2) else ["mul", a, b]
    if op == "div":
        a, b = respell(src, ast[1]), respell(src, ast[2])
        return ["mul", ["pow", b, -1], a] if src.pick(2) else ["div", a, b]
    if op == "pow":
        n = ast[2]
        base = respell(src, ast[1])
        if n == 2 and src.pick(2):
            return ["mul", base, base]
        if n < 0 and src.pick(2):
            return ["div", ["num", "1"], ["pow", base, -n]]
        return ["pow", base, n]
    return ast


def long_case(src):
    """Many factors, with a scale that stays in range; most of them appear on both sides."""
    from_, to = [], []
    for _ in range(5 + src.pick(10)):
        key = src.of(P.classes())
        n = src.of([1, 1, -1, 2, -2])
        from_.append((["id", P.of_dims(src, key)], n))
        to.append((["id", P.of_dims(src, key)], n))
    return [P.combine(src, from_), P.combine(src, to), [P.value(src)]]


def direct(case, st):
    from pyudunits2 import Converter

    a_ast, b_ast, xs = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    ta, tb = G.plain_text(a_ast), G.plain_text(b_ast)
    if not (P.in_range(a, 120) and P.in_range(b, 120)):
        st.label("out of the range of a double")
        return
    if db.relation(a, b) != "direct":
        return
    st.label("radian or steradian on one side", a.dims != b.dims)
    st.nontrivial(a.scale != b.scale and ta != tb)
    conv = Converter(sut.unit(ta), sut.unit(tb))
    for x in xs:
        y = O.expected(a_ast, b_ast, a, b, x, st)
        if y is None:
            continue
        got = sut.number(conv.convert(x))
        if not sut.same(got, y, REL):
            raise Violation(f"{x!r} {ta!r} in {tb!r} is {y!r}, not {got!r}")


def cases(tier, seed):
    """Every name of the database to and from the basis units."""
    return [n for n in P.names("lin")]


def basis(name, st):
    from pyudunits2 import Converter

    db = M.database()
    a = db.named(name)
    dims = db.real_dims(a.dims)
    b_ast = P.combine(G.Src(b""), [(["id", k], o) for k, o in sorted(dims.items())])
    b = db.meaning(b_ast)
    u, v = sut.unit(name), sut.unit(G.plain_text(b_ast))
    st.nontrivial(a.scale != 1)
    for x in (1.0, -2.5):
        there = O.expected(["id", name], b_ast, a, b, x, st)
        back = O.expected(b_ast, ["id", name], b, a, x, st)
        for conv, want in ((Converter(u, v), there), (Converter(v, u), back)):
            if want is not None:
                got = sut.number(conv.convert(x))
                if not sut.same(got, want, REL):
                    raise Violation(
                        f"{x!r}: {name!r} and {G.plain_text(b_ast)!r}: "
                        f"{want!r}, not {got!r}"
                    )


SUBCHECKS = [
    Enum("basis", cases, basis,
         "every name which is a plain multiple, to the basis units and back"),
    Prop("direct", lambda: G.from_bytes(direct_case, 128), direct, 2600, 120000,
         "products of powers, and another product of the same dimensionality; "
         "non-trivial: different texts and sizes"),
    Prop("named", lambda: G.from_bytes(named_case, 48), direct, 1600, 60000,
         "two (prefixed) names of one dimensionality"),
    Prop("respelled", lambda: G.from_bytes(same_case, 96), direct, 1200, 60000,
         "a product, and a rearrangement of it with other names"),
    Prop("long", lambda: G.from_bytes(long_case, 256), direct, 200, 10000,
         "products of 5 to 14 factors on both sides"),
]  # fmt: skip


def setup():
    sut.system()

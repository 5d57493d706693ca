"""C14: units of inverse dimensionality convert through the reciprocal."""

import math
import warnings

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Enum, Prop, Violation
from checks.c09 import no_time_shift
from checks.c12 import origin

PROPERTY = "C14"
ASSUMPTIONS = [
    "exact rational arithmetic over a snapshot of the UDUNITS-2 database is the "
    "authority where the UDUNITS-2 C library agrees with it to 1e-6",
]
REL = 2e-13


def value(src):
    x = P.value(src)
    return x if x else 4.0


def inverse_case(src):
    a = P.product(src, most=3)
    dims = M.database().dims(a)
    b = P.of_dimensionality(src, {k: -v for k, v in dims.items()})
    k = src.pick(8)
    if k in (4, 6):
        a = no_time_shift(["shift", a, origin(src)])
    if k in (5, 6):
        b = no_time_shift(["shift", b, origin(src)])
    return [a, b, [value(src), value(src)]]


def named_case(src):
    """Hz and s, ohm and siemens, diopter and m, and what follows from them."""
    pairs = [
        ("Hz", "s"), ("siemens", "ohm"), ("m^-1", "m"), ("K", "K^-1"), ("degC", "K^-1"),
        ("becquerel", "hour"), ("s/m", "km/h"), ("m/s", "min/mile"), ("kg/m3", "m3/kg"),
        ("mile/gallon", "L/(100 km)"), ("kelvin", "1/degF"), ("F", "1/F"), ("Pa", "m2/N"),
    ]  # fmt: skip
    a, b = src.of(pairs)
    a, b = M.parse(a), M.parse(b)
    for i in range(2):
        if src.chance(40):
            a = ["mul", ["num", P.factor(src)], a]
        a, b = b, a
    if src.pick(2):
        a, b = b, a
    return [a, b, [value(src), value(src)]]


def inverse(case, st):
    from pyudunits2 import Converter

    a_ast, b_ast, xs = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    if not (P.in_range(a, 120) and P.in_range(b, 120)):
        st.label("out of the range of a double")
        return
    rel = db.relation(a, b)
    st.label(f"{rel}: {a.kind} to {b.kind}")
    if rel is None:
        return
    st.nontrivial(rel == "reciprocal")
    ta, tb = G.plain_text(a_ast), G.plain_text(b_ast)
    conv = Converter(sut.unit(ta), sut.unit(tb))
    for x in xs:
        y = O.expected(a_ast, b_ast, a, b, x, st)
        if y is None:
            continue
        lo, hi = (O.model_value(a, b, x * (1 + s)) for s in (-2e-13, 2e-13))
        if lo is None or hi is None:
            continue
        got = sut.number(conv.convert(x))
        tol = REL * max(abs(y), O.magnitude(b)) + 2 * abs(hi - lo)
        if math.isnan(got) or math.isinf(got) or abs(got - y) > tol:
            raise Violation(f"{x!r} {ta!r} in {tb!r} is {y!r}, not {got!r}")


def zero_case(src):
    a = P.product(src, most=3)
    dims = M.database().dims(a)
    b = P.of_dimensionality(src, {k: -v for k, v in dims.items()})
    return [a, b]


def zero(case, st):
    """Nothing finite is the reciprocal of zero."""
    from pyudunits2 import Converter

    a_ast, b_ast = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    if not (P.in_range(a, 120) and P.in_range(b, 120)):
        return
    if db.relation(a, b) != "reciprocal":
        return
    st.nontrivial()
    conv = Converter(sut.unit(G.plain_text(a_ast)), sut.unit(G.plain_text(b_ast)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = sut.number(conv.convert(0.0))
        except ArithmeticError:
            return
    if math.isfinite(got):
        raise Violation(
            f"0 {G.plain_text(a_ast)!r} in {G.plain_text(b_ast)!r} is {got!r}"
        )


KNOWN = [
    ["Hz", "s", 4.0, 0.25],
    ["s", "kHz", 0.001, 1.0],
    ["ohm", "mS", 500.0, 2.0],
    ["m", "cm-1", 2.0, 0.005],
    ["km/h", "min/km", 12.0, 5.0],
    ["(m2)^-3*m", "m5", 10.0, 0.1],
    ["K @ 273.15", "1/K", 26.85, 1 / 300],
]


def known(case, st):
    from pyudunits2 import Converter

    a, b, x, y = case
    st.nontrivial()
    got = sut.number(Converter(sut.unit(a), sut.unit(b)).convert(x))
    if not sut.same(got, y, 1e-8):
        raise Violation(f"{x} {a!r} in {b!r} is {y}, not {got}")


SUBCHECKS = [
    Enum("known", lambda tier, seed: KNOWN, known, "conversions with well-known results"),
    Prop("inverse", lambda: G.from_bytes(inverse_case, 112), inverse, 2600, 120000,
         "a product and another one of the inverse dimensionality, either or both perhaps with "
         "an origin; non-trivial: the conversion is reciprocal"),
    Prop("named", lambda: G.from_bytes(named_case, 24), inverse, 1200, 40000,
         "well-known inverse units, scaled"),
    Prop("zero", lambda: G.from_bytes(zero_case, 96), zero, 500, 20000,
         "the reciprocal of zero"),
]  # fmt: skip


def setup():
    sut.system()

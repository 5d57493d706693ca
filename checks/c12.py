"""C12: units with an origin (temperatures, gauge pressures)."""

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Enum, Prop, Violation
from checks.c09 import no_time_shift

PROPERTY = "C12"
ASSUMPTIONS = [
    "exact rational arithmetic over a snapshot of the UDUNITS-2 database is the "
    "authority where the UDUNITS-2 C library agrees with it to 1e-6",
]
REL = 2e-13

ORIGINS = ["273.15", "-273.15", "459.67", "100", "-1", "0", "32", "1e3", "0.5",
           "1013.25", "14.696", "2.5e-3", "-40", "300"]  # fmt: skip


def origin(src):
    return str(src.pick(2000) - 1000) if src.chance(30) else src.of(ORIGINS)


def with_origin(src, ast):
    """Give a multiple an origin, in one of several ways."""
    k = src.pick(6)
    if k <= 2:
        ast = ["shift", ast, origin(src)]
    elif k == 3:  # the origin moved twice
        ast = ["shift", ["shift", ast, origin(src)], origin(src)]
    elif k == 4:  # an origin which is lost, as it is not the last operation
        f = ["num", P.factor(src)]
        ast = ["shift", ast, origin(src)]
        ast = src.of([["mul", ast, f], ["mul", f, ast], ["div", ast, f]])
        if src.pick(2):
            ast = ["shift", ast, origin(src)]
    if src.chance(10):
        ast = ["pow", ast, 1]
        if src.pick(2):
            ast = ["shift", ast, origin(src)]
    return no_time_shift(ast)


def temperature(src):
    k = src.pick(4)
    if k == 0:
        return ["id", src.of(P.names("off"))]
    if k == 1:
        return with_origin(src, ["id", src.of(P.names("off"))])
    t = ["id", P.of_dims(src, (("kelvin", 1),))]
    if src.pick(2):
        f = ["num", P.factor(src)]
        t = src.of([["mul", f, t], ["div", t, f]])
    return with_origin(src, t)


def temperature_case(src):
    return [temperature(src), temperature(src), [P.value(src), P.value(src)]]


def other_case(src):
    a = P.product(src, most=2)
    b = P.of_dimensionality(src, M.database().dims(a))
    return [with_origin(src, a), with_origin(src, b), [P.value(src), P.value(src)]]


def within(src):
    """A product in which a unit with an origin is a factor."""
    parts = [(["id", src.of(P.names("off"))] if src.pick(2) else temperature(src),
              src.of([1, -1, 2, 1, -2]))]  # fmt: skip
    for _ in range(src.pick(3)):
        parts.append((["id", P.name(src)], src.of([1, -1, 2])))
    return P.combine(src, parts)


def within_case(src):
    """W/m2/degC and the like: the origin has no part in it."""
    a = within(src)
    dims = M.database().dims(a)
    if src.pick(2):
        b = P.of_dimensionality(src, dims)
    else:
        kelvins = dims.get("kelvin", 0) or 1
        rest = dict(dims)
        rest.pop("kelvin", None)
        b = P.combine(
            src,
            [(["id", src.of(P.names("off"))], kelvins), (P.of_dimensionality(src, rest), 1)],
        )
    if src.chance(20):
        a = no_time_shift(["shift", a, origin(src)])
    return [a, b, [P.value(src)]]


def offset(case, st):
    from pyudunits2 import Converter

    a_ast, b_ast, xs = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    if not (P.in_range(a, 100) and P.in_range(b, 100)):
        st.label("out of the range of a double")
        return
    if db.relation(a, b) != "direct":
        return
    ta, tb = G.plain_text(a_ast), G.plain_text(b_ast)
    shifts = any(n[0] == "shift" for n in (*M.walk(a_ast), *M.walk(b_ast)))
    st.nontrivial(a.kind == "off" or b.kind == "off" or shifts)
    st.label(f"{a.kind} to {b.kind}")
    conv = Converter(sut.unit(ta), sut.unit(tb))
    for x in xs:
        y = O.expected(a_ast, b_ast, a, b, x, st)
        if y is not None:
            O.compare(conv.convert(x), a_ast, b_ast, a, b, x, y, rel=REL)


def pairs(tier, seed):
    """Every two names with an origin, and kelvin."""
    names = P.names("off") + ["K", "kelvin"]
    return [[a, b] for a in names for b in names]


def pair(case, st):
    a, b = case
    offset([["id", a], ["id", b], [0.0, -40.0, 37.5]], st)


# Values everybody knows: independent of the database's wording.
KNOWN = [
    ["degC", "K", 0.0, 273.15],
    ["K", "degC", 0.0, -273.15],
    ["degC", "degF", 100.0, 212.0],
    ["degF", "degC", 32.0, 0.0],
    ["degF", "degC", -40.0, -40.0],
    ["degF", "K", 212.0, 373.15],
    ["celsius", "fahrenheit", 37.0, 98.6],
    ["degR", "K", 491.67, 273.15],
    ["K @ 273.15", "degC", 20.0, 20.0],
    ["degC/m", "K/km", 1.0, 1000.0],
    ["degF/s", "K/s", 9.0, 5.0],
    ["J/(kg degC)", "J/(kg K)", 4184.0, 4184.0],
    ["(K @ 273.15) @ 10", "K", 1.0, 284.15],
    ["2 (K @ 273.15)", "K", 1.0, 2.0],
    ["(2 K) @ 10", "K", 1.0, 22.0],
    ["hPa @ 1013.25", "Pa", 0.0, 101325.0],
]


def known(case, st):
    from pyudunits2 import Converter

    a, b, x, y = case
    st.nontrivial()
    got = sut.number(Converter(sut.unit(a), sut.unit(b)).convert(x))
    if not sut.same(got, y, 1e-12, 1000.0):
        raise Violation(f"{x} {a!r} in {b!r} is {y}, not {got}")


SUBCHECKS = [
    Enum("known", lambda tier, seed: KNOWN, known, "conversions with well-known results"),
    Enum("pairs", pairs, pair, "every two names with an origin"),
    Prop("temperature", lambda: G.from_bytes(temperature_case, 64), offset, 1600, 100000,
         "named and hand-made temperature scales, repeated and lost origins; "
         "non-trivial: an origin is involved"),
    Prop("other", lambda: G.from_bytes(other_case, 112), offset, 1000, 80000,
         "the same for units of any dimensionality other than time"),
    Prop("within", lambda: G.from_bytes(within_case, 128), offset, 1400, 80000,
         "products with a factor which has an origin"),
]  # fmt: skip


def setup():
    sut.system()

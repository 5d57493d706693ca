"""C13: logarithmic units transform the value."""

import math
import warnings
from fractions import Fraction

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Enum, Prop, Violation
from checks.c09 import no_time_shift
from checks.c12 import origin

PROPERTY = "C13"
ASSUMPTIONS = [
    "a 40 digit model over a snapshot of the UDUNITS-2 database is the authority "
    "where the UDUNITS-2 C library agrees with it to 1e-6",
    "the origin and the scale of logarithms: a scaled logarithm is a known finding",
]
REL = 1e-11


def log_unit(src, ref, depth=0):
    if src.chance(20) and depth == 0:
        ref = no_time_shift(["shift", ref, origin(src)])
    node = ["log", src.of(G.LOGS), ref]
    if src.chance(25):  # an origin of the logarithm
        node = ["shift", node, src.of(["1", "-2", "0.5", "3", "-0.25"])]
    if depth < 2 and src.chance(15):
        node = log_unit(src, node, depth + 1)
    return node


def reference(src):
    k = src.pick(5)
    if k == 0:
        return ["mul", ["num", P.factor(src)], ["id", P.name(src)]]
    if k == 1:
        return ["id", src.of(P.names("off"))]
    return P.product(src, most=2)


def exponent(src):
    return src.of([0.0, 1.0, 2.0, -1.0, 0.5, -0.25, 3.0, -3.0, 0.125]) + src.pick(64) / 256


def amount(src):
    mant = 1 + src.pick(9999) / 10000.0
    return mant * 10.0 ** (src.pick(13) - 6)


def pair_case(src):
    """A logarithmic unit, and a unit of the same (or inverse) dimensionality."""
    if src.chance(15):
        a = ["id", src.of(P.names("log"))]
        if src.chance(20):
            a = log_unit(src, a, 1)
    else:
        a = log_unit(src, reference(src))
    dims = M.database().dims(a)
    k = src.pick(8)
    if k in (6, 7):
        dims = {n: -o for n, o in dims.items()}
    b = P.of_dimensionality(src, dims)
    if k in (3, 4, 6):
        b = log_unit(src, b)
    elif k == 5 and M.database().dims(a) == {"kelvin": 1}:
        b = ["id", src.of(P.names("off"))]
    a, b = no_time_shift(a), no_time_shift(b)
    if src.pick(2):
        a, b = b, a
    return [a, b, [exponent(src), amount(src)]]


def is_log(u):
    while isinstance(u, (M.Off, M.Scaled)):
        u = u.unit
    return isinstance(u, M.Log)


def depth(u):
    n = 0
    while not isinstance(u, M.Lin):
        n += isinstance(u, M.Log)
        u = u.ref if isinstance(u, M.Log) else u.unit
    return n


def in_range(u):
    while not isinstance(u, M.Lin):
        u = u.ref if isinstance(u, M.Log) else u.unit
    return P.in_range(u, 80)


def pair(case, st):
    from pyudunits2 import Converter

    a_ast, b_ast, (exp, amt) = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    if not (in_range(a) and in_range(b)):
        st.label("out of the range of a double")
        return
    rel = db.relation(a, b)
    if rel is None:
        return
    ta, tb = G.plain_text(a_ast), G.plain_text(b_ast)
    st.nontrivial(is_log(a) or is_log(b))
    st.label(rel)
    st.label(f"{depth(a)} to {depth(b)} logarithms")
    conv = Converter(sut.unit(ta), sut.unit(tb))
    # An amount for which both units have a comfortable number
    xs = [exp] if is_log(a) else [amt]
    if depth(b) and not is_log(a):
        xs.append(near(db, a, b, exp))
    for x in xs:
        if x is None:
            continue
        if not comfortable(a, x):
            st.label("the amount in basis units is not comfortably a double")
            continue
        y = O.expected(a_ast, b_ast, a, b, x, st)
        if y is None:
            continue
        if lossy(a, x) or lossy(b, y):
            st.label("an origin swallows the value")
            continue
        lo, hi = (O.model_value(a, b, x * (1 + s)) for s in (-1e-12, 1e-12))
        if lo is None or hi is None:
            continue
        tol = REL * max(abs(y), O.magnitude(a), O.magnitude(b), 1 if is_log(b) else 0)
        tol += abs(hi - lo)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = sut.number(conv.convert(x))
        if math.isinf(got) or math.isnan(got) or abs(got - y) > tol:
            raise Violation(f"{x!r} {ta!r} in {tb!r} is {y!r}, not {got!r}")
        st.label("compared")


def comfortable(u, x):
    """Whether every number on the way to the basis units is a double."""
    limit = M.MP.mpf(10) ** 200
    x = M.mp(Fraction(x))
    while not isinstance(u, M.Lin):
        if abs(x) > limit:
            return False
        if isinstance(u, M.Log):
            base = M.BASE[u.fn]
            if abs(x) > 600:
                return False
            x = M.MP.exp(x) if base is None else M.MP.power(base, x)
            u = u.ref
        elif isinstance(u, M.Off):
            x, u = x + M.mp(u.origin), u.unit
        else:
            x, u = x * M.mp(u.k), u.unit
    x = x * M.mp(u.scale)
    return x != 0 and 1 / limit < abs(x) < limit


def lossy(u, x):
    """Whether adding an origin on the way to the basis units (nearly) cancels
    the value or swallows it."""
    while not isinstance(u, M.Lin):
        if isinstance(u, M.Log):
            if abs(x) > 300 or (abs(x) < 1e-5 and x != 0):
                return True
            x, u = (M.BASE[u.fn] or math.e) ** x, u.ref
        elif isinstance(u, M.Off):
            o = float(u.origin)
            t = x + o
            if abs(t) < 1e-4 * abs(o) or (abs(x) < 1e-4 * abs(o) and x != 0):
                return True
            x, u = t, u.unit
        else:
            x, u = x * float(u.k), u.unit
    return False


def near(db, a, b, exp):
    """The amount of a which is exp of b."""
    v = O.model_value(b, a, exp) if comfortable(b, exp) else None
    return v if v is not None and 1e-150 < abs(v) < 1e150 else None


def beyond_case(src):
    ref = P.product(src, most=2)
    a = P.of_dimensionality(src, M.database().dims(ref))
    b = ["log", src.of(G.LOGS), ref]
    if src.chance(30):
        b = no_time_shift(["shift", b, "2"])
    return [a, b, -amount(src) if src.pick(3) else 0.0]


def beyond(case, st):
    """What is not positive has no logarithm."""
    from pyudunits2 import Converter

    a_ast, b_ast, x = case
    db = M.database()
    try:
        a, b = db.meaning(a_ast), db.meaning(b_ast)
    except M.ModelError:
        return
    if not (in_range(a) and in_range(b)) or db.relation(a, b) != "direct":
        return
    ref = b.unit.ref if isinstance(b, M.Off) else b.ref
    if a.scale * ref.scale < 0:
        return  # e.g. degrees west are negative degrees
    st.nontrivial()
    conv = Converter(sut.unit(G.plain_text(a_ast)), sut.unit(G.plain_text(b_ast)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = conv.convert(x)
        except ArithmeticError:
            return
        except ValueError:
            return
    if isinstance(got, complex):
        raise Violation(f"{x} of {G.plain_text(a_ast)!r} is the complex {got}")
    got = sut.number(got)
    if not (math.isnan(got) or got == -math.inf):
        raise Violation(
            f"{x} {G.plain_text(a_ast)!r} in {G.plain_text(b_ast)!r} is {got}"
        )


# Values which do not depend on the wording of the database.
KNOWN = [
    ["lg(re m)", "m", 2.0, 100.0],
    ["lb(re m)", "m", 10.0, 1024.0],
    ["ln(re m)", "m", 1.0, math.e],
    ["log(re m)", "m", 3.0, 1000.0],
    ["m", "lg(re mm)", 1.0, 3.0],
    ["km", "lg(re m)", 10.0, 4.0],
    ["lg(re mW)", "W", 3.0, 1.0],
    ["Bm", "W", 3.0, 1.0],
    ["W", "Bm", 0.01, 1.0],
    ["lg(re lg(re m))", "m", 0.0, 10.0],
    ["lg(re lg(re m))", "m", 1.0, 1e10],
    ["lb(re lb(re byte))", "byte", 2.0, 16.0],
    ["lg(re 2 m/s)", "m/s", 1.0, 20.0],
    ["m/s", "lg(re 2 m/s)", 1.0, -0.3010299956639812],
    ["lg(re m/s)", "s/m", 1.0, 0.1],
    ["ln(re m)", "lg(re m)", math.log(10), 1.0],
    ["lb(re kg)", "lb(re g)", 0.0, math.log2(1000)],
    ["lg(re m) @ 2", "m", 1.0, 1000.0],
    ["m", "lg(re m) @ 2", 1.0, -2.0],
    ["lg(re (K @ 100))", "K", 1.0, 110.0],
    ["lg(re degC)", "K", 2.0, 373.15],
    ["K", "lg(re degC)", 283.15, 1.0],
]


def known(case, st):
    from pyudunits2 import Converter

    a, b, x, y = case
    st.nontrivial()
    try:
        u, v = sut.unit(a), sut.unit(b)
    except Exception as err:
        raise Violation(f"{a!r} or {b!r} is refused ({type(err).__name__})")
    got = sut.number(Converter(u, v).convert(x))
    if not sut.same(got, y, 1e-11, 1.0):
        raise Violation(f"{x:.6g} {a!r} in {b!r} is {y:.6g}, not {got:.6g}")


SCALED = [
    ["dBm", "W", 30.0, 1.0],
    ["W", "dBm", 1.0, 30.0],
    ["dBZ", "mm6 m-3", 20.0, 100.0],
    ["dBm", "Bm", 10.0, 1.0],
    ["2 lg(re m)", "m", 1.0, 100.0],
    ["m", "2 lg(re m)", 100.0, 1.0],
    ["lg(re m) 2", "m", 1.0, 100.0],
    ["lg(re m)/2", "m", 4.0, 100.0],
    ["0.5 ln(re K)", "K", 2.0, math.e],
    ["2 lg(re m)", "lg(re m)", 3.0, 6.0],
    ["lg(re 2 lg(re m))", "m", 0.0, 100.0],
]


def refused(text, st):
    """UDUNITS-2 refuses these, in words which pyudunits2 quotes."""
    from pyudunits2 import Converter

    st.nontrivial()
    if sut.c_unit(text) is not None:
        st.label("the C library does not refuse")
        return
    db = M.database()
    basis = sut.basis_text(db.dims(M.parse(text)))
    try:
        u = sut.unit(text)
        for other in (basis, text):
            got = Converter(u, sut.unit(other)).convert(2.0)
            raise Violation(f"{text!r} is converted")
    except Violation:
        raise
    except Exception as err:
        st.label(type(err).__name__)


REFUSED = ["lg(re m) lg(re s)", "lg(re m) s", "s/lg(re m)", "lg(re m)^2", "lg(re m)-1"]

def two_case(src):
    """A product or quotient of two logarithms, perhaps with other factors."""
    def one():
        ref = src.weighted([(3, ["num", src.of(["1", "2", "0.5"])]), (2, ["id", src.of(P.by_dims()[()])]),
                            (2, ["id", "meter"]), (1, P.product(src, most=2))])  # fmt: skip
        node = ["log", src.of(G.LOGS), ref]
        if src.chance(20):
            node = ["log", src.of(G.LOGS), node]
        return node

    a, b = one(), one()
    extra = ["num", src.of(["2", "0.1"])] if src.pick(2) else ["id", "radian"]
    k = src.pick(4)
    if k == 1:
        a = ["mul", extra, a]
    elif k == 2:
        b = ["mul", b, extra]
    elif k == 3:
        a = ["mul", a, extra]
    node = [src.of(["mul", "div"]), a, b]
    if src.chance(20):
        node = ["mul", node, extra]
    return node


def two(case, st):
    """Two logarithms have no product; there is nothing to convert."""
    from pyudunits2 import Converter

    text = G.plain_text(case)
    if sut.c_unit(text) is not None:
        st.label("the C library does not refuse")
        return
    st.nontrivial()
    st.label(case[0])
    try:
        u = sut.unit(text)
        dims = M.database().dims(case)
        Converter(u, sut.unit(sut.basis_text(dims)))
    except ValueError as err:
        st.label(type(err).__name__)
        return
    raise Violation(f"{text!r}, which means nothing, is converted")


SUBCHECKS = [
    Enum("known", lambda tier, seed: KNOWN, known, "conversions with well-known results"),
    Enum("scaled", lambda tier, seed: SCALED, known, "multiples of logarithms"),
    Enum("refused", lambda tier, seed: REFUSED, refused,
         "products and powers of logarithms, which mean nothing"),
    Prop("pair", lambda: G.from_bytes(pair_case, 128), pair, 1600, 100000,
         "logarithms of products, of temperatures and of logarithms, perhaps with an "
         "origin, to and from other units; non-trivial: a logarithm is involved"),
    Prop("two", lambda: G.from_bytes(two_case, 64), two, 400, 5000,
         "products and quotients of two logarithms, of numbers and of anything; they are refused. "
         "Non-trivial: the UDUNITS-2 C library refuses it, too"),
    Prop("beyond", lambda: G.from_bytes(beyond_case, 96), beyond, 500, 20000,
         "values which are not positive"),
]  # fmt: skip


def setup():
    sut.system()

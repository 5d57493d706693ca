"""C15: conversions compose, and can be undone."""

import math
import warnings

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Prop, Violation
from checks.c09 import no_time_shift
from checks.c12 import origin, with_origin
from checks.c13 import comfortable, depth, in_range, is_log, log_unit, lossy

PROPERTY = "C15"
ASSUMPTIONS = [
    "the model is used to keep the values within the comfortable range of a double",
]
REL = 2e-13


def dress(src, ast, logs):
    k = src.pick(10)
    if k in (5, 6):
        ast = with_origin(src, ast)
    elif k == 7 and logs:
        ast = log_unit(src, ast)
    elif k == 8 and logs:
        # a multiple of a logarithm: its own scale is a known finding of C13,
        # but conversions through it must compose all the same
        ast = ["mul", ["num", P.factor(src)], ["log", src.of(G.LOGS), ast]]
    return no_time_shift(ast)


def family(src, n, inverse, logs=True):
    """n units which are convertible into each other."""
    if src.chance(25):
        dims = {"kelvin": 1}
        first = ["id", src.of(P.names("off"))]
    else:
        first = P.product(src, most=2)
        dims = M.database().dims(first)
    out = [first]
    for _ in range(n - 1):
        d = dims
        if inverse and src.chance(25):
            d = {k: -o for k, o in dims.items()}
        out.append(P.of_dimensionality(src, d))
    out = [dress(src, u, logs) for u in out]
    return src.perm(out)


def value(src):
    return src.of([1.0, 2.5, -3.0, 0.5, 40.0, -0.125]) + src.pick(256) / 1024


def family_case(src):
    return [family(src, 3, True), value(src)]


def meanings(asts, st):
    db = M.database()
    try:
        us = [db.meaning(a) for a in asts]
    except M.ModelError:
        return None
    if not all(in_range(u) for u in us):
        st.label("out of the range of a double")
        return None
    return us


def scale(u):
    s = 0.0
    while not isinstance(u, M.Lin):
        if isinstance(u, M.Off):
            s += abs(float(u.origin))
        u = u.ref if isinstance(u, M.Log) else u.unit
    return s


def factor(u):
    k = 1.0
    while not isinstance(u, M.Lin):
        if isinstance(u, M.Scaled):
            k *= abs(float(u.k))
        u = u.ref if isinstance(u, M.Log) else u.unit
    return k


def apply(conv, x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            y = sut.number(conv.convert(x))
        except ZeroDivisionError:
            return None
    return y if math.isfinite(y) and (y == 0 or 1e-200 < abs(y) < 1e200) else None


def through(conv, y, s):
    """(value, tolerance) for an input which has an error of its own"""
    d = REL * max(abs(y), s)
    mid, lo, hi = apply(conv, y), apply(conv, y - d), apply(conv, y + d)
    if mid is None or lo is None or hi is None:
        return None, None
    return mid, abs(hi - lo) + REL * abs(mid)


def compose(case, st):
    from pyudunits2 import Converter

    asts, x = case
    us = meanings(asts, st)
    if us is None:
        return
    if sum(depth(u) for u in us) > 3 or not all(comfortable(u, x) for u in us[:1]):
        st.label("beyond the comfortable range")
        return
    texts = [G.plain_text(a) for a in asts]
    units = [sut.unit(t) for t in texts]
    a, b, c = range(3)
    sizes = [scale(u) for u in us]
    rels = [M.database().relation(us[a], us[i]) for i in (b, c)]
    st.label("reciprocal", "reciprocal" in rels)
    st.label("logarithm", any(is_log(u) for u in us))
    st.label("origin", any(s for s in sizes))
    ab = Converter(units[a], units[b])
    y = apply(ab, x)
    if y is None:
        st.label("no finite value")
        return
    if lossy(us[a], x) or lossy(us[b], y):
        st.label("an origin swallows the value")
        return
    # back again
    back, tol = through(Converter(units[b], units[a]), y, sizes[b])
    if back is not None:
        tol += REL * sizes[a]
        if tol < 1e-6 * max(1, abs(x)):
            st.nontrivial(texts[a] != texts[b])
            if abs(back - x) > tol:
                raise Violation(
                    f"{x!r} {texts[a]!r} is {y!r} {texts[b]!r}, which is {back!r} "
                    f"{texts[a]!r}"
                )
        else:
            st.label("ill-conditioned")
    # on to a third
    z, tol = through(Converter(units[b], units[c]), y, sizes[b])
    ac = Converter(units[a], units[c])
    direct, tol2 = through(ac, x, sizes[a])
    if z is not None and direct is not None and not lossy(us[c], direct):
        tol += tol2 + REL * sizes[c]
        if tol < 1e-6 * max(1, abs(direct)):
            st.nontrivial()
            if abs(direct - z) > tol:
                raise Violation(
                    f"{x!r} {texts[a]!r} is {direct!r} {texts[c]!r}, but {z!r} "
                    f"by way of {texts[b]!r}"
                )
        else:
            st.label("ill-conditioned")


def identity_case(src):
    [a, b] = family(src, 2, False)
    return [a, [value(src), P.value(src)]]


def identity(case, st):
    """A unit converts to itself, to its text and to a dressed-up form of it
    without a change of the value."""
    from pyudunits2 import Converter

    ast, xs = case
    us = meanings([ast], st)
    if us is None:
        return
    text = G.plain_text(ast)
    u, v = sut.unit(text), sut.unit(text)
    convs = [("itself", Converter(u, u)), ("an equal unit", Converter(u, v)),
             ("its text", Converter(u, sut.unit(str(u))))]  # fmt: skip
    st.nontrivial(len(M.identifiers(ast)) > 1 or us[0].kind != "lin")
    st.label(us[0].kind)
    for x in xs:
        if not comfortable(us[0], x) or (depth(us[0]) and lossy(us[0], x)):
            continue
        for how, conv in convs:
            y = apply(conv, x)
            if y is None:
                continue
            # Through the exponential and the logarithm and back
            one = max(factor(us[0]), 1 / factor(us[0])) if depth(us[0]) else 0.0
            tol = REL * max(abs(x), scale(us[0]), one)
            if abs(y - x) > tol * (1 + 50 * depth(us[0])):
                raise Violation(f"{x!r} {text!r} converts to {y!r} of {how}")


def linear_case(src):
    a = P.product(src, most=3)
    b = P.of_dimensionality(src, M.database().dims(a))
    return [a, b, P.value(src), P.value(src), src.of([2.0, -1.0, 0.25, 1000.0])]


def linear(case, st):
    """Multiples: zero is zero, sums convert to sums and multiples to multiples."""
    from pyudunits2 import Converter

    a, b, x, y, k = case
    us = meanings([a, b], st)
    if us is None or "off" in (us[0].kind, us[1].kind):
        return
    if M.database().relation(*us) != "direct":
        return
    ta, tb = G.plain_text(a), G.plain_text(b)
    f = Converter(sut.unit(ta), sut.unit(tb))
    st.nontrivial(ta != tb)
    zero = sut.number(f.convert(0.0))
    if zero != 0:
        raise Violation(f"0 {ta!r} is {zero!r} {tb!r}")
    fx, fy, fs, fk = (apply(f, v) for v in (x, y, x + y, k * x))
    if None in (fx, fy, fs, fk):
        return
    if abs(fx + fy - fs) > REL * max(abs(fx), abs(fy)):
        raise Violation(f"{ta!r} to {tb!r}: {x!r} + {y!r} gives {fs!r}, not {fx + fy!r}")
    if abs(k * fx - fk) > REL * abs(fk):
        raise Violation(f"{ta!r} to {tb!r}: {k} x {x!r} gives {fk!r}, not {k * fx!r}")


SUBCHECKS = [
    Prop("compose", lambda: G.from_bytes(family_case, 144), compose, 1100, 60000,
         "three units of one (or inverse) dimensionality: there and back, and by way of "
         "the third; the tolerance follows from the conditioning; non-trivial: a "
         "comparison was possible"),
    Prop("identity", lambda: G.from_bytes(identity_case, 96), identity, 900, 40000,
         "a unit to itself, to an equal unit and to the unit of its text"),
    Prop("linear", lambda: G.from_bytes(linear_case, 96), linear, 1600, 60000,
         "additivity and homogeneity of conversions between multiples"),
]  # fmt: skip


def setup():
    sut.system()

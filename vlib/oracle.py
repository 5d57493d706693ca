"""What a conversion should give: the model, cross-examined by UDUNITS-2."""

from __future__ import annotations

import math
from fractions import Fraction

from . import model as M, sut
from .gen import plain_text
from .harness import Violation

REL = 1e-10


def magnitude(unit) -> float:
    """The largest origin in a unit (in its own numbers)."""
    out, factor = Fraction(0), 1
    u = unit
    while True:
        if isinstance(u, M.Off):
            out += abs(u.origin)
            u = u.unit
        elif isinstance(u, M.Scaled):
            u = u.unit
        else:
            return float(out)


def model_value(a, b, x: float):
    """The exact (or 40 digit) value, as a float; None when there is none, or
    when it is not comfortably a double."""
    db = M.database()
    try:
        v = db.convert(a, b, Fraction(x))
    except M.ModelError:
        return None
    except (OverflowError, ZeroDivisionError):
        return None
    try:
        v = float(v)
    except (OverflowError, TypeError):
        return None
    if math.isnan(v) or math.isinf(v) or (v != 0 and not 1e-280 < abs(v) < 1e280):
        return None
    return v


def expected(a_ast, b_ast, a, b, x: float, st):
    """The value UDUNITS-2 (model and, where it has an opinion, C library)
    gives for x; None when there is no verdict."""
    v = model_value(a, b, x)
    if v is None:
        st.label("no finite value in the model")
        return None
    ta, tb = plain_text(a_ast), plain_text(b_ast)
    c = sut.c_convert(ta.replace("·", "."), tb.replace("·", "."), x)
    if c is None:
        st.label("C library has no opinion")
    elif sut.same(c, v, 1e-6, magnitude(b)):
        st.label("C library agrees with the model")
    else:
        st.label("C library disagrees with the model (skipped)")
        return None
    return v


def scale_of(a, b, x, v) -> float:
    """The magnitude of the numbers which are added up on the way."""
    db = M.database()
    s = abs(v)
    mb, ma = magnitude(b), magnitude(a)
    s = max(s, mb)
    la, lb = a.linear(), b.linear()
    if la is not None and lb is not None and db.relation(a, b) == "direct":
        try:
            s = max(s, float((abs(Fraction(x)) + Fraction(ma)) * abs(la.scale / lb.scale)))
        except OverflowError:
            pass
    return s


def compare(got, a_ast, b_ast, a, b, x, v, what="", rel=REL):
    got = sut.number(got)
    if not sut.same(got, v, rel, scale_of(a, b, x, v)):
        raise Violation(
            f"{x!r} {plain_text(a_ast)!r} in {plain_text(b_ast)!r} is {v!r}, "
            f"not {got!r} {what}"
        )


class Basis(M.Registry):
    """Only the basis units of the database, by their names."""

    def named(self, name):
        if M.database().defs.get(name, "") is not None:
            raise Violation(f"{name!r} is not a basis unit")
        return M.Lin(Fraction(1), {name: 1})


def expanded_key(u, what):
    """The exact meaning of the expanded form of a unit."""
    text = u.expanded()
    if not isinstance(text, str):
        raise Violation(f"the expanded form of {what!r} is {text!r}")
    try:
        return Basis().meaning(M.parse(text)).key(), text
    except M.ModelError as err:
        raise Violation(f"the expanded form of {what!r} is {text!r}: {err}")

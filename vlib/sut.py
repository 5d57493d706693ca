"""Observations of the code under test, through its public API."""

from __future__ import annotations

import contextlib
import math
import os
import sys
from fractions import Fraction
from functools import lru_cache

from . import model as M
from .harness import Violation


@lru_cache(maxsize=None)
def system():
    from pyudunits2 import UnitSystem

    return UnitSystem.from_udunits2_xml()


def fresh_system():
    from pyudunits2 import UnitSystem

    return UnitSystem.from_udunits2_xml()


def unit(text, sys_=None):
    """The unit for a text which must be accepted."""
    return (sys_ or system()).unit(text)


def dims(u) -> dict:
    d = u.dimensionality()
    out = {}
    for basis, order in d.items():
        out[str(basis)] = order
    if not (d == out):
        raise Violation(f"dimensionality {d} is not equal to its own name form {out}")
    return out


def same(a: float, b: float, rel=1e-9, scale=0.0) -> bool:
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rel * max(abs(a), abs(b), scale)


def number(x) -> float:
    """A plain number out of a conversion result."""
    import numbers

    # (numpy's numbers are registered as such)
    if isinstance(x, complex) or not isinstance(x, numbers.Real):
        raise Violation(f"{x!r} ({type(x).__name__}) is not a real number")
    return float(x)


# --------------------------------------------------------------------------
# The UDUNITS-2 C library


@lru_cache(maxsize=None)
def _cf():
    import cf_units

    return cf_units


@contextlib.contextmanager
def quiet_c():
    """The C library writes its complaints to file descriptor 2."""
    with _cf().suppress_errors():
        yield


@lru_cache(maxsize=20000)
def c_unit(text):
    cf = _cf()
    with quiet_c():
        try:
            u = cf.Unit(text)
        except ValueError:
            return None
    if u.is_unknown() or u.is_no_unit():
        return None
    return u


def c_convert(a: str, b: str, x: float):
    """UDUNITS-2's conversion, or None if it has no opinion."""
    ua, ub = c_unit(a), c_unit(b)
    if ua is None or ub is None:
        return None
    with quiet_c():
        try:
            return float(ua.convert(float(x), ub))
        except (ValueError, OverflowError):
            return None


def basis_text(dims_: dict) -> str:
    return " ".join(f"{k}{v}" if v != 1 else k for k, v in dims_.items()) or "1"


def frac(x) -> Fraction:
    return Fraction(str(x)) if isinstance(x, str) else Fraction(x)

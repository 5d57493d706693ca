"""Operations on units and what they give, as plain data.

As a program: reads {"texts": [...], "ops": [...]} lines from stdin and writes
one line of outcomes for each.
"""

from __future__ import annotations

import json
import math
import sys

NUMPY = True
BAD = ["m^", "((", "m @", "lg(re", "", "m kg @ x", "5e", "²"]
UNKNOWN = ["no_such_unit", "kkm", "xm", "kilo", "metres_"]


def plain(x):
    try:
        import numpy as np
    except ImportError:
        import numbers

        if isinstance(x, numbers.Real):
            return float(x)
        return "not a number: " + repr(x)
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return "not a number: " + repr(x)


class Blocked:
    """Makes modules appear not to be installed."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)


def block(names):
    global NUMPY
    sys.meta_path.insert(0, Blocked(names))
    NUMPY = "numpy" not in names


def error(err):
    return [type(err).__name__]


def make(system, texts):
    out = []
    for t in texts:
        try:
            out.append(system.unit(t))
        except Exception as err:
            out.append(error(err))
    return out


def perform(system, units, op, kept=None):
    """``kept`` holds the converters which are used again."""
    from pyudunits2 import Converter

    kind = op[0]
    try:
        if kind == "text":
            u = system.unit(op[1])
            return [type(u).__name__, str(u), u.expanded()]
        if kind == "look":
            return str(system.unit_by_name_or_symbol(op[1]))
        u = units[op[1]]
        if isinstance(u, list):
            return u
        if kind == "str":
            return str(u)
        if kind == "expanded":
            return u.expanded()
        if kind == "dims":
            d = u.dimensionality()
            return [
                str(d) if len(d) < 2 else "",
                sorted((str(k), v) for k, v in d.items()),
                len(d),
            ]
        if kind == "inverted":
            d = u.dimensionality().inverted()
            return sorted((str(k), v) for k, v in d.items())
        if kind == "is":
            return [bool(u.is_dimensionless()), bool(u.is_time_unit())]
        v = units[op[2]]
        if isinstance(v, list):
            return v
        if kind == "eq":
            return [bool(u == v), bool(u != v), bool(v == u)]
        if kind == "dimeq":
            return bool(u.dimensionality() == v.dimensionality())
        if kind == "convertible":
            return [bool(u.is_convertible_to(v)), bool(v.is_convertible_to(u))]
        if kind in ("convert", "array", "expression"):
            key = (op[1], op[2])
            if kept is None or key not in kept:
                c = Converter(u, v)
                if kept is not None:
                    kept[key] = c
            else:
                c = kept[key]
            if kind == "expression":
                return sorted(str(s) for s in c.expression.free_symbols)
            if kind == "convert" and not NUMPY:
                return plain(c.convert(op[3]))
            import numpy as np

            with np.errstate(all="ignore"):
                if kind == "convert":
                    return plain(c.convert(op[3]))
                a = np.array(op[3], dtype=float)
                out = c.convert(a)
                got = plain(out)
                try:
                    out[...] = 777.0  # what becomes of a result is nobody's concern
                    a[...] = -5.0
                except (TypeError, ValueError):
                    pass
                return got
    except Exception as err:
        return error(err)
    raise SystemExit(f"unknown operation {kind}")


def same(a, b, rel=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if type(a) is float and type(b) is float:
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)
    return type(a) is type(b) and a == b


def main():
    import os

    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import env  # noqa: F401

    if os.environ.get("VERIF_BLOCK"):
        block(os.environ["VERIF_BLOCK"].split(","))
    from pyudunits2 import UnitSystem

    if os.environ.get("VERIF_DECIMALS"):
        import decimal

        decimal.getcontext().prec = int(os.environ["VERIF_DECIMALS"])
    if os.environ.get("VERIF_WARNINGS"):
        import warnings

        warnings.simplefilter(os.environ["VERIF_WARNINGS"])
        # (numpy's, when a value isn't in the domain of a logarithm)
        warnings.filterwarnings("ignore", category=RuntimeWarning)
    system = UnitSystem.from_udunits2_xml()
    out = []
    for case in json.load(sys.stdin):
        units = make(system, case["texts"])
        kept = {}
        out.append([perform(system, units, op, kept) for op in case["ops"]])
    sys.stdout.buffer.write(json.dumps(out).encode("ascii"))


if __name__ == "__main__":
    main()

"""Puts the code under test (/repo's working tree) and Hypothesis on the path."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    # Last, so that the project's own numpy / sympy / lxml are the ones used.
    sys.path.append(TOOLS)


def _accelerate():
    """Memoise sympy.simplify (a pure function of an immutable expression).

    Basis units share one hash, so that every look-up in a dictionary of basis
    units compares them, and each comparison simplifies e.g. "kelvin - meter".
    Remembering the outcome makes the checks a hundred times faster, and
    changes nothing else.
    """
    import functools

    import sympy

    original = sympy.simplify

    @functools.lru_cache(maxsize=50000)
    def remembered(expr):
        return original(expr)

    @functools.wraps(original)
    def simplify(expr, *args, **kwargs):
        if args or kwargs or not isinstance(expr, sympy.Basic):
            return original(expr, *args, **kwargs)
        return remembered(expr)

    sympy.simplify = simplify


if os.environ.get("VERIF_PLAIN_SYMPY") != "1":
    _accelerate()

"""C05: every spelling in the unit database is that unit."""

from fractions import Fraction

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Enum, Violation

PROPERTY = "C05"
ASSUMPTIONS = [
    "the snapshot of the UDUNITS-2 database in /verif/data is the authority",
    "UDUNITS-2's C library (cf_units) ships the same definitions",
]
VALUES = [1.0, 3.7, -12.5, 0.0]


def spellings(tier, seed):
    out = []
    for _, s, _ in M.database().entries:
        if s not in out:
            out.append(s)
    return out


def is_the_unit(name, u, st):
    """u is the unit which the database defines for the name."""
    from pyudunits2 import Converter

    db = M.database()
    want = db.named(name)
    real = db.real_dims(want.dims)
    got = sut.dims(u)
    if got != real:
        raise Violation(f"{name!r} has the dimensionality {got}, not {real}")
    if u.is_dimensionless() != (not real):
        raise Violation(f"is_dimensionless of {name!r} is {u.is_dimensionless()}")
    if bool(u.is_time_unit()) != (real == {"second": 1}):
        raise Violation(f"is_time_unit of {name!r} is {u.is_time_unit()}")
    key, text = O.expanded_key(u, name)
    if key != want.key():
        raise Violation(f"{name!r} expands to {text!r}: {key}, not {want.key()}")
    st.label(want.kind)
    if want.kind in ("scaled",):
        return
    basis_ast = M.parse(sut.basis_text(want.dims))
    basis = db.meaning(basis_ast)
    b = sut.unit(G.plain_text(basis_ast))
    ast = ["id", name]
    fwd, inv = Converter(u, b), Converter(b, u)
    for x in VALUES:
        v = O.expected(ast, basis_ast, want, basis, x, st)
        if v is not None:
            st.nontrivial()
            O.compare(fwd.convert(x), ast, basis_ast, want, basis, x, v)
        v = O.expected(basis_ast, ast, basis, want, x, st)
        if v is not None:
            O.compare(inv.convert(x), basis_ast, ast, basis, want, x, v)


def spelled(name, st):
    from pyudunits2 import UnresolvableUnitException

    try:
        u = sut.unit(name)
    except (SyntaxError, ValueError, UnresolvableUnitException) as err:
        raise Violation(f"{name!r} is refused ({err})")
    is_the_unit(name, u, st)


def looked_up(name, st):
    from pyudunits2 import UnresolvableUnitException

    try:
        u = sut.system().unit_by_name_or_symbol(name)
    except (SyntaxError, ValueError, UnresolvableUnitException) as err:
        raise Violation(f"{name!r} is refused ({err})")
    is_the_unit(name, u, st)


def same_unit(key, st):
    """All spellings of a unit are equal to each other."""
    db = M.database()
    names = []
    for k, s, _ in db.entries:
        if k == key and s not in names and db.names[s] == key and M.lexable(s):
            names.append(s)
    st.nontrivial(len(names) > 1)
    if not P.readable(key):
        return
    units = [sut.unit(n) for n in names]
    for n, u in zip(names[1:], units[1:]):
        if not (u == units[0] and units[0] == u):
            raise Violation(f"{names[0]!r} != {n!r}, which are one unit")


def keys(tier, seed):
    return sorted({k for k, _, _ in M.database().entries})


SUBCHECKS = [
    Enum("spelled", spellings, spelled,
         "every spelling in the database, through UnitSystem.unit (exhaustive); "
         "non-trivial: the conversion to basis units was compared"),
    Enum("looked_up", spellings, looked_up,
         "every spelling, through unit_by_name_or_symbol (exhaustive)"),
    Enum("same_unit", keys, same_unit,
         "every unit: all of its spellings are equal; non-trivial: two or more"),
]  # fmt: skip


def setup():
    sut.system()

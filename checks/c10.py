"""C10: units convert exactly when their dimensionalities agree or are inverse."""

from vlib import gen as G, model as M, pools as P, sut
from vlib.harness import Prop, Violation
from checks.c09 import no_time_shift
from checks.c18 import date_text

PROPERTY = "C10"
ASSUMPTIONS = [
    "the snapshot of the UDUNITS-2 database in /verif/data is the authority",
]


def partner(src, dims):
    """The dimensionality of a second unit: equal, inverse, or a near miss."""
    k = src.pick(8)
    if k <= 1:
        return dict(dims)
    if k == 2:
        return {b: -o for b, o in dims.items()}
    out = dict(dims)
    names = sorted(out) or ["meter"]
    b = src.of(names)
    if k == 3:  # another order
        out[b] = out.get(b, 0) + src.of([1, -1, 2])
    elif k == 4 and len(names) > 1:  # only one order inverted
        out[b] = -out[b]
    elif k == 5:  # another basis unit
        out[src.of(P.BASES)] = out.pop(b, 1)
    elif k == 6:  # all orders times a factor
        f = src.of([2, -2, 3])
        out = {n: o * f for n, o in out.items()}
    else:  # orders swapped between two basis units
        other = src.of(P.BASES)
        out[b], out[other] = out.get(other, 0), out.get(b, 0)
    return {n: o for n, o in out.items() if o}


def dress(src, ast):
    """Perhaps give a unit an origin or make it the reference of a logarithm."""
    k = src.pick(10)
    if k == 7:
        return no_time_shift(["shift", ast, src.of(["273.15", "10", "-5"])])
    if k == 8:
        return ["log", src.of(G.LOGS), ast]
    return ast


def pair_case(src):
    if src.chance(8):
        a = ["id", src.of(P.BASES)]
    elif src.chance(12):
        a = ["id", src.of(P.names(src.of(["off", "log"])))]
    else:
        a = P.product(src, most=3)
    dims = M.database().dims(a)
    b = P.of_dimensionality(src, partner(src, dims))
    a, b = dress(src, a), dress(src, b)
    return [a, b] if src.pick(2) == 0 else [b, a]


def refused(u, v, how):
    from pyudunits2 import Converter, IncompatibleUnitsError

    try:
        Converter(u, v)
    except IncompatibleUnitsError:
        return
    raise Violation(f"{how}, and yet a Converter is made")


def pair(case, st):
    from pyudunits2 import Converter, IncompatibleUnitsError

    a, b = case
    db = M.database()
    da, db_ = db.dims(a), db.dims(b)
    want = da == db_ or da == {k: -v for k, v in db_.items()}
    ta, tb = G.plain_text(a), G.plain_text(b)
    u, v = sut.unit(ta), sut.unit(tb)
    # A name can be looked up too, which gives the unit of the system itself.
    us, vs = ([x] + ([sut.system().unit_by_name_or_symbol(n[1])] if n[0] == "id" else [])
              for x, n in ((u, a), (v, b)))  # fmt: skip
    for x in us:
        for y in vs:
            for (f, tf), (t, tt) in (((x, ta), (y, tb)), ((y, tb), (x, ta))):
                got = f.is_convertible_to(t)
                if got is not want:
                    raise Violation(f"{tf!r}.is_convertible_to({tt!r}) is {got}")
    for xs, dims, text in ((us, da, ta), (vs, db_, tb)):
        for x in xs:
            if sut.dims(x) != dims:
                raise Violation(f"{text!r} was {dims}, and is {sut.dims(x)} once compared")
    if not u.is_convertible_to(u):
        raise Violation(f"{ta!r} is not convertible to itself")
    st.label("convertible" if want else "not convertible")
    st.nontrivial(bool(da) and bool(db_))
    if not want:
        refused(u, v, f"{ta!r} is not convertible to {tb!r}")
        return
    try:
        ua, ub = db.meaning(a), db.meaning(b)
    except M.ModelError:
        return  # e.g. a logarithm in a product, or a zero divisor
    if "scaled" in (ua.kind, ub.kind) or not (alive(ua) and alive(ub)):
        return
    try:
        Converter(u, v)
    except IncompatibleUnitsError:
        raise Violation(f"{ta!r} is convertible to {tb!r}, but Converter refuses")


def alive(u):
    """Not a multiple of zero."""
    while isinstance(u, (M.Log, M.Off)):
        u = u.ref if isinstance(u, M.Log) else u.unit
    return P.in_range(u, 150)


def date_case(src):
    t = P.of_dims(src, (("second", 1),))
    a = f"{t} since {date_text(src)}"
    k = src.pick(4)
    if k == 0:
        b = t
    elif k == 1:
        b = P.of_dims(src, (("second", 1),))
    elif k == 2:
        b = f"{P.of_dims(src, (('second', 1),))} since {date_text(src)}"
    else:
        b = G.plain_text(P.product(src, most=2))
    return [a, b]


def date(case, st):
    """A date unit converts to nothing, and nothing converts to it."""
    u, v = (sut.unit(t) for t in case)
    st.nontrivial()
    for x, y, how in ((u, v, "{0!r} to {1!r}"), (v, u, "{1!r} to {0!r}")):
        how = how.format(*case)
        if x.is_convertible_to(y) is not False:
            raise Violation(f"is_convertible_to: {how}")
        refused(x, y, f"is_convertible_to refuses {how}")
    refused(u, u, f"{case[0]!r} to itself")


SUBCHECKS = [
    Prop("pair", lambda: G.from_bytes(pair_case, 128), pair, 6000, 200000,
         "pairs made to agree, to be inverse or to miss narrowly; the answer must be "
         "the model's, the same both ways, and Converter's; non-trivial: neither is "
         "dimensionless"),
    Prop("date", lambda: G.from_bytes(date_case, 64), date, 800, 20000,
         "date units with time units, date units and other units"),
]  # fmt: skip


def setup():
    sut.system()

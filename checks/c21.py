"""C21: the expanded form of a unit is made of basis units, and means the same."""

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Prop, Violation
from checks.c01 import small
from checks.c09 import any_case, logs_allowed, no_time_shift
from checks.c03 import date_case, regroups

PROPERTY = "C21"
ASSUMPTIONS = [
    "the snapshot of the UDUNITS-2 database in /verif/data is the authority",
]


def case(src):
    k = src.pick(4)
    if src.chance(1):
        return {"ast": ["num", "1"], "text": src.of(["", " ", "   "])}
    if src.chance(5):
        ast = P.long_product(src, 6, 20)
    elif k < 2:
        ids = [P.name(src) for _ in range(3)] + [src.of(P.names("off"))]
        ast = no_time_shift(G.gen_ast(src, ids=ids, leaves=5, logs=k == 1, exp=small))
    else:
        ast = any_case(src)
    return G.spell(src, ast)


def meaning(registry, ast):
    try:
        return registry.meaning(ast).key()
    except M.ModelError:
        return None


def expanded(c, st):
    db = M.database()
    if not logs_allowed(c["ast"]):
        st.label("the meaning is not claimed")
        return
    u = sut.unit(c["text"])
    before = str(u)
    text = u.expanded()
    if not isinstance(text, str):
        raise Violation(f"the expanded form of {c['text']!r} is {text!r}")
    if u.expanded() != text or str(u) != before:
        raise Violation(f"expanding {c['text']!r} twice: {text!r}, {u.expanded()!r}")
    try:
        ast = M.parse(text)
    except M.ModelError as err:
        raise Violation(f"the expanded form of {c['text']!r} is {text!r}: {err}")
    for name in M.identifiers(ast):
        if db.defs.get(name, "") is not None:
            raise Violation(f"{name!r} in the expanded form of {c['text']!r} is not a basis unit")
    want = meaning(db, c["ast"])
    if want is None or not regroups(c["ast"]):
        st.label("the meaning is not claimed")
        return
    st.nontrivial(M.size(c["ast"]) >= 3)
    got = O.expanded_key(u, c["text"])[0]
    if got != want:
        raise Violation(f"{c['text']!r} expands to {text!r}: {got}, not {want}")
    # It is a unit, the same one, and expands to itself.
    v = sut.unit(text)
    if v.expanded() != text:
        raise Violation(f"{c['text']!r} expands to {text!r}, and that to {v.expanded()!r}")
    if sut.dims(u) != sut.dims(v):
        raise Violation(f"{c['text']!r} and its expanded form {text!r} differ in dimensionality")
    if not (u == v):
        raise Violation(f"{c['text']!r} != {text!r}, its expanded form")


def date(c, st):
    from pyudunits2 import DateUnit

    u = sut.unit(c["text"])
    if not isinstance(u, DateUnit):
        raise Violation(f"{c['text']!r} is not a date unit")
    text = u.expanded()
    want = f"{u.unit.expanded()} since {u.reference_date}"
    if text != want:
        raise Violation(f"{c['text']!r} expands to {text!r}, not {want!r}")
    st.nontrivial()
    key = O.expanded_key(u.unit, c["text"])[0]
    model = M.database().meaning(c["ast"]).key()
    if key != model:
        raise Violation(f"{c['text']!r} expands to {text!r}: {key}, not {model}")


SUBCHECKS = [
    Prop("expanded", lambda: G.from_bytes(case, 112), expanded, 2500, 100000,
         "units of the database under every operator; non-trivial: three nodes or more, and a meaning"),
    Prop("date", lambda: G.from_bytes(date_case, 64), date, 800, 30000, "date units"),
]  # fmt: skip


def setup():
    sut.system()

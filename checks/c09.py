"""C09: the dimensionality of a unit is the one its definition implies."""

from vlib import gen as G, model as M, pools as P, sut
from vlib.harness import Prop, Violation
from checks.c01 import small

PROPERTY = "C09"
ASSUMPTIONS = [
    "the snapshot of the UDUNITS-2 database in /verif/data is the authority",
]


def any_case(src):
    """Every operator, over names of every kind."""
    ids = [P.name(src) for _ in range(3)]
    if src.chance(35):
        ids.append(src.of(P.names("off")))
    ast = G.gen_ast(src, ids=ids, leaves=6, exp=small)
    return no_time_shift(ast)


def no_time_shift(ast):
    """The same without the shifts which make a date (those are C18's)."""
    if ast[0] == "shift":
        inner = no_time_shift(ast[1])
        if M.database().dims(inner) == {"second": 1}:
            return inner
        return ["shift", inner, ast[2]]
    return [ast[0], *(no_time_shift(c) if isinstance(c, list) else c for c in ast[1:])]


def logs_allowed(ast):
    """UDUNITS-2 refuses logarithms in products (other than with a
    dimensionless unit) and powers; what those are is not claimed."""
    db = M.database()

    def go(n):
        # -> has a value transformation
        if n[0] == "id":
            return db.named(n[1]).linear() is None
        if n[0] in ("mul", "div"):
            a, b = go(n[1]), go(n[2])
            if b and n[0] == "div":
                raise M.ModelError("division by a logarithm")
            if (a and (b or db.dims(n[2]))) or (b and db.dims(n[1])):
                raise M.ModelError("logarithm times a unit")
            return a or b
        if n[0] == "log":
            go(n[2])
            return True
        if n[0] == "pow":
            if go(n[1]) and n[2] != 1:
                raise M.ModelError("power of a logarithm")
            return go(n[1])
        if n[0] == "shift":
            return go(n[1])
        return False

    try:
        go(ast)
        return True
    except M.ModelError:
        return False


def consistent(u, want, text):
    d = u.dimensionality()
    items = {str(k): v for k, v in d.items()}
    if items != want:
        raise Violation(f"{text!r} has the dimensionality {items}, not {want}")
    if not (d == want) or d == {**want, "no such unit": 1}:
        raise Violation(f"{text!r}: {d} == {want} is {d == want}")
    if len(d) != len(want) or sorted(map(str, d.keys())) != sorted(want):
        raise Violation(f"{text!r}: keys {list(map(str, d.keys()))}")
    if sorted(d.values()) != sorted(want.values()):
        raise Violation(f"{text!r}: values {list(d.values())}")
    for v in d.values():
        if type(v) is not int:
            raise Violation(f"{text!r}: order {v!r} is not an int")
    # As a value: equal to itself, to the same mapping of names, and to nothing else.
    more = {**want, "no such unit": 1}
    less = dict(list(want.items())[1:])
    yes = [d == d, d == want, want == d, not (d != want), not (d != d), d == u.dimensionality(),
           d.inverted().inverted() == d, (d.inverted() == d) is (not want)]  # fmt: skip
    no = [d == more, more == d, d == None, d == 0, d == "", d == tuple(want.items())]  # noqa: E711
    if want:
        no += [d == less, not d == want, d == {k: v + 1 for k, v in want.items()}]
    if not all(x is True for x in yes) or any(x is not False for x in no):
        raise Violation(f"{text!r}: {d} compares as {yes} (all True) and {no} (all False)")
    if str(d) != str(dict(zip(map(str, d.keys()), d.values()))):
        raise Violation(f"{text!r}: the dimensionality is shown as {str(d)!r}")
    inv = {str(k): v for k, v in d.inverted().items()}
    if inv != {k: -v for k, v in want.items()}:
        raise Violation(f"{text!r}: inverted dimensionality {inv}")
    if u.is_dimensionless() != (not want):
        raise Violation(f"{text!r}: is_dimensionless() is {u.is_dimensionless()}")
    if bool(u.is_time_unit()) != (want == {"second": 1}):
        raise Violation(f"{text!r}: is_time_unit() is {u.is_time_unit()}")


def structural(ast, st):
    if not logs_allowed(ast):
        st.label("product of logarithms (not claimed)")
        return
    text = G.plain_text(ast)
    want = M.database().dims(ast)
    ops = {n[0] for n in M.walk(ast)}
    st.nontrivial(len(M.identifiers(ast)) > 1 or len(ops) > 2)
    for o in ops:
        st.label("has " + o)
    st.label("dimensionless", not want)
    st.label("time", want == {"second": 1})
    consistent(sut.unit(text), want, text)


def product_case(src):
    ast = P.product(src, most=5)
    return ast


def cancel_case(src):
    """Products which are (nearly) dimensionless, or a time."""
    a = P.product(src, most=3)
    dims = M.database().dims(a)
    target = dict(src.of([{}, {"second": 1}, {}, {"second": 1}, {"meter": 1}]))
    for k, v in dims.items():
        target[k] = target.get(k, 0) - v
    b = P.of_dimensionality(src, target)
    return ["mul", a, b] if src.pick(2) else ["div", a, ["pow", b, -1]]


def named_case(src):
    kind = src.of(["lin", "off", "log"])
    return ["id", src.of(P.names(kind))] if src.chance(50) else ["id", P.name(src, kind)]


SUBCHECKS = [
    Prop("structural", lambda: G.from_bytes(any_case, 96), structural, 9000, 200000,
         "any operator over any names; the orders are compared with the model's; "
         "non-trivial: several names or operators"),
    Prop("product", lambda: G.from_bytes(product_case, 64), structural, 8000, 200000,
         "products of powers of named and prefixed units"),
    Prop("cancel", lambda: G.from_bytes(cancel_case, 96), structural, 8000, 200000,
         "products whose orders cancel out to none or to a time"),
    Prop("long", lambda: G.from_bytes(P.long_product, 200), structural, 800, 30000,
         "products and quotients of 8 to 40 factors, of few names"),
    Prop("named", lambda: G.from_bytes(named_case, 16), structural, 3000, 20000,
         "single names of the database"),
]  # fmt: skip


def setup():
    sut.system()

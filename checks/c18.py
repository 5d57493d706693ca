"""C18: a time unit since a date is a date unit, and nothing else is."""

from vlib import gen as G, model as M, pools as P, refgrammar as R, sut
from vlib.harness import Enum, Prop, Violation
from checks.c01 import small

PROPERTY = "C18"
ASSUMPTIONS = [
    "reference dates are texts within the documented grammar; what day they are is not claimed "
    "(pyudunits2 keeps the text)",
    "shifts of logarithms of a time are not generated",
]


def two(src, top, low=0):
    n = low + src.pick(top - low + 1)
    return f"{n:02d}" if src.chance(60) else str(n)


def date_text(src):
    text = any_date_text(src)
    try:
        # e.g. "2000-1-1 0-5:00": the hour and the time zone read as a date
        R.parse("s @ " + text)
    except R.Reject:
        text = "2000-01-01"
    return text


def any_date_text(src):
    """A reference date within the documented grammar, in the spelling which
    is shown (the text is kept as it was written)."""
    year = src.of(["2000", "1970", "1", "1850", "0001", "1582", "+1990", "-44"])
    k = src.pick(8)
    if k == 0:
        text = year  # a bare year
        return text
    text = f"{year}-{two(src, 12, 1)}"
    if k == 1:
        return text
    text += f"-{two(src, 31, 1)}"
    if k == 2:
        return text
    if k == 3:
        return text + src.of([" ", ""]) + src.of(["UTC", "Z", "GMT"])
    text += src.of([" ", " ", "T"]) + two(src, 23)
    if k > 4:
        text += f":{two(src, 59)}"
        if k > 5:
            text += f":{two(src, 59)}" + src.of(["", "", ".5", ".", ".001"])
    if src.chance(40):
        text += src.of([" ", ""]) + src.of(["UTC", "Z", "GMT", "+1:30", "-5:00"])
    return text


TIME = {"second": 1}
WORDS = [" since ", " @ ", " from ", " after ", " ref ", " @", "  @ "]


def inner(src, dims=None):
    k = src.pick(4)
    if dims is None:
        return P.product(src, most=3)
    if k == 0 and P.dims_key(dims) in P.by_dims():
        return ["id", P.of_dims(src, P.dims_key(dims))]
    return P.of_dimensionality(src, dims)


def origin_text(src):
    k = src.pick(5)
    if k < 3:
        return date_text(src)
    if k == 3:
        return G.num_text(src)
    # packed forms
    return src.of(["19900101", "19900101T1201", "20000101T10", "1990010", "19900101T120130", "20000101T100000 UTC"])


def root_case(src):
    dims = src.of([TIME, TIME, TIME, {}, {"second": -1}, {"second": 2}, {"meter": 1}, {"kelvin": 1},
                   {"meter": 1, "second": 1}, None])  # fmt: skip
    ast = inner(src, dims)
    return {"ast": ast, "text": G.spell(src, ast, padding=False)["text"].strip(),
            "op": src.of(WORDS), "from": origin_text(src)}  # fmt: skip


def root(case, st):
    from pyudunits2 import Converter, DateUnit, IncompatibleUnitsError, Unit

    db = M.database()
    ast, origin = case["ast"], case["from"]
    text = case["text"] + case["op"] + origin
    try:
        tree = R.parse(text)
    except R.Reject:
        st.label("outside the grammar")
        return
    if tree[0] not in ("shift", "date") or tree[2] != origin:
        st.label("not what was meant")
        return
    dims = db.dims(ast)
    time = dims == TIME
    st.nontrivial()
    if not time and tree[0] == "date":
        st.label("a date for a unit which is no time")
        try:
            u = sut.unit(text)
        except ValueError:
            return
        raise Violation(f"{text!r} is accepted as {u} ({type(u).__name__})")
    u = sut.unit(text)
    if not time:
        st.label("an origin")
        if isinstance(u, DateUnit) or not isinstance(u, Unit):
            raise Violation(f"{text!r} is a {type(u).__name__}")
        if sut.dims(u) != dims:
            raise Violation(f"{text!r} has the dimensionality {sut.dims(u)}, not {dims}")
        return
    st.label("date unit since a " + ("date" if tree[0] == "date" else "number"))
    if not isinstance(u, DateUnit) or isinstance(u, Unit):
        raise Violation(f"{text!r} is a {type(u).__name__}, not a date unit")
    if str(u.reference_date) != origin:
        raise Violation(f"the reference date of {text!r} is {u.reference_date}, not {origin}")
    plain = sut.unit(case["text"])
    if type(u.unit) is not Unit and not isinstance(u.unit, Unit):
        raise Violation(f"the unit of {text!r} is {u.unit!r}")
    if str(u.unit) != str(plain) or u.unit.expanded() != plain.expanded():
        raise Violation(f"the unit of {text!r} is {u.unit}, not {plain}")
    if not (u.unit == plain):
        raise Violation(f"the unit of {text!r}, {u.unit}, is not equal to {plain}")
    if sut.dims(u) != TIME or sut.dims(u.unit) != TIME:
        raise Violation(f"{text!r} has the dimensionality {sut.dims(u)}")
    if u.is_time_unit() is not True or u.is_dimensionless() is not False:
        raise Violation(f"{text!r}: is_time_unit {u.is_time_unit()}, is_dimensionless {u.is_dimensionless()}")
    for a, b in ((u, plain), (plain, u), (u, u)):
        if a.is_convertible_to(b):
            raise Violation(f"{a} is convertible to {b}")
        try:
            Converter(a, b)
        except IncompatibleUnitsError:
            continue
        raise Violation(f"{a} has a converter to {b}")


# -- Dates which are not at the root


def nested_case(src):
    """An operator around a shift of a time unit (or of another)."""
    time = not src.chance(30)
    part = ["shift", inner(src, TIME) if time else inner(src, src.of([{"kelvin": 1}, {"meter": 1}, {}])), None]
    origin = src.of(["2000", "0", "5.5"]) if src.chance(50) else date_text(src)
    rounds = 1 + src.pick(2)
    node = ["mark"]
    for _ in range(rounds):
        k = src.pick(7)
        other = src.of([["id", P.name(src)], ["num", P.factor(src)]])
        if k == 0:
            node = ["mul", node, other]
        elif k == 1:
            node = ["mul", other, node]
        elif k == 2:
            node = ["div", node, other]
        elif k == 3:
            node = ["div", other, node]
        elif k == 4:
            node = ["pow", node, src.of([1, 2, -1, 0])]
        elif k == 5 and rounds == 1:
            node = ["log", src.of(G.LOGS), node]
        else:
            node = ["shift", node, "7"]
    return {"outer": node, "part": part[1], "from": origin, "time": time,
            "dated": R.parse("s @ " + origin)[0] == "date"}


def fill(node, part):
    if node == ["mark"]:
        return part
    return [node[0], *(fill(c, part) if isinstance(c, list) else c for c in node[1:])]


def nested(case, st):
    from pyudunits2 import DateUnit

    db = M.database()
    part = case["part"]
    origin = case["from"]
    shifted = ["shift", part, origin]
    ast = fill(case["outer"], shifted)
    text = G.plain_text(ast)
    if case["time"] or case.get("dated"):
        st.nontrivial()
        st.label("a date of another unit", not case["time"])
        try:
            u = sut.unit(text)
        except ValueError as err:
            if isinstance(err, UnicodeError):
                raise Violation(f"{text!r}: {err!r}")
            if isinstance(err, SyntaxError):
                raise Violation(f"{text!r} is not read")
            st.label("refused")
            return
        raise Violation(f"{text!r} is accepted as {u} ({type(u).__name__})")
    # The same around an origin is fine, unless it becomes a date by itself.
    for n in M.walk(ast):
        if n[0] == "shift" and db.dims(n[1]) == TIME:
            st.label("the outer shift is a date")
            return
    u = sut.unit(text)
    st.label("origin")
    if isinstance(u, DateUnit):
        raise Violation(f"{text!r} is a date unit")
    if sut.dims(u) != db.dims(ast):
        raise Violation(f"{text!r} has the dimensionality {sut.dims(u)}, not {db.dims(ast)}")


# -- Shifts without a space


COMPACT = [
    [inner_text, op, origin]
    for inner_text in ("s", "seconds", "10 s", "(s)", "m s m-1", "s1")
    for op in ("@", "@ ", " @")
    for origin in ("2000-01-01", "2000-01-01 12:00", "2000", "1990-01-01T00:00:00 UTC", "19900101T1200")
]


def compact(case, st):
    from pyudunits2 import DateUnit

    text = "".join(case)
    st.nontrivial()
    try:
        u = sut.unit(text)
    except SyntaxError:
        raise Violation(f"{text!r} is refused")
    if not isinstance(u, DateUnit) or str(u.reference_date) != case[2]:
        raise Violation(f"{text!r} is read as {u}")


SUBCHECKS = [
    Prop("root", lambda: G.from_bytes(root_case, 128), root, 3500, 120000,
         "shifts of time units and others, by dates and by numbers; non-trivial: within the grammar"),
    Prop("nested", lambda: G.from_bytes(nested_case, 96), nested, 3500, 120000,
         "operators around a shifted unit; non-trivial: it is a time unit or shifted by a date, so that the whole "
         "is to be refused"),
    Enum("compact", lambda tier, seed: COMPACT, compact,
         "shifts with and without spaces around the operator"),
]  # fmt: skip


def setup():
    sut.system()

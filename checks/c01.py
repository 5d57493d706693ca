"""C01: the structure of an expression is the one UDUNITS-2 reads."""

from decimal import Decimal

from vlib import gen as G, model as M, pools as P, sut
from vlib.harness import Enum, Prop, Violation

PROPERTY = "C01"
ASSUMPTIONS = [
    "the reference printer (vlib.model.canon) states the canonical text",
    "UDUNITS-2's own C library (cf_units) is right about the meaning of a text",
]


def structure_case(src):
    ast = G.gen_ast(src)
    if not G.date_safe(ast):
        ast = _rename(ast)
    return G.spell(src, ast)


def long_case(src):
    """Products and quotients of up to a hundred factors."""
    ids = ["m", "s", "kg", "foo", "K", "µm"]
    ast = None
    for _ in range(20 + src.pick(80)):
        x = ["id", src.of(ids)] if src.chance(80) else ["num", str(1 + src.pick(99))]
        if src.chance(30):
            x = ["pow", x, src.of([2, -1, 3, -2, 10])]
        ast = x if ast is None else [src.of(["mul", "mul", "div"]), ast, x]
    return G.spell(src, ast)


def _rename(ast):
    if ast[0] == "id":
        return ["id", "u" if ast[1] in M.SHIFT_WORDS else ast[1]]
    return [_rename(c) if isinstance(c, list) else c for c in ast]


def observe(st, case):
    ast = case["ast"]
    ops = [n[0] for n in M.walk(ast)]
    st.nontrivial(sum(o in ("mul", "div", "pow", "shift", "log") for o in ops) >= 2)
    for how in case["how"]:
        st.label("spelling: " + how)
    for o in set(ops):
        st.label("has " + o)


def structure(case, st):
    from pyudunits2._grammar import normalize

    observe(st, case)
    want = M.canon(case["ast"])
    try:
        got = normalize(case["text"])
    except SyntaxError as err:
        raise Violation(f"{case['text']!r} is refused ({err}); it denotes {want!r}")
    if got != want:
        raise Violation(f"{case['text']!r} is read as {got!r}, not as {want!r}")


def resolved_case(src):
    """The same through UnitSystem.unit, with names of the database."""
    ids = [P.name(src) for _ in range(4)]
    ast = G.gen_ast(src, ids=ids, leaves=5, shifts=False, logs=False, exp=small)
    if src.chance(25) and M.database().dims(ast) != {"second": 1}:
        ast = ["shift", ast, G.num_text(src)]
    return G.spell(src, ast)


def number_case(src):
    return {"number": G.wide_number(src), "in": src.of(PLACES)}


PLACES = ["{}", "{} m", "m {}", "m*{}", "m/{}", "m*({})", "K @ {}", "lg(re {} m)", "({} m)^2", "s since {}", "{}/s"]


def number(case, st):
    """The numbers of a text are read exactly as they are written."""
    from pyudunits2._expr import graph
    from pyudunits2._grammar import parse

    text = case["in"].format(case["number"])
    st.label(case["in"])
    st.nontrivial(len(case["number"]) > 4)
    try:
        tree = parse(text)
    except SyntaxError as err:
        raise Violation(f"{text!r} is refused ({err})")
    found, todo = [], [tree]
    while todo:
        node = todo.pop()
        todo += node.children()
        if isinstance(node, graph.Number):
            found.append(node.content)
    if case["in"] == "({} m)^2":
        found.remove(2)
    want = Decimal(case["number"])
    if len(found) != 1 or found[0] != want:
        raise Violation(f"{text!r} is read with the numbers {found}, not {want}")
    if M.INT.fullmatch(case["number"]) and not isinstance(found[0], int):
        raise Violation(f"{text!r} is read with a {type(found[0]).__name__}, not an integer")


def small(src):
    return src.of([2, 1, -1, 3, -2, 0, 4, -3])


def resolved(case, st):
    observe(st, case)
    want = M.canon(case["ast"])
    got = str(sut.unit(case["text"]))
    if got != want:
        raise Violation(f"{case['text']!r} is the unit {got!r}, not {want!r}")


def meaning_case(src):
    ids = [P.name(src) for _ in range(3)]
    ast = G.gen_ast(src, ids=ids, leaves=4, shifts=False, logs=False, exp=small)
    if src.chance(30):
        dims = M.database().dims(ast)
        if dims != {"second": 1}:
            ast = ["shift", ast, G.num_text(src)]
    return G.spell(src, ast, udunits=True)


def meaning(case, st):
    """The text pyudunits2 reads, given back to the model, means what the C
    library says that the original text means."""
    from pyudunits2._grammar import normalize

    observe(st, case)
    db = M.database()
    try:
        want = db.meaning(case["ast"])
    except M.ModelError:
        return  # 0 as a divisor
    text = case["text"]
    basis = sut.basis_text(want.dims)
    if not P.in_range(want, 150) or sut.c_unit(text) is None:
        st.label("C library has no opinion")
        return
    values = [(x, sut.c_convert(text, basis, x)) for x in (1.0, 5.0)]
    st.label("C library was asked")
    read = normalize(text)
    try:
        unit = db.meaning(M.parse(read))
    except M.ModelError as err:
        raise Violation(f"{text!r} is read as {read!r} ({err})")
    for x, c in values:
        if c is None:
            continue
        v = float(unit.fwd(M.Fraction(x)))
        w = float(want.fwd(M.Fraction(x)))
        if unit.dims != want.dims or not sut.same(v, c, 1e-6, abs(w)):
            if sut.same(w, c, 1e-6):
                raise Violation(
                    f"{text!r} is read as {read!r}: {x} of it would be {v} {basis}, "
                    f"UDUNITS-2 says {c}"
                )
            st.label("C library disagrees with the model (skipped)")


# What UDUNITS-2 accepts, and the documented grammar of pyudunits2 does not.
CORPUS = [
    ["m -.5", ["mul", ["id", "m"], ["num", "-.5"]]],
    ["-.5 m", ["mul", ["num", "-.5"], ["id", "m"]]],
    ["+.5 m", ["mul", ["num", "+.5"], ["id", "m"]]],
    ["K  @ 273.15", ["shift", ["id", "K"], "273.15"]],
    ["m2.s", ["mul", ["pow", ["id", "m"], 2], ["id", "s"]]],
    ["(m).s", ["mul", ["id", "m"], ["id", "s"]]],
    ["(K @ 1) 2-1", ["mul", ["shift", ["id", "K"], "1"], ["pow", ["num", "2"], -1]]],
    ["(K @ 1) T", ["mul", ["shift", ["id", "K"], "1"], ["id", "T"]]],
]


def corpus(case, st):
    text, ast = case
    st.nontrivial()
    if sut.c_unit(text) is None:
        st.label("C library refuses")
        return
    structure({"text": text, "ast": ast, "how": []}, st)


SUBCHECKS = [
    Prop(
        "structure",
        lambda: G.from_bytes(structure_case, 128),
        structure,
        8000,
        400000,
        "an expression tree is made first, then one of its spellings; "
        "non-trivial: at least two operators",
    ),
    Prop(
        "resolved",
        lambda: G.from_bytes(resolved_case, 112),
        resolved,
        2400,
        100000,
        "the same through UnitSystem.unit with names of the database",
    ),
    Prop("long", lambda: G.from_bytes(long_case, 700), structure, 250, 10000,
         "products and quotients of 20 to 100 factors"),
    Prop("number", lambda: G.from_bytes(number_case, 110), number, 2500, 100000,
         "a number of any length and magnitude in an expression; non-trivial: five characters or more"),
    Prop(
        "meaning",
        lambda: G.from_bytes(meaning_case, 112),
        meaning,
        4000,
        200000,
        "spellings the C library accepts: what is read has the size and the "
        "dimensions which the C library gives the text",
    ),
    Enum(
        "udunits",
        lambda tier, seed: CORPUS,
        corpus,
        "spellings only the C library accepts",
    ),
]


def setup():
    sut.system()

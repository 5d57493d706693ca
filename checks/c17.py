"""C17: units are equal exactly when they mean the same."""

from decimal import Decimal, localcontext
from fractions import Fraction
from functools import lru_cache

from vlib import gen as G, model as M, pools as P, sut
from vlib.harness import Enum, Prop, Violation
from checks.c09 import no_time_shift

PROPERTY = "C17"
ASSUMPTIONS = [
    "the numbers of the database's definitions are the decimal numbers which are written there",
]


def literals(key):
    db = M.database()
    definition = db.defs[key]
    if definition is None:
        return []
    ast = M.parse(definition)
    out = [n[1] for n in M.walk(ast) if n[0] == "num"]
    out += [n[2] for n in M.walk(ast) if n[0] == "shift"]
    if any(n[0] in ("div", "pow") for n in M.walk(ast)):
        out.append("0.1")  # keep to the plainest definitions
    for i in M.identifiers(ast):
        prefix, k = db.lookup(i)
        out += ([prefix] if prefix else []) + literals(k)
    return out


@lru_cache(maxsize=None)
def integral():
    """The names whose definitions are made of integers."""
    db = M.database()
    return [n for n in P.names("lin")
            if all(t.lstrip("+-").isdigit() for t in literals(db.names[n]))]  # fmt: skip


@lru_cache(maxsize=None)
def groups():
    """Names of the same dimensionality among those."""
    db = M.database()
    out: dict = {}
    for n in integral():
        out.setdefault(P.dims_key(db.named(n).dims), []).append(n)
    return out


def respell(src, text):
    """Another way to write a number."""
    sign = "-" if text.startswith("-") else ""
    d = Decimal(text.lstrip("+-"))
    k = src.pick(8)
    e = d.as_tuple().exponent
    digits = "".join(map(str, d.as_tuple().digits))
    if k == 0:
        return sign + digits + f"e{e}"
    if k == 1:
        n = 1 + src.pick(3)
        return sign + digits + "0" * n + src.of(["e", "E"]) + str(e - n)
    if k == 2:
        return sign + "0." + digits + f"E{e + len(digits)}"
    if k == 3:
        return sign + digits[0] + "." + digits[1:] + "0" * src.pick(3) + f"e{e + len(digits) - 1}"
    if abs(e) > 25:
        return text
    plain = f"{d:f}"
    if k == 4:
        return sign + (plain if "." in plain else plain + ".") + "0" * (1 + src.pick(2))
    if k == 5:
        return sign + "0" + plain
    if k == 6 and plain.startswith("0.") and not sign:
        return sign + plain[1:]
    return sign + plain


def numbers_respelt(src, ast):
    """The same with its numbers written in other ways."""
    if ast[0] == "num":
        return ["num", respell(src, ast[1])]
    if ast[0] == "shift":
        return ["shift", numbers_respelt(src, ast[1]), respell(src, ast[2])]
    return [ast[0], *(numbers_respelt(src, c) if isinstance(c, list) else c for c in ast[1:])]


def exact_case(src):
    parts = []
    for _ in range(1 + src.pick(4)):
        if src.chance(20):
            parts.append((["num", str(src.pick(60) + 1)], src.of([1, 1, 2, -1])))
        else:
            parts.append((["id", src.of(integral())], src.of([1, 1, 2, -1, -2, 3, 0])))
    a = P.combine(src, parts)
    k = src.pick(5)
    if k <= 1:
        b = rearrange(src, a)
    elif k == 2:
        b = substitute(src, rearrange(src, a))
    else:
        b = rearrange(src, P.combine(src, tweak(src, parts)))
    top = src.pick(10)
    if top == 7:
        n, m = src.pick(40), src.pick(40)
        a = ["shift", a, str(n)]
        b = ["shift", b, str(n)] if src.pick(2) else \
            ["shift", ["shift", b, str(m)], str(n - m)]  # fmt: skip
    elif top == 8:
        a, b = (["log", src.of(["lg", "lg", "ln", "log", "lb"]), x] for x in (a, b))
    elif top == 9:
        b = ["pow", b, 1]
    a, b = no_time_shift(a), no_time_shift(b)
    return [a, numbers_respelt(src, b) if src.pick(2) else b]


def tweak(src, parts):
    """Something slightly different."""
    parts = list(parts)
    i = src.pick(len(parts))
    node, order = parts[i]
    k = src.pick(4)
    if k == 0:
        parts[i] = (node, order + src.of([1, -1]))
    elif k == 1:
        parts.append((["num", src.of(["2", "60", "10", "1"])], src.of([1, -1])))
    elif k == 2:
        parts[i] = (["id", src.of(integral())], order)
    else:
        parts[i] = (node, -order)
    return parts


def rearrange(src, ast):
    op = ast[0]
    if op in ("mul", "div"):
        a, b = rearrange(src, ast[1]), rearrange(src, ast[2])
        if op == "div":
            return ["mul", ["pow", b, -1], a] if src.pick(2) else ["div", a, b]
        k = src.pick(4)
        if k == 1:
            return ["mul", b, a]
        if k == 2:
            return ["div", a, ["pow", b, -1]]
        if k == 3 and a[0] == "mul":
            return ["mul", a[1], ["mul", a[2], b]]
        return ["mul", a, b]
    if op == "pow":
        base = rearrange(src, ast[1])
        n = ast[2]
        if n == 2 and src.pick(2):
            return ["mul", base, base]
        if n == 3 and src.pick(2):
            return ["mul", ["pow", base, 2], base]
        if n == -2 and src.pick(2):
            return ["pow", ["pow", base, 2], -1]
        return ["pow", base, n]
    if op == "id" and src.chance(10):
        return ["mul", ast, ["num", "1"]]
    return ast


def substitute(src, ast):
    """Replace a name by its definition, or by another name and a factor."""
    db = M.database()
    if ast[0] == "id":
        u = db.named(ast[1])
        key = P.dims_key(u.dims)
        other = src.of(groups()[key])
        ratio = u.scale / db.named(other).scale
        if ratio == 1:
            return ["id", other]
        if ratio.denominator == 1 and ratio < 10**12:
            return ["mul", ["num", str(ratio)], ["id", other]]
        if ratio.numerator == 1 and ratio.denominator < 10**12:
            return ["div", ["id", other], ["num", str(ratio.denominator)]]
        return ast
    return [ast[0], *(substitute(src, c) if isinstance(c, list) else c for c in ast[1:])]


def meaning(ast):
    try:
        return M.database().meaning(ast)
    except M.ModelError:
        return None


def ask(u, v, want, what):
    for x, y, how in ((u, v, "=="), (v, u, "== (swapped)")):
        got = x == y
        if got is not want:
            raise Violation(f"{what}: {how} is {got!r}")
        if (x != y) is want:
            raise Violation(f"{what}: != agrees with {how}")


def exact(case, st):
    a, b = case
    ua, ub = meaning(a), meaning(b)
    if ua is None or ub is None:
        return
    want = ua.key() == ub.key()
    ta, tb = G.plain_text(a), G.plain_text(b)
    st.label("equal" if want else "different")
    st.label("different, of one dimensionality", not want and ua.dims == ub.dims)
    st.nontrivial(ta != tb)
    u, v = sut.unit(ta), sut.unit(tb)
    ask(u, v, want, f"{ta!r} and {tb!r}")
    ask(u, u, True, f"{ta!r} and itself")


def decimal_ratio(ratio):
    """As the text of a number, if it is a (short) decimal one."""
    n = ratio.denominator
    for p in (2, 5):
        while n % p == 0:
            n //= p
    if n != 1:
        return None
    with localcontext() as context:
        context.prec = 60
        d = Decimal(ratio.numerator) / Decimal(ratio.denominator)
        text = str(d.normalize())
    return text if Fraction(text) == ratio and len(text) < 40 and abs(d.adjusted()) < 60 else None


def scaled(src, node, ratio):
    """ratio * node, for any ratio."""
    text = decimal_ratio(ratio)
    if text is not None and src.pick(3):
        return src.of([["mul", ["num", text], node], ["mul", node, ["num", text]]])
    num, den = decimal_ratio(Fraction(ratio.numerator)), decimal_ratio(Fraction(ratio.denominator))
    if num is None or den is None:
        return None
    return ["div", ["mul", ["num", num], node], ["num", den]]


def another(src, ast):
    """A name as a multiple of another, of any size."""
    db = M.database()
    if ast[0] == "id":
        u = db.named(ast[1])
        if u.kind != "lin":
            return ast
        same = P.by_dims().get(P.dims_key(db.real_dims(u.dims)), [])
        other = src.of(same or [ast[1]])
        v = db.named(other)
        if v.dims != u.dims:  # (of other dimensionless units)
            return ast
        return scaled(src, ["id", other], u.scale / v.scale) or ast
    return [ast[0], *(another(src, c) if isinstance(c, list) else c for c in ast[1:])]


def nudge(src, ast):
    """With a factor which is nearly one."""
    return ["mul", ast, ["num", src.of(["1.0000001", "0.999999999", "1.00000000000000001", "1e0", "1.", "10e-1",
                                        "0.99999999999999999999"])]]  # fmt: skip


def inexact_case(src):
    """Any names and numbers: written in another way they are still equal;
    anything which differs, by however little, is not."""
    parts = [(["id", P.name(src)], 1)]
    for _ in range(src.pick(3)):
        node = ["num", src.of(["0.1", "0.3", "1e-3", "2.54", "3", "0.7", "1.1", "1e5"])] if src.pick(2) else \
            ["id", P.name(src)]  # fmt: skip
        parts.append((node, src.of([1, 1, 2, -1, -2, 3])))
    a = P.combine(src, parts)
    k = src.pick(6)
    if k == 0:
        b = P.combine(src, parts)
    elif k == 1:
        b = P.of_dimensionality(src, M.database().dims(a))
    elif k == 2:
        b = rearrange(src, a)
    elif k == 3:
        b = nudge(src, rearrange(src, a))
    else:
        b = another(src, rearrange(src, a))
    if src.chance(30):
        x = src.of(["0.1", "0.3", "273.15", "-1", "1e-3", "-0.7"])
        y = src.of([x, x, "273.15000000000001", "0"])
        a = ["shift", a, x]
        b = ["shift", ["shift", b, "0.1"], str(Decimal(y) - Decimal("0.1"))] if src.pick(2) else ["shift", b, y]
    a, b = no_time_shift(a), no_time_shift(b)
    return [a, numbers_respelt(src, b) if src.pick(2) else b]


def inexact(case, st):
    a, b = case
    ua, ub = meaning(a), meaning(b)
    if ua is None or ub is None:
        return
    if not all(P.in_range(u, 200) for u in (ua, ub) if u.kind == "lin"):
        return
    want = origin_key(ua) == origin_key(ub)
    ta, tb = G.plain_text(a), G.plain_text(b)
    st.label("equal" if want else "different")
    st.label("different, of one dimensionality", not want and ua.dims == ub.dims)
    st.nontrivial(ta != tb)
    ask(sut.unit(ta), sut.unit(tb), want, f"{ta!r} and {tb!r}")


def alias_cases(tier, seed):
    """The spellings of each unit of the database, in pairs."""
    db = M.database()
    by_key: dict = {}
    for key, s, _ in db.entries:
        if P.usable(s) and P.readable(key) and db.names[s] == key:
            by_key.setdefault(key, []).append(s)
    out = []
    for key, names in sorted(by_key.items()):
        for s in names[1:]:
            out.append([names[0], s])
    return out + [["1", ""], ["", "1.0"], ["", "  "], ["m/m", ""], ["", "100 percent"]]


@lru_cache(maxsize=None)
def other_system():
    return sut.fresh_system()


def alias(case, st):
    a, b = case
    st.nontrivial()
    forms = [(sut.unit(t), repr(t)) for t in (a, b)]
    for s, which in ((sut.system(), "here"), (other_system(), "in another system")):
        forms += [(s.unit_by_name_or_symbol(t), f"{t!r} looked up {which}") for t in (a, b) if t in M.database().names]
    u = forms[0][0]
    for v, what in forms:
        ask(u, v, True, f"{a!r} and {what}")
        try:
            hashes = hash(u), hash(v)
        except TypeError:
            continue  # most units don't have a hash
        if hashes[0] != hashes[1]:
            raise Violation(f"{a!r} and {what} are equal and have different hashes")
    for v, what in forms[2:]:
        u, seen = forms[2][0], None
        try:
            seen = hash(u) == hash(v)
        except TypeError:
            continue
        if not seen:
            raise Violation(f"{forms[2][1]} and {what} are equal and have different hashes")


def kelvins_case(src):
    """Units with an origin: equal when both the size and the origin are."""
    def one():
        base = ["id", src.of(["K", "kelvin", "m", "kg", "candela", "Pa", "degK"])]
        if src.pick(2):
            base = ["mul", ["num", str(src.pick(3) + 1)], base]
        for _ in range(src.pick(3)):
            base = ["shift", base, str(src.pick(4) - 1)]
        if src.chance(15):
            base = ["mul", base, ["num", "1"]]
        if src.chance(15):
            base = ["log", "lg", base]
            if src.pick(2):
                base = ["shift", base, str(src.pick(3))]
        return base
    a, b = one(), one()
    return [a, numbers_respelt(src, b)]


def origin_key(u):
    """Like key(), with an origin of zero being none."""
    if isinstance(u, M.Off):
        inner = origin_key(u.unit)
        return inner if u.origin == 0 else ("off", inner, u.origin)
    if isinstance(u, M.Log):
        return ("log", "lg" if u.fn == "log" else u.fn, origin_key(u.ref))
    return u.key()


def kelvins(case, st):
    a, b = case
    ua, ub = meaning(a), meaning(b)
    if ua is None or ub is None or "scaled" in (ua.kind, ub.kind):
        return
    want = origin_key(ua) == origin_key(ub)
    ta, tb = G.plain_text(a), G.plain_text(b)
    st.label("equal" if want else "different")
    st.nontrivial(ta != tb)
    ask(sut.unit(ta), sut.unit(tb), want, f"{ta!r} and {tb!r}")


def sizes_case(src):
    """The same unit with two factors, at any magnitude, close to each other or not."""
    mantissa, exponent = 1 + src.pick(999), src.of([0, 0, 1]) * src.pick(60) - src.of([0, 1]) * src.pick(60)
    other = [mantissa, exponent]
    k = src.pick(5)
    if k == 0:
        other = [mantissa + 1, exponent]
    elif k == 1:
        other = [mantissa, exponent + src.of([1, -1, 7])]
    elif k == 2:
        places = src.of([6, 8, 10, 11])
        other = [10**places * mantissa + src.of([1, -1, 13]), exponent - places]
    elif k == 3:
        other = [-mantissa, exponent]
    base = src.of(["", "m", "rad", "kg m2", "Hz", "count", "mol-1", "mm", "µg"])
    numbers = [f"{m}e{e}" for m, e in ([mantissa, exponent], other)]
    if src.chance(25):  # integers, of any length
        base = src.of(["", "m", "rad", "kg m2", "Hz", "count", "mol-1", "kilogram/(meter.s2)"])
        n = (1 + src.pick(999)) * 10 ** src.pick(25)
        numbers = [str(n), str(n + src.of([0, 1, -1, n]))]
    return {"numbers": numbers, "respelt": respell(src, numbers[0]), "base": base,
            "as": src.of(["factor", "factor", "divisor", "origin", "log"])}  # fmt: skip


def sizes(case, st):
    (x, y), base, how = case["numbers"], case["base"], case["as"]
    if how == "factor":
        pattern = swapped = "{} " + base
    elif how == "divisor":
        pattern = swapped = (base or "1") + "/{}"
    elif how == "origin":
        pattern = swapped = (base or "1") + " @ {}"
    else:
        pattern, swapped = "lg(re {} " + base + ")", "lg(re " + base + " {})"
    want = Fraction(x) == Fraction(y)
    st.label("equal" if want else "different")
    if want:
        y = case["respelt"]
    a, b = pattern.format(x).strip(), swapped.format(y)
    if how == "log" and not base:
        a, b = f"lg(re {x})", f"lg(re {y})"
    st.label(f"{'tiny' if abs(Fraction(x)) < Fraction(1, 10**12) else 'other'} {how}")
    st.nontrivial()
    ask(sut.unit(a), sut.unit(b), want, f"{a!r} and {b!r}")


def foreign_case(src):
    return G.plain_text(P.product(src, most=3))


def foreign(text, st):
    """A unit is not equal to what is no unit."""
    u = sut.unit(text)
    st.nontrivial()
    others = [None, text, str(u), 1, 1.0, {}, u.dimensionality(), object(), [u],
              sut.unit("days since 2000-01-01")]  # fmt: skip
    for o in others:
        if (u == o) is not False or (u != o) is not True or (o == u) is not False:
            raise Violation(f"{text!r} == {o!r} is {u == o!r}")


SUBCHECKS = [
    Enum("alias", alias_cases, alias, "every spelling of every unit with the first"),
    Prop("exact", lambda: G.from_bytes(exact_case, 96), exact, 2400, 100000,
         "products of units with integer definitions, rearranged, rewritten with other "
         "names or changed slightly; equal exactly when the model says so; "
         "non-trivial: different texts"),
    Prop("inexact", lambda: G.from_bytes(inexact_case, 96), inexact, 1600, 60000,
         "any names and numbers: rearranged, with other names and numbers written otherwise (equal) or "
         "different by however little (not equal); non-trivial: different texts"),
    Prop("origin", lambda: G.from_bytes(kelvins_case, 48), kelvins, 1600, 60000,
         "units with an origin"),
    Prop("sizes", lambda: G.from_bytes(sizes_case, 24), sizes, 1200, 40000,
         "a unit with two factors, divisors, origins or logarithmic references of any magnitude, equal or "
         "almost so"),
    Prop("foreign", lambda: G.from_bytes(foreign_case, 48), foreign, 200, 5000,
         "other objects"),
]  # fmt: skip


def setup():
    sut.system()

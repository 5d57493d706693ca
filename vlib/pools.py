"""Names of the unit database by what they mean, and expressions over them."""

from __future__ import annotations

from fractions import Fraction
from functools import lru_cache

from . import model as M

BASES = ["meter", "kilogram", "second", "ampere", "kelvin", "mole", "candela"]
# Words the lexer reads otherwise (documented limits, see known-findings.txt).
NOT_NAMES = M.KEYWORDS | M.SHIFT_WORDS


def usable(name: str) -> bool:
    return M.lexable(name) and name not in NOT_NAMES


@lru_cache(maxsize=None)
def readable(key) -> bool:
    """Whether the definition, and those it relies on, are within the
    characters which the grammar of pyudunits2 documents."""
    db = M.database()
    definition = db.defs[key]
    if definition is None:
        return True
    return all(
        M.lexable(i) and readable(db.lookup(i)[1])
        for i in M.identifiers(M.parse(definition))
    )


@lru_cache(maxsize=None)
def names(kind="lin"):
    """The usable database spellings which are plain multiples (lin), have an
    origin (off) or are logarithmic (log, scaled)."""
    db = M.database()
    out = []
    for key, spelling, _ in db.entries:
        if usable(spelling) and spelling not in out and readable(db.names[spelling]):
            if db.named(spelling).kind == kind:
                out.append(spelling)
    return out


def dims_key(dims: dict):
    return tuple(sorted(dims.items()))


@lru_cache(maxsize=None)
def by_dims():
    db = M.database()
    out: dict = {}
    for n in names("lin"):
        out.setdefault(dims_key(db.real_dims(db.named(n).dims)), []).append(n)
    return out


@lru_cache(maxsize=None)
def classes():
    """The dimensionalities with several names, most useful first."""
    return sorted(by_dims(), key=lambda k: (len(k), sum(abs(o) for _, o in k), k))


COMMON = [
    "m", "s", "kg", "K", "A", "mol", "cd", "g", "km", "mm", "h", "day", "min",
    "N", "J", "W", "Pa", "hPa", "Hz", "V", "ohm", "rad", "degree", "L", "inch",
    "foot", "mile", "pound", "year", "hour", "percent", "ppm", "bar", "pi",
    "eV", "sr", "tesla", "lx", "Bq",
]  # fmt: skip


@lru_cache(maxsize=None)
def prefixes():
    """Prefix spellings with their values; "" first."""
    db = M.database()
    table = dict(db.prefix_symbols)
    table.update(db.prefix_names)
    return [p for p in sorted(table) if M.lexable(p)]


@lru_cache(maxsize=None)
def long_prefixes():
    return [p for p in sorted(M.database().prefix_names) if M.lexable(p)]


def name(src, kind="lin"):
    """A name, possibly with a prefix; whatever it is read as, it is of the kind."""
    db = M.database()
    pool = names(kind)
    if kind == "lin" and src.chance(45):
        n = src.of(COMMON)
    else:
        n = src.of(pool)
    if kind == "lin" and src.chance(30):
        p = src.of(long_prefixes() if len(n) > 3 and src.chance(70) else prefixes())
        cand = p + n
        try:
            if usable(cand) and db.named(cand).kind == kind:
                return cand
        except M.ModelError:
            pass
    return n


def of_dims(src, key):
    """A name of the given dimensionality, possibly prefixed."""
    db = M.database()
    n = src.of(by_dims()[key])
    if src.chance(30):
        cand = src.of(prefixes()) + n
        try:
            if usable(cand):
                u = db.named(cand)
                if u.kind == "lin" and dims_key(db.real_dims(u.dims)) == key:
                    return cand
        except M.ModelError:
            pass
    return n


FACTORS = [
    "2", "10", "3", "7", "60", "1000", "0.001", "1e-3", "1e3", "2.5", "0.3048",
    "9.80665", "12", "1e6", "1e-9", "6.02e23", "1.5e-2", "100", "0.5", "1",
]  # fmt: skip


def factor(src):
    if src.chance(30):
        return str(src.pick(999) + 1)
    return src.of(FACTORS)


def power(src, node, n):
    if n == 1 and not src.chance(6):
        return node
    return ["pow", node, n]


def combine(src, parts):
    """A product of (node, order) parts in some arrangement."""
    parts = src.perm(parts)
    node = None
    for part, order in parts:
        if node is None:
            if order < 0 and src.chance(30):
                node = ["div", ["num", "1"], power(src, part, -order)]
            else:
                node = power(src, part, order)
        elif order < 0 and src.chance(60):
            node = ["div", node, power(src, part, -order)]
        elif src.chance(12) and order != 0:
            # a/(1/x)
            node = ["div", node, power(src, part, -order)]
        else:
            node = ["mul", node, power(src, part, order)]
    return node if node is not None else ["num", "1"]


def product(src, most=4, numbers=True, exps=(1, 1, 1, 2, -1, -2, 3, -1, 0, -3)):
    """An expression which is a plain multiple of basis units."""
    parts = []
    for _ in range(1 + src.pick(most)):
        if numbers and src.chance(18):
            parts.append((["num", factor(src)], src.of([1, 1, 1, 2, -1])))
        else:
            parts.append((["id", name(src)], src.of(exps)))
    node = combine(src, parts)
    if src.chance(15):
        node = ["pow", node, src.of([2, -1, 1, -2])]
    if src.chance(10):
        node = ["mul", node, combine(src, [(["id", name(src)], src.of(exps))])]
    return node


def long_product(src, least=8, most=40, numbers=True):
    """The same of many factors, from few names and from many."""
    names = [name(src) for _ in range(2 + src.pick(5))]
    node = None
    for _ in range(least + src.pick(most - least + 1)):
        if numbers and src.chance(10):
            x = ["num", src.of(["2", "3", "5", "10", "0.5", "60"])]
        else:
            x = ["id", src.of(names) if src.chance(85) else name(src)]
        if src.chance(20):
            x = ["pow", x, src.of([2, -1, -2, 3])]
        node = x if node is None else [src.of(["mul", "div"]), node, x]
    return node


def of_dimensionality(src, dims: dict, numbers=True):
    """Another expression with the given dimensionality."""
    todo = {k: v for k, v in dims.items() if v}
    parts = []
    # Take a few named units of whatever dimensionality, then make up for them.
    for _ in range(src.of([0, 0, 1, 2])):
        n = name(src)
        order = src.of([1, 1, -1, 2])
        parts.append((["id", n], order))
        db = M.database()
        for k, v in db.real_dims(db.named(n).dims).items():
            todo[k] = todo.get(k, 0) - v * order
    todo = {k: v for k, v in todo.items() if v}
    # Whole classes first (e.g. energy)
    if todo and src.chance(35):
        key = dims_key(todo)
        if key in by_dims():
            parts.append((["id", of_dims(src, key)], 1))
            todo = {}
    for k in sorted(todo):
        v = todo[k]
        if abs(v) > 1 and src.chance(25):
            step = 1 if v > 0 else -1
            parts.append((["id", of_dims(src, ((k, 1),))], step))
            v -= step
        if v:
            parts.append((["id", of_dims(src, ((k, 1),))], v))
    if src.chance(10):
        parts.append((["id", src.of(["rad", "radian", "sr", "degree", "percent"])], 1))
    if numbers and src.chance(25):
        parts.append((["num", factor(src)], src.of([1, 1, -1, 2])))
    return combine(src, parts)


VALUES = [
    1.0, 0.0, 2.0, -1.0, 0.5, 10.0, -40.0, 100.0, 273.15, 1e6, -1e-6, 1e-12,
    3.0, 1234.5678, -273.15, 1e15, 7.25e-9, 32.0, 451.0, 0.1,
]  # fmt: skip


def value(src):
    k = src.pick(4)
    if k == 0:
        return src.of(VALUES)
    if k == 1:
        return float(src.pick(2001) - 1000)
    if k == 2:
        return (src.pick(2000001) - 1000000) / 1024.0
    mant = 1 + src.pick(9999) / 10000.0
    return (-1) ** src.pick(2) * mant * 10.0 ** (src.pick(41) - 20)


def in_range(unit, limit=200) -> bool:
    """Whether the scale of a plain unit is comfortably a double."""
    lin = unit.linear()
    return (
        lin is not None
        and lin.scale != 0
        and Fraction(1, 10**limit) < abs(lin.scale) < 10**limit
    )

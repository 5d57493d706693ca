"""C06: a prefix scales the unit it is put before, and nothing else resolves."""

from fractions import Fraction

from hypothesis import strategies as hs

from vlib import gen as G, model as M, oracle as O, pools as P, registry as R, sut
from vlib.harness import Enum, Prop, Violation

PROPERTY = "C06"
ASSUMPTIONS = [
    "the snapshot of the UDUNITS-2 database in /verif/data is the authority",
]


def all_prefixes():
    db = M.database()
    return sorted(set(db.prefix_names) | set(db.prefix_symbols))


def names(tier, seed):
    out = []
    for _, s, _ in M.database().entries:
        if s not in out:
            out.append(s)
    return out


def each(name, st):
    """A name with every prefix, through unit_by_name_or_symbol."""
    for p in all_prefixes():
        one(p + name, st, spelled=False)


def one(text, st, spelled):
    from pyudunits2 import UnresolvableUnitException

    db = M.database()
    try:
        prefix, key = db.lookup(text)
    except M.Unresolvable:
        prefix, key = None, None
    if key is not None and not P.readable(key):
        return
    try:
        u = sut.unit(text) if spelled else sut.system().unit_by_name_or_symbol(text)
    except UnresolvableUnitException:
        if key is not None:
            raise Violation(f"{text!r} is not resolved; it is {prefix} {key}")
        st.label("unresolvable")
        return
    if key is None:
        raise Violation(f"{text!r} resolves to {u}; no unit has that name")
    st.label("a prefixed unit" if prefix else "a unit of its own")
    want = db.named(text)
    if prefix and want.kind != "lin":
        st.label("origin or logarithm (not claimed)")
        return
    st.nontrivial(prefix is not None)
    got, shown = O.expanded_key(u, text)
    if got != want.key():
        raise Violation(f"{text!r} expands to {shown!r}: {got}, not {want.key()}")


def dims_case(src):
    """Prefixed names within products, spelled through UnitSystem.unit."""
    parts = []
    for _ in range(1 + src.pick(3)):
        p = src.of(P.prefixes())
        n = src.of(P.names("lin")) if src.chance(50) else src.of(P.COMMON)
        text = p + n
        try:
            if not P.usable(text) or M.database().named(text).kind != "lin":
                text = n
        except M.ModelError:
            text = n
        parts.append((["id", text], src.of([1, -1, 2, -2, 3])))
    return P.combine(src, parts)


def product(ast, st):
    db = M.database()
    text = G.plain_text(ast)
    u = sut.unit(text)
    want = db.meaning(ast)
    st.nontrivial(any(db.lookup(i)[0] for i in M.identifiers(ast)))
    got, shown = O.expanded_key(u, text)
    if got != want.key():
        raise Violation(f"{text!r} expands to {shown!r}: {got}, not {want.key()}")
    if sut.dims(u) != db.real_dims(want.dims):
        raise Violation(f"{text!r} has the dimensionality {sut.dims(u)}")


def convert_case(src):
    n = src.of(P.names("lin")) if src.chance(60) else src.of(P.COMMON)
    return [src.of(P.prefixes()), n, P.value(src)]


def convert(case, st):
    """One prefixed unit is the prefix's value of the unit."""
    from pyudunits2 import Converter

    p, n, x = case
    db = M.database()
    text = p + n
    try:
        prefix, key = db.lookup(text)
        if db.lookup(n)[1] != key or prefix is None:
            return
        a, b = db.named(text), db.named(n)
    except M.ModelError:
        return
    if not P.usable(text) or a.kind != "lin":
        return
    st.nontrivial()
    ast, basis = ["id", text], ["id", n]
    u, v = sut.unit(text), sut.unit(n)
    if sut.dims(u) != sut.dims(v):
        raise Violation(f"{text!r} and {n!r} differ in dimensionality")
    y = O.expected(ast, basis, a, b, x, st)
    if y is not None:
        O.compare(Converter(u, v).convert(x), ast, basis, a, b, x, y)
    y = O.expected(basis, ast, b, a, x, st)
    if y is not None:
        O.compare(Converter(v, u).convert(x), basis, ast, b, a, x, y)


def unknown_strategy():
    names = P.names("lin")
    piece = hs.one_of(
        hs.sampled_from(P.prefixes()),
        hs.sampled_from(names),
        hs.text(alphabet="abcdefgkmnprsuyMGTPdhcµ_", min_size=0, max_size=5),
    )
    return hs.lists(piece, min_size=1, max_size=3).map("".join)


def unknown(text, st):
    """Any word: resolves exactly when it is a name, or a prefix and a name."""
    if not P.usable(text):
        return
    one(text, st, spelled=True)
    st.nontrivial()


def origin(case, st):
    """Prefixed units with an origin: as UDUNITS-2's C library has it."""
    from pyudunits2 import Converter

    text, to, x = case
    c = sut.c_convert(text, to, x)
    st.nontrivial(c is not None)
    if c is None:
        return
    got = sut.number(Converter(sut.unit(text), sut.unit(to)).convert(x))
    if not sut.same(got, c, 1e-9, 300.0):
        raise Violation(f"{x} {text} is not {c} {to} (got {got})")


OWN_UNITS = ["m", "am", "dm", "n", "in", "a", "b", "ab", "g", "t"]
OWN_PREFIXES = ["d", "da", "k", "ki", "kib", "m", "a", "y", "dak", "mi", "µ", "h", "kilo", "kil"]
OWN_VALUES = ["10", "0.1", "1e3", "1024", "2", "1e-6", "7", "1e24", ".5", "3e-2"]


def own_case(src):
    """Systems of their own: the same prefixes in another order, with other
    values, names in one and symbols in the other."""
    names = [src.of(OWN_PREFIXES) for _ in range(1 + src.pick(5))]
    names = list(dict.fromkeys(names))
    systems = []
    for _ in range(1 + src.pick(3)):
        mine = src.perm(names) if src.chance(70) else list(names)
        mine += [n for n in [src.of(OWN_PREFIXES)] if n not in mine and src.chance(30)]
        prefixes = []
        while mine:
            n = mine.pop(0)
            more = [mine.pop(0) for _ in range(src.pick(2)) if mine]
            prefixes.append([n if src.chance(60) else n + "_", src.of(OWN_VALUES), more if src.chance(60) else more + [n + "."]])
            if prefixes[-1][0] != n:
                prefixes[-1][2] = [n] + more
        units = src.perm(OWN_UNITS)[: 2 + src.pick(5)]
        defined = [[u, ["mul", ["num", src.of(["3", "60", "0.3"])], ["pow", ["id", units[0]], src.of([1, 2])]]]
                   for u in units[2:] if src.chance(50)]
        systems.append({"prefixes": prefixes, "units": units, "defined": defined, "late": src.pick(3)})
    return systems


def own(case, st):
    """Every prefix before every unit, in each of the systems, and again with
    prefixes which are added afterwards."""
    from pyudunits2 import UnitSystem, UnresolvableUnitException

    built = []
    for spec in case:
        model, real = R.System(), UnitSystem()
        defined = dict((u, d) for u, d in spec["defined"])
        for u in spec["units"]:
            entry = R.Entry({"name": [u, None], "symbols": []}, defined.get(u))
            model.add(entry)
            real.add_unit(R.real_unit(real, entry))
        built.append((model, real, list(spec["prefixes"]), spec["late"]))

    def add(model, real, prefixes, n):
        while prefixes and n:
            n -= 1
            name, value, symbols = prefixes.pop(0)
            symbols = [s for s in symbols if not s.endswith(".")]
            model.add_prefix(name, value, symbols)
            real.add_prefix(R.real_prefix(name, value, symbols))

    def ask(rounds):
        for n, (model, real, prefixes, late) in enumerate(built):
            words = sorted(model.tables["name"])
            before = sorted({p for p in OWN_PREFIXES + [x + y for x in ("d", "k") for y in ("a", "i", "d")]})
            for w in words:
                for p in [""] + before:
                    text = p + w
                    try:
                        prefix, entry = model.find(text)
                        want = model.word(text)
                    except M.Unresolvable:
                        prefix = want = None
                    try:
                        u = real.unit_by_name_or_symbol(text)
                    except UnresolvableUnitException:
                        u = None
                    where = f"system {n}, {rounds}: {text!r}"
                    if (u is None) != (want is None):
                        raise Violation(f"{where} is {u}, and in the model {want and want.key()}")
                    if u is None:
                        continue
                    st.nontrivial(prefix is not None)
                    st.label("a prefixed unit" if prefix else "a unit of its own")
                    got, shown = R.observe(u)
                    if got.key() != want.key():
                        raise Violation(f"{where} expands to {shown!r}: {got.key()}, not {want.key()}")

    for model, real, prefixes, late in built:
        add(model, real, prefixes, max(0, len(prefixes) - late))
    ask("at first")
    if any(prefixes for _, _, prefixes, _ in built):
        for model, real, prefixes, late in built:
            add(model, real, prefixes, 99)
        ask("with further prefixes")


ORIGIN = [
    ["millidegC", "K", 1.0],
    ["kilocelsius", "K", 1.0],
    ["mdegF", "K", 1.0],
    ["K", "megadegC", 1.0],
]


SUBCHECKS = [
    Enum("each", names, each,
         "every name with every prefix (exhaustive, 42 combinations in a case): the "
         "expanded form is compared exactly; non-trivial: read as a prefixed unit"),
    Prop("unknown", unknown_strategy, unknown, 6000, 200000,
         "words made of prefixes, names and letters, through UnitSystem.unit"),
    Prop("product", lambda: G.from_bytes(dims_case, 48), product, 3000, 100000,
         "products of powers of prefixed units; non-trivial: a prefix is involved"),
    Prop("own", lambda: G.from_bytes(own_case, 96), own, 1200, 40000,
         "one to three systems of their own, whose prefixes begin alike, in different orders and with different "
         "values: every prefix before every unit, against the model; non-trivial: one is read as prefixed"),
    Enum("origin", lambda tier, seed: ORIGIN, origin,
         "prefixed units with an origin against the C library"),
    Prop("convert", lambda: G.from_bytes(convert_case, 16), convert, 1600, 60000,
         "conversion between a prefixed unit and the unit, both ways"),
]  # fmt: skip


def setup():
    sut.system()

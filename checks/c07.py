"""C07: a unit system answers as its registrations, whatever their order."""

from vlib import gen as G, model as M, registry as R, sut
from vlib.harness import Prop, Violation

PROPERTY = "C07"
ASSUMPTIONS = [
    "vlib.registry states the precedence: own spellings (names, then symbols) "
    "before prefixed ones (prefix names, then symbols; the longest first)",
    "no verdict where a registration changes what an already used definition "
    "would mean, and on cyclic definitions",
]

WORDS = ["a", "b", "ab", "k", "kb", "ka", "m", "mm", "km", "p", "pa", "kk", "am", "x"]
ALL, EARLY, LATE = WORDS, WORDS[:6], WORDS[5:]
PRE = [["kilo", "1000"], ["k", "1e3"], ["ka", ".5"], ["m", "0.001"], ["p", "7"],
       ["a", "1e-18"], ["mega", "1e6"], ["km", "11"], ["kk", "13"], ["am", "0.1"]]  # fmt: skip
ALIASES = ["z", "zz", "kz", "mz", "az", "zk", "zm", "za", "pz"]


def definition(src):
    node = ["id", word(src, 60)]
    k = src.pick(6)
    if src.chance(2):
        return ["num", "1"]
    if k == 1:
        node = ["mul", ["num", src.of(["2", "60", "0.3", "1e-3", "5"])], node]
    elif k == 2:
        node = ["mul", node, ["pow", ["id", word(src, 60)], src.of([-1, 2, -2, 3])]]
    elif k == 3:
        node = ["div", node, ["id", word(src, 60)]]
    elif k == 4:
        node = ["mul", ["num", "3"], ["pow", node, src.of([2, -1])]]
    return node


def word(src, early=0):
    # Early words are mostly basis units, late ones mostly defined units, so
    # that not everything is defined by itself.
    w = src.of(WORDS[:5]) if src.chance(early) else src.of(WORDS)
    if src.chance(20):
        w = src.of(["k", "m", "p", "ka", "a", "kilo", "mega"]) + w
    return w


def a_ref(src, aliases, named):
    ref = {}
    WORDS = EARLY if named and src.chance(70) else LATE if src.chance(60) else ALL
    if named or src.chance(75):
        plural = src.of([None, "s"])
        w = src.of(WORDS)
        ref["name"] = [w, plural and w + plural]
        if src.chance(10):
            ref["name"][1] = next(x for x in WORDS if x != w)
    ref["symbols"] = []
    for _ in range(src.of([0, 1, 1, 2] if ref.get("name") else [1, 1, 2])):
        w = src.of(WORDS)
        if w not in ref["symbols"]:
            ref["symbols"].append(w)
    ref["alias_names"], ref["alias_symbols"] = [], []
    if aliases and src.chance(25):
        ref["alias_names"].append([an_alias(src, aliases), src.of([None, "zs"])])
    if aliases and src.chance(25):
        ref["alias_symbols"].append(an_alias(src, aliases))
    return ref


def an_alias(src, aliases):
    """Mostly of its own; otherwise what may be taken (nobody refuses that)."""
    return src.of(ALL) if src.chance(25) else aliases.pop()


def history(src):
    ops = []
    aliases = src.perm(ALIASES)
    pre = src.perm(PRE)
    for _ in range(5 + src.pick(12)):
        k = src.weighted([(3, "look"), (3, "unit"), (2, "basis"), (1, "prefix")])
        if k == "look":
            w = word(src)
            if src.chance(20):
                w = src.of(["", "k", "m", "ka"]) + src.of(ALIASES)
            if src.chance(20):
                w += "s"
            ops.append(["look", w])
        elif k == "prefix":
            if src.chance(15):
                name, value = src.of(PRE)[0], src.of(PRE)[1]
                ops.append(["prefix", name, value, [src.of(PRE)[0]]])
            elif len(pre) > 1:
                name, value = pre.pop()
                ops.append(["prefix", name + "_", value, [pre.pop()[0]]] if src.chance(50)
                           else ["prefix", name, value, []])  # fmt: skip
        else:
            ref = a_ref(src, aliases, k == "basis" and not src.chance(15))
            replace = src.chance(15)
            if k == "basis":
                ops.append(["basis", ref, src.chance(15), src.chance(15), replace])
            else:
                ops.append(["unit", ref, definition(src), replace])
    return ops


def run(ops, st):
    from pyudunits2 import UnitSystem

    model, real = R.System(), UnitSystem()
    seen: dict = {}
    for op in ops:
        step(model, real, op, st, seen)
    # Finally, everything there is to know.
    words = sorted({w for t in model.tables.values() for w in t})
    pre = sorted(set(model.prefixes["name"]) | set(model.prefixes["symbol"]))
    for w in words + [p + w for p in pre[:4] for w in words[:8]]:
        look(model, real, w, st, seen)
    for w, units in sorted(seen.items()):
        if len(units) > 1:
            st.label("a word with two meanings over time")
            apart(w, *units[0], *units[-1])


def apart(word, u, a, v, b):
    """Units which were looked up by one word before and after it was
    registered again keep the meanings they had."""
    from pyudunits2 import Converter

    if (u == v) is not False or (u != v) is not True:
        raise Violation(f"{word!r}: what was {a.key()} is equal to what is {b.key()} now")
    if (u == u) is not True or (v == v) is not True:
        raise Violation(f"{word!r} is not equal to itself")
    if a.dims == b.dims and u.is_convertible_to(v) and u.dimensionality() == v.dimensionality():
        got, want = float(Converter(u, v).convert(1.0)), a.scale / b.scale
        if not sut.same(got, float(want), 1e-12):
            raise Violation(f"{word!r}: what was {a.key()} converts to what is {b.key()} now by {got}")


def step(model, real, op, st, seen=None):
    if op[0] == "look":
        look(model, real, op[1], st, seen)
    elif op[0] == "prefix":
        _, name, value, symbols = op
        if name in model.prefixes["name"] or set(symbols) & set(model.prefixes["symbol"]):
            st.label("a prefix again")
        model.add_prefix(name, value, symbols)
        real.add_prefix(R.real_prefix(name, value, symbols))
    else:
        if op[0] == "basis":
            _, ref, dimensionless, time, replace = op
            entry = R.Entry(ref, None, dimensionless, time and not dimensionless)
            if any(model.shown(e) == R.shown(ref) for e in model.basis):
                # Basis units are told apart by their names.
                if not model.clashes(ref):
                    return
                replace = False
        else:
            _, ref, node, replace = op
            entry = R.Entry(ref, node)
        refused = model.clashes(ref) and not replace
        try:
            if replace:
                real.add_unit(R.real_unit(real, entry), replace=True)
            else:
                real.add_unit(R.real_unit(real, entry))
        except ValueError as err:
            if not refused:
                raise Violation(f"adding {ref} is refused ({err})")
            st.label("refused registration")
            st.nontrivial()
            return
        if refused:
            raise Violation(f"adding {ref} is accepted, although it is registered already")
        if replace:
            st.label("replaced" if model.clashes(ref) else "replace, of nothing")
        model.add(entry)


def both(model, word):
    """The meaning at present and at the first use of every definition."""
    out = []
    for first in (False, True):
        model.first = first
        try:
            out.append(model.word(word))
        except M.Unresolvable:
            out.append(None)
    model.first = False
    return out


def look(model, real, word, st, seen=None):
    from pyudunits2 import UnresolvableUnitException

    if model.cyclic(word):
        st.label("cyclic (no verdict)")
        return
    now, first = both(model, word)
    try:
        u = real.unit_by_name_or_symbol(word)
        got, text = R.observe(u)
    except UnresolvableUnitException:
        if now is not None and first is not None:
            raise Violation(f"{word!r} is not resolved; it is {now.key()}")
        st.label("unresolvable")
        return
    if (now is None) != (first is None) or (now and now.key() != first.key()):
        st.label("changed since its first use (no verdict)")
        return
    if now is None:
        raise Violation(f"{word!r} resolves to {text!r}; there is no such unit")
    prefixed = model.find(word)[0] is not None
    st.label("prefixed" if prefixed else "own")
    st.nontrivial(prefixed or model.find(word)[1].definition is not None)
    if got.key() != now.key():
        raise Violation(f"{word!r} is {text!r}, not {now.key()}")
    if seen is not None and all(k.key() != now.key() for _, k in seen.setdefault(word, [])):
        seen[word].append((u, now))
    want = model.real(now.dims)
    if sut.dims(u) != want:
        raise Violation(f"{word!r} has the dimensionality {sut.dims(u)}, not {want}")
    if list(want.values()) == [1] or not want:
        time = bool(want) and next(iter(want)) in model.time_name()
        if bool(u.is_time_unit()) != time:
            raise Violation(f"is_time_unit of {word!r} is {u.is_time_unit()}")
    if M.lexable(word) and not prefixed:
        v = real.unit(word)
        if str(v) != word or R.observe(v)[0].key() != now.key():
            raise Violation(f"unit({word!r}) is {v} = {R.observe(v)[1]}")


def orders_case(src):
    """Registrations without clashes, in two orders."""
    aliases = src.perm(ALIASES)
    words = src.perm(WORDS + ["bb", "xa", "kx", "mx", "ax", "xk", "xm"])
    ops = []
    for i in range(3 + src.pick(5)):
        if len(words) < 4:
            break
        basis = i == 0 or src.chance(35)
        ref = {"name": [words.pop(), None], "symbols": [], "alias_names": [], "alias_symbols": []}
        if src.chance(50):
            ref["symbols"].append(words.pop())
            if basis and src.chance(30):
                ref["name"] = None
        if src.chance(25) and len(aliases) > 2:
            ref["alias_names"].append([aliases.pop(), aliases.pop()])
        if src.chance(15) and aliases:
            ref["alias_symbols"].append(aliases.pop())
        if basis:
            ops.append(["basis", ref, src.chance(20), src.chance(20), False])
        else:
            known = [w for o in ops for w in ((o[1]["name"] or [None])[0], *o[1]["symbols"]) if w]
            node = ["id", src.of(known)]
            if src.chance(60):
                node = ["mul", ["num", src.of(["2", "60", "1e-3"])], node]
            if src.chance(50):
                node = ["mul", node, ["pow", ["id", src.of(known)], src.of([-1, 2])]]
            ops.append(["unit", ref, node, False])
    pre = src.perm(PRE)
    for _ in range(src.pick(5)):
        name, value = pre.pop()
        symbols = [name] if src.chance(50) else []
        ops.append(["prefix", name if not symbols else name + "_", value, symbols])
    order = src.perm(range(len(ops)))
    looks = [word(src) for _ in range(6)]
    return {"ops": ops, "order": order, "look": looks}


def orders(case, st):
    from pyudunits2 import UnitSystem

    ops = case["ops"]
    outcomes = []
    for order in (range(len(ops)), case["order"]):
        model, real = R.System(), UnitSystem()
        for i in order:
            step(model, real, ops[i], st)
        words = sorted({w for t in model.tables.values() for w in t})
        pre = sorted(set(model.prefixes["name"]) | set(model.prefixes["symbol"]))
        for w in case["look"] + words + [p + w for p in pre for w in words]:
            look(model, real, w, st)
        outcomes.append([both(model, w)[0] and both(model, w)[0].key() for w in words])
    st.nontrivial(list(case["order"]) != sorted(case["order"]))
    if outcomes[0] != outcomes[1]:
        raise AssertionError("the model depends on the order")


def again_case(src):
    """A unit which is looked up, registered again (replacing), and looked up."""
    ids = ["u", "v"]
    factor = lambda: ["num", src.of(["2", "3", "0.5", "60", "1", "1e-3"])]  # noqa: E731
    first = ["mul", factor(), ["pow", ["id", src.of(ids)], src.of([1, 1, 2])]]
    second = ["mul", factor(), first[2] if src.chance(80) else ["id", src.of(ids)]]
    text = ["id", src.of(["foo", "foos", "f", "kfoo", "bar", "kf"])]
    k = src.pick(5)
    if k == 1:
        text = ["mul", factor(), text]
    elif k == 2:
        text = ["div", text, ["id", "v"]]
    elif k == 3:
        text = ["pow", text, src.of([2, -1])]
    return {"first": first, "second": second, "ast": text, "between": src.chance(50), "swap": src.chance(30)}


def again(case, st):
    from pyudunits2 import Converter, UnitSystem

    model, real = R.System(), UnitSystem()
    step(model, real, ["prefix", "kilo", "1000", ["k"]], st)
    for name in ("u", "v"):
        step(model, real, ["basis", {"name": [name, None]}, False, False, False], st)
    ref = {"name": ["foo", "foos"], "symbols": ["f"], "alias_names": [["bar", None]]}
    ast = case["ast"]
    text = G.plain_text(ast)
    units = []
    for i, node in enumerate((case["first"], case["second"])):
        step(model, real, ["unit", ref, node, i > 0], st)
        u = real.unit(text)
        meaning = _Now(model).meaning(ast)
        units.append((u, meaning))
        if case["between"]:
            expect(u, meaning, text)
    (u, a), (v, b) = units
    for x, y in units:
        expect(x, y, text)
    same = a.key() == b.key()
    st.nontrivial(not same)
    if case["swap"]:
        u, a, v, b = v, b, u, a
    if (u == v) is not same or (u != v) is same:
        raise Violation(f"{text!r}: {a.key()} == {b.key()} is {u == v}")
    agree = a.dims == b.dims
    if u.is_convertible_to(v) is not agree:
        raise Violation(f"{text!r}: {a.key()} is convertible to {b.key()}: {not agree}")
    if agree:
        got, want = float(Converter(u, v).convert(1.0)), a.scale / b.scale
        if not sut.same(got, float(want), 1e-12):
            raise Violation(f"{text!r} which was {a.key()} converts to the one which is {b.key()} by {got}")


def expect(u, meaning, text):
    got = R.observe(u)[0]
    if got.key() != meaning.key():
        raise Violation(f"{text!r} is {got.key()}, not {meaning.key()}")


class _Now(M.Registry):
    def __init__(self, system):
        super().__init__()
        self.system = system

    def named(self, name):
        return self.system.word(name)


SUBCHECKS = [
    Prop("history", lambda: G.from_bytes(history, 180), run, 6000, 200000,
         "histories of registrations (clashing, replacing, with forward references and "
         "prefixes) and look-ups against a model; non-trivial: a refusal, a prefixed or "
         "a defined unit was looked up"),
    Prop("again", lambda: G.from_bytes(again_case, 40), again, 700, 30000,
         "texts with a unit which is registered again in between: what was looked up before keeps its meaning, "
         "what is looked up after has the new one; non-trivial: these differ"),
    Prop("orders", lambda: G.from_bytes(orders_case, 120), orders, 1200, 60000,
         "the same registrations in two orders; non-trivial: the orders differ"),
]  # fmt: skip

"""C08: a unit database in the UDUNITS-2 XML format is loaded as it is written."""

import os
import pathlib
import tempfile
from xml.sax.saxutils import escape

from vlib import gen as G, model as M, registry as R, sut
from vlib.harness import Prop, Violation

PROPERTY = "C08"
ASSUMPTIONS = [
    "every unit has a name or a symbol; 'def' texts are within the grammar",
    "the basis unit named second is the one which measures time",
]

STEMS = [
    "foo", "bar", "berry", "day", "boy", "key", "ply", "lux", "gauss", "inch", "wash", "quartz", "henry",
    "century", "siemens", "fly", "guy", "as", "ox", "kilo", "meter", "second", "öl", "µm", "°N", "a", "e_x",
    "Zed", "toiy", "hertz", "mass", "y", "gray", "bus", "ah", "ash", "each", "cozy", "Ångstro", "tooth", "box", "b", "c",
]  # fmt: skip
SYMBOLS = ["m", "s", "k", "q", "Ω", "µ", "°", "π", "kk", "mm", "x", "w", "K", "SS", "j", "hh"]
PREFIXES = [["kilo", "1e3"], ["milli", "1E-3"], ["deci", ".1"], ["mega", "1000000"], ["half", "0.5"],
            ["dodeca", "12."], ["ö", "1e-2"]]  # fmt: skip
PREFIX_SYMBOLS = ["k", "m", "d", "M", "h", "µ", "da", "D", "c"]
ODD = ["frobnicate", "Def", "names", "symbols", "unit", "#text"]
PLACES = ["unit", "name", "aliases", "alias"]


def spec_case(src):
    stems = src.perm(STEMS)
    symbols = src.perm(SYMBOLS)
    out = {"prefixes": [], "units": [], "style": style(src)}
    pre, psym = src.perm(PREFIXES), src.perm(PREFIX_SYMBOLS)
    for _ in range(src.pick(4)):
        name, value = pre.pop()
        symbols_ = [psym.pop() for _ in range(src.pick(3))]
        out["prefixes"].append([name, value, symbols_, None])
    words = []
    for i in range(2 + src.pick(5)):
        kind = "base" if i == 0 else src.weighted([(5, "def"), (3, "base"), (1, "dimensionless")])
        unit = {"kind": kind, "name": None, "symbols": [], "aliases": [], "def": None}
        if src.chance(80 if kind == "def" else 90):
            unit["name"] = a_name(src, stems)
        if kind == "dimensionless" and unit["name"] and unit["name"][0] == "second":
            unit["kind"] = "base"  # nobody measures time without dimension
        for _ in range(src.of([1, 0, 2]) if unit["name"] else 1):
            if symbols:
                unit["symbols"].append(symbols.pop())
        if not unit["name"] and not unit["symbols"]:
            unit["name"] = a_name(src, stems)
        if src.chance(40):
            for _ in range(1 + src.pick(3)):
                if src.pick(2) and symbols:
                    unit["aliases"].append(["symbol", symbols.pop()])
                elif len(stems) > 1:
                    unit["aliases"].append(["name", *a_name(src, stems)])
        unit["extras"] = [t for t in ("comment", "definition") if src.chance(15)]
        unit["odd"] = None
        unit["noplurals"] = unit["aliases"] != [] and src.chance(20)
        unit["noplural at"] = src.pick(len(unit["aliases"]) + 1)
        words += spellings(unit)
        out["units"].append(unit)
    usable = [w for w in words if M.lexable(w) and w not in M.KEYWORDS | M.SHIFT_WORDS]
    for unit in out["units"]:
        if unit["kind"] == "def":
            unit["def"] = a_definition(src, usable or ["foo"])
    if src.chance(10):
        # The same spelling twice
        a, b = src.of(out["units"]), src.of(out["units"])
        if a["symbols"] and a is not b:
            b["symbols"].append(a["symbols"][0])
    units = out["units"]
    if src.chance(45):
        # Content which isn't part of the format; at most at one place, nearly always
        for _ in range(src.weighted([(9, 1), (1, 2)])):
            k = src.pick(10)
            if k == 0:
                out["style"]["top"] = src.of([t for t in ODD if t != "unit"])
            elif k == 1 and out["prefixes"]:
                src.of(out["prefixes"])[3] = src.of(ODD)
            else:
                place = src.of(PLACES)
                has = [u for u in units if place in ("unit", "name") or u["aliases"]]
                src.of(has or units)["odd"] = [place, src.of(ODD)]
    if src.chance(50):
        out["units"] = src.perm(units)  # forward references
    return out


def style(src):
    return {
        "ns": src.of(["none", "default", "prefixed", "mixed"]),
        "root": src.of(["udunits-2", "unit-system"]),
        "encoding": src.of(["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1", "US-ASCII"]),
        "indent": src.of(["", "\n  ", " \t\n", "\r\n"]),
        "pad": src.of(["", "", " ", "\n\t "]),
        "comments": src.chance(25),
        "instructions": src.chance(8),
        "order": src.pick(4),
        "attributes": src.chance(20),
        "writing": src.of(["", "", "", "cdata", "references", "split"]),
        "top": "",
        "odd last": src.chance(40),
        "plural first": src.chance(30),
    }


def a_name(src, stems):
    singular = stems.pop()
    k = src.pick(6)
    if k == 4:
        return [singular, singular + "en"]
    if k == 5:
        return [singular, False]
    return [singular, None]


def plural(name):
    singular, p = name
    if p is False:
        return None
    return p if p is not None else M.plural_of(singular)


def spellings(unit):
    out = []
    if unit["name"]:
        out += [unit["name"][0], plural(unit["name"])]
    out += unit["symbols"]
    for a in unit["aliases"]:
        out += [a[1], plural(a[1:])] if a[0] == "name" else [a[1]]
    return [w for w in out if w]


def a_definition(src, words):
    node = ["id", src.of(words)]
    k = src.pick(6)
    if k == 1:
        node = ["mul", ["num", src.of(["2", "60", "0.3", "1e-3", "5"])], node]
    elif k == 2:
        node = ["mul", node, ["pow", ["id", src.of(words)], src.of([-1, 2, -2, 3])]]
    elif k == 3:
        node = ["div", node, ["id", src.of(words)]]
    elif k == 4:
        node = ["mul", ["num", "3"], ["pow", node, src.of([2, -1])]]
    elif k == 5:
        node = ["num", src.of(["0.01", "3.25", "12", "1"])]
        if node[1] == "1" and src.pick(2):
            return {"ast": node, "text": ""}
    return {"ast": node, "text": G.spell(src, node, padding=False)["text"]}


def odd_of(unit):
    """Where there is content which isn't part of the format, and of what kind."""
    place, kind = unit["odd"] or (None, None)
    if place == "name" and not unit["name"]:
        place = "unit"
    if place == "alias" and not any(a[0] == "name" for a in unit["aliases"]):
        place = "aliases"
    if place == "aliases" and not unit["aliases"]:
        place = "unit"
    return place, kind


# -- As XML


def render(spec) -> bytes:
    s = spec["style"]
    state = {"n": 0}

    def tag(name):
        if s["ns"] == "prefixed":
            return "p:" + name
        if s["ns"] == "mixed":
            state["n"] += 1
            return "p:" + name if state["n"] % 2 else name
        return name

    def el(name, *children, attrs=""):
        t = tag(name)
        content = "".join(children)
        if not content:
            return f"<{t}{attrs}/>" + s["indent"]
        return f"<{t}{attrs}>{content}</{t}>" + s["indent"]

    def text(t):
        inner = s["pad"] + written(t) + s["pad"]
        if s["comments"]:
            inner = "<!-- c -->" + inner
        return inner

    def written(t):
        if s["writing"] == "cdata" and (t.isascii() or s["encoding"].startswith("UTF")):
            return f"<![CDATA[{t}]]>"
        if s["writing"] == "references":
            return "".join(f"&#{ord(c)};" if i % 2 else f"&#x{ord(c):X};" for i, c in enumerate(t))
        if s["writing"] == "split":
            return escape(t[:1]) + "<!-- within -->" + escape(t[1:])
        return escape(t)

    def note():
        if s["comments"]:
            return f"<!-- a <unit> {s['indent']}-->"
        if s["instructions"]:
            return "<?some thing?>"
        return ""

    def attrs():
        return ' comment="an attribute"' if s["attributes"] else ""

    def odd(kind):
        if kind is None:
            return ""
        return "odd" if kind == "#text" else el(kind, text("odd"))

    def with_odd(kind, parts):
        return [*parts, odd(kind)] if s["odd last"] else [odd(kind), *parts]

    def name_el(name, extra=None):
        singular, p = name
        parts = [el("singular", text(singular))]
        if p is False:
            parts.append(el("noplural"))
        elif p is not None:
            parts.append(el("plural", text(p)))
        if s["plural first"]:
            parts.reverse()
        return el("name", s["indent"], *with_odd(extra, parts))

    body = []
    for name, value, symbols, extra in spec["prefixes"]:
        parts = [el("value", text(value)), el("name", text(name))]
        parts += [el("symbol", text(x), attrs=attrs()) for x in symbols]
        if s["order"] % 2:
            parts.reverse()
        body.append(el("prefix", *with_odd(extra, [s["indent"], note(), *parts])))
    for unit in spec["units"]:
        place, kind = odd_of(unit)
        extra = {place: kind}
        head = []
        if unit["kind"] == "def":
            head.append(el("def", text(unit["def"]["text"])))
        else:
            head.append(el(unit["kind"]))
        if unit["name"]:
            head.append(name_el(unit["name"], extra.get("name")))
        symbols = [el("symbol", text(x), attrs=attrs()) for x in unit["symbols"]]
        tail = []
        if unit["aliases"]:
            aliases = [
                name_el(a[1:], extra.get("alias")) if a[0] == "name" else el("symbol", text(a[1]), attrs=attrs())
                for a in unit["aliases"]
            ]
            if unit["noplurals"]:
                aliases.insert(unit["noplural at"], el("noplural"))
            tail.append(el("aliases", *with_odd(extra.get("aliases"), [s["indent"], note(), *aliases])))
        extras = [el(t, text("some words")) for t in unit["extras"]]
        parts = [
            head + symbols + tail + extras,
            symbols + head[::-1] + extras + tail,
            extras + tail + symbols + head,
            head + extras + symbols + tail,
        ][s["order"]]
        body.append(el("unit", *with_odd(extra.get("unit"), [s["indent"], note(), *parts])))
    if s["top"]:
        body.insert(0 if s["odd last"] else len(body), odd(s["top"]))
    ns = {"none": "", "default": ' xmlns="http://some.where/x"', "prefixed": ' xmlns:p="http://some.where/p"',
          "mixed": ' xmlns:p="http://some.where/p"'}[s["ns"]]  # fmt: skip
    t = tag("unit-system")
    inner = "".join(body)
    if s["root"] == "unit-system":
        doc = f"<{t}{ns}>{s['indent']}{inner}</{t}>"
    else:
        r = tag("udunits-2")
        doc = f"<{r}{ns}>{note()}<{t}>{s['indent']}{inner}</{t}></{r}>"
    doc = f"<?xml version='1.0' encoding='{s['encoding']}'?>\n{note()}{doc}\n"
    return doc.encode(s["encoding"], "xmlcharrefreplace")


def model_of(spec):
    system = R.System()
    for name, value, symbols, _ in spec["prefixes"]:
        system.add_prefix(name, value, symbols)
    for unit in spec["units"]:
        ref = {
            "name": [unit["name"][0], plural(unit["name"])] if unit["name"] else None,
            "symbols": unit["symbols"],
            "alias_names": [[a[1], plural(a[1:])] for a in unit["aliases"] if a[0] == "name"],
            "alias_symbols": [a[1] for a in unit["aliases"] if a[0] == "symbol"],
        }
        entry = R.Entry(
            ref,
            unit["def"]["ast"] if unit["kind"] == "def" else None,
            unit["kind"] == "dimensionless",
            unit["kind"] == "base" and bool(unit["name"]) and unit["name"][0] == "second",
        )
        if system.clashes(ref):
            return None
        system.add(entry)
    return system


def load(parser, path):
    return parser.parse_file(pathlib.Path(path))


def database(spec, st):
    from pyudunits2 import _udunits2_xml_parser as X

    model = model_of(spec)
    data = render(spec)
    style_ = spec["style"]
    st.label("namespace " + style_["ns"])
    st.label("encoding " + style_["encoding"])
    st.label("comments", style_["comments"])
    places = [odd_of(u)[0] for u in spec["units"] if u["odd"]]
    places += ["prefix"] * any(p[3] for p in spec["prefixes"])
    odd = bool(style_["top"]) or bool(places)
    for place in places:
        st.label(f"odd content in {place}")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "units.xml")
        with open(path, "wb") as f:
            f.write(data)
        xml = data.decode(style_["encoding"])
        try:
            real = load(X.UDUNITS2XMLParser, path)
        except ValueError as err:
            if isinstance(err, SyntaxError):
                raise Violation(f"not well formed? {err}")
            if model is None:
                st.label("a spelling registered twice")
                st.nontrivial()
                return
            raise Violation(f"refused ({err}): {xml}")
        if model is None:
            raise Violation(f"a spelling is registered twice: {xml}")
        try:
            strict = load(X.UnhandledContentDisallowed, path)
        except ValueError as err:
            strict = None
            if not odd:
                raise Violation(f"the strict loader refuses ({err}): {xml}")
        if strict is not None and odd:
            raise Violation(f"the strict loader accepts unknown content: {xml}")
    st.label("odd content", odd)
    st.nontrivial()
    for system in (real, strict):
        if system is not None:
            compare(spec, model, system, xml, st)


def compare(spec, model, system, xml, st):
    from checks.c07 import both, look

    words = [w for u in spec["units"] for w in spellings(u)]
    absent = [u["name"][0] + "s" for u in spec["units"] if u["name"] and u["name"][1] is False]
    absent += ["no_such_word", ""]
    pre = [p[0] for p in spec["prefixes"]] + [s for p in spec["prefixes"] for s in p[2]]
    for w in words:
        if not model.cyclic(w) and both(model, w)[0] is None:
            raise AssertionError(f"{w!r} is not in the model")
    for w in words + absent + [p + w for p in pre for w in words[:6]] + pre:
        look(model, system, w, st)


SUBCHECKS = [
    Prop("database", lambda: G.from_bytes(spec_case, 260), database, 2600, 100000,
         "databases with prefixes, basis, dimensionless and derived units, aliases, plurals of every kind and "
         "forward references, in several XML styles and encodings; every spelling, prefixed spellings and "
         "absent words against a model; all are non-trivial"),
]  # fmt: skip


def setup():
    pass

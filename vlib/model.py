"""An independent reference model of UDUNITS-2 units.

Nothing here imports pyudunits2.  The model has its own reader for the XML
database (from a snapshot in /verif/data), its own parser, its own canonical
printer and its own (exact, rational) arithmetic.  Where a property relies on
the *meaning* of a unit, the checks cross-examine this model against the real
UDUNITS-2 C library (through cf_units) as well.

Expressions are nested lists (JSON friendly):

    ["num", "2.5e3"]          ["id", "meter"]
    ["mul", a, b]             ["div", a, b]
    ["pow", a, -2]            ["shift", a, "273.15"]
    ["log", "lg", a]          ["date", a, "2000-01-01 00:00"]
"""

from __future__ import annotations

import re
import xml.etree.ElementTree as ET
from decimal import Decimal
from fractions import Fraction
from functools import lru_cache
from pathlib import Path

import mpmath

MP = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
MP.dps = 40

DATA = Path(__file__).resolve().parent.parent / "data"
XML = DATA / "udunits2_combined.xml"

SUPERS = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻", "0123456789+-"))


class ModelError(Exception):
    """The expression has no meaning in the model."""


class ModelSyntaxError(ModelError):
    pass


class Unresolvable(ModelError):
    pass


# --------------------------------------------------------------------------
# Numbers


def number(text: str):
    """The value of a number literal, exactly."""
    return Fraction(Decimal(text))


def number_text(text: str) -> str:
    """How pyudunits2 shows a number literal."""
    if re.fullmatch(r"[+-]?[0-9]+", text):
        return str(int(text))
    return str(Decimal(text))


# --------------------------------------------------------------------------
# Canonical text


def canon(ast) -> str:
    """The canonical text of an expression."""
    op = ast[0]
    if op == "num":
        return number_text(ast[1])
    if op == "id":
        return ast[1]
    if op == "mul":
        rhs, first = canon(ast[2]), ast[2]
        while first[0] == "mul":
            first = first[1]
        if first[0] == "div":
            rhs = f"({rhs})"
        return f"{canon(ast[1])}·{rhs}"
    if op == "div":
        rhs = canon(ast[2])
        if ast[2][0] in ("mul", "div"):
            rhs = f"({rhs})"
        return f"{canon(ast[1])}/{rhs}"
    if op == "pow":
        lhs = canon(ast[1])
        if ast[1][0] in ("mul", "div", "pow"):
            lhs = f"({lhs})"
        return f"{lhs}^{ast[2]}"
    if op == "shift":
        return f"({canon(ast[1])} @ {number_text(ast[2])})"
    if op == "date":
        return f"({canon(ast[1])} @ {ast[2]})"
    if op == "log":
        return f"({ast[1]}(re {canon(ast[2])}))"
    raise AssertionError(op)


def walk(ast):
    yield ast
    for child in ast[1:]:
        if isinstance(child, list):
            yield from walk(child)


def identifiers(ast) -> set:
    return {n[1] for n in walk(ast) if n[0] == "id"}


def size(ast) -> int:
    return sum(1 for _ in walk(ast))


# --------------------------------------------------------------------------
# Parser (for definitions, and for the canonical texts pyudunits2 produces)

NUMBER = re.compile(r"[+-]?(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?")
# UDUNITS-2's <id>: letters, with digits allowed anywhere but at the ends.
_L = r"[^\W\d]|[°µμΩℓ℃℉'\"%′″Å]"
IDENT = re.compile(rf"(?:{_L})(?:(?:{_L}|[0-9])*(?:{_L}))?|[℃℉%'\"′″°]")
LOGRE = re.compile(r"(log|lg|ln|lb) *\( *(?:re|RE):? *")
INT = re.compile(r"[+-]?[0-9]+")


class _P:
    def __init__(self, text):
        self.t = text
        self.i = 0

    def fail(self, why):
        raise ModelSyntaxError(f"{why} at {self.i} of {self.t!r}")

    def ws(self):
        j = self.i
        while self.i < len(self.t) and self.t[self.i] == " ":
            self.i += 1
        return self.i > j

    def m(self, rx):
        got = rx.match(self.t, self.i)
        if got:
            self.i = got.end()
        return got

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def shift(self):
        node = self.product()
        j = self.i
        self.ws()
        if self.peek() == "@":
            self.i += 1
            self.ws()
            rest = self.t[self.i :]
            depth, k = 0, 0
            while k < len(rest) and not (rest[k] == ")" and depth == 0):
                depth += {"(": 1, ")": -1}.get(rest[k], 0)
                k += 1
            content = rest[:k].strip()
            self.i += k
            if NUMBER.fullmatch(content):
                return ["shift", node, content]
            return ["date", node, content]
        self.i = j
        return node

    def product(self):
        node = self.power()
        while True:
            j = self.i
            had_ws = self.ws()
            c = self.peek()
            if c in ("*", "·"):
                self.i += 1
                self.ws()
                node = ["mul", node, self.power()]
            elif c == "." and not re.match(r"\.[0-9]", self.t[self.i :]):
                self.i += 1
                node = ["mul", node, self.power()]
            elif c == "/":
                self.i += 1
                self.ws()
                node = ["div", node, self.power()]
            elif c and c not in ")@":
                node = ["mul", node, self.power()]
            else:
                self.i = j
                return node

    def power(self):
        base = self.basic()
        if self.t.startswith("**", self.i):
            self.i += 2
        elif self.peek() == "^":
            self.i += 1
        elif self.peek() and self.peek() in SUPERS:
            s = ""
            while self.peek() and self.peek() in SUPERS:
                s += SUPERS[self.peek()]
                self.i += 1
            return ["pow", base, int(s)]
        elif base[0] != "num" and INT.match(self.t, self.i):
            return ["pow", base, int(self.m(INT).group())]
        else:
            return base
        got = self.m(INT)
        if not got:
            self.fail("exponent expected")
        return ["pow", base, int(got.group())]

    def basic(self):
        got = self.m(LOGRE)
        if got:
            inner = self.shift()
            if self.peek() != ")":
                self.fail(") expected")
            self.i += 1
            return ["log", got.group(1), inner]
        if self.peek() == "(":
            self.i += 1
            inner = self.shift()
            if self.peek() != ")":
                self.fail(") expected")
            self.i += 1
            return inner
        got = self.m(NUMBER)
        if got:
            return ["num", got.group()]
        got = self.m(IDENT)
        if got:
            return ["id", got.group()]
        self.fail("unit expected")


def parse(text: str):
    text = text.strip()
    if not text:
        return ["num", "1"]
    p = _P(text)
    node = p.shift()
    if p.i != len(text):
        p.fail("unexpected text")
    return node


# --------------------------------------------------------------------------
# Meaning

BASE = {"lg": 10, "lb": 2, "ln": None, "log": 10}


class MU:
    """A unit.  ``fwd`` takes a value in the unit to basis units."""

    dims: dict  # basis name -> order, with dimensionless basis units (radian) too

    def fwd(self, x):
        raise NotImplementedError

    def inv(self, v):
        raise NotImplementedError

    def linear(self):
        """The unit without its origin (None for logarithms)."""
        raise NotImplementedError

    exact = True
    kind = ""


def mp(x):
    if isinstance(x, Fraction):
        return MP.mpf(x.numerator) / x.denominator
    return MP.mpf(x)


class Lin(MU):
    kind = "lin"

    def __init__(self, scale: Fraction, dims: dict):
        self.scale = scale
        self.dims = {k: v for k, v in dims.items() if v}

    def fwd(self, x):
        return x * self.scale if isinstance(x, Fraction) else x * mp(self.scale)

    def inv(self, v):
        return v / self.scale if isinstance(v, Fraction) else v / mp(self.scale)

    def linear(self):
        return self

    def key(self):
        return ("lin", self.scale, tuple(sorted(self.dims.items())))


class Off(MU):
    kind = "off"

    def __init__(self, unit: MU, origin: Fraction):
        if isinstance(unit, Off):
            unit, origin = unit.unit, unit.origin + origin
        self.unit, self.origin = unit, origin
        self.dims = unit.dims
        self.exact = unit.exact

    def fwd(self, x):
        o = self.origin if isinstance(x, Fraction) else mp(self.origin)
        return self.unit.fwd(x + o)

    def inv(self, v):
        x = self.unit.inv(v)
        return x - (self.origin if isinstance(x, Fraction) else mp(self.origin))

    def linear(self):
        return self.unit.linear()

    def key(self):
        return ("off", self.unit.key(), self.origin)


class Log(MU):
    kind = "log"
    exact = False

    def __init__(self, fn: str, ref: MU):
        self.fn, self.ref = fn, ref
        self.dims = ref.dims

    def fwd(self, x):
        base = BASE[self.fn]
        x = mp(x)
        return self.ref.fwd(MP.exp(x) if base is None else MP.power(base, x))

    def inv(self, v):
        base = BASE[self.fn]
        r = mp(self.ref.inv(mp(v)))
        if r <= 0:
            raise ModelError("logarithm of a non-positive value")
        return MP.log(r) if base is None else MP.log(r) / MP.log(base)

    def linear(self):
        return None

    def key(self):
        fn = "lg" if self.fn == "log" else self.fn
        return ("log", fn, self.ref.key())


class Scaled(MU):
    """A scaled logarithm or (through a prefix) a scaled unit with an origin."""

    kind = "scaled"

    def __init__(self, k: Fraction, unit: MU):
        if isinstance(unit, Scaled):
            k, unit = k * unit.k, unit.unit
        self.k, self.unit = k, unit
        self.dims = unit.dims
        self.exact = unit.exact

    def fwd(self, x):
        return self.unit.fwd(x * self.k if isinstance(x, Fraction) else x * mp(self.k))

    def inv(self, v):
        x = self.unit.inv(v)
        return x / self.k if isinstance(x, Fraction) else x / mp(self.k)

    def linear(self):
        inner = self.unit.linear()
        return None if inner is None else Lin(inner.scale * self.k, inner.dims)

    def key(self):
        return self.unit.key() if self.k == 1 else ("scaled", self.k, self.unit.key())


def _add(a: dict, b: dict, sign=1) -> dict:
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
    return {k: v for k, v in out.items() if v}


def _log_multiple(log: MU, by: Lin, sign) -> MU:
    """A logarithm times (by) a dimensionless multiple; the origin is lost."""
    if any(d != "radian" for d in by.dims):
        raise ModelError("product of a logarithm with a unit")
    if by.scale == 0:
        raise ModelError("zero times a logarithm")
    while isinstance(log, Off):
        log = log.unit
    return Scaled(by.scale if sign > 0 else 1 / by.scale, log)


def multiply(a: MU, b: MU, sign=1) -> MU:
    la, lb = a.linear(), b.linear()
    if la is None and lb is not None:
        return _log_multiple(a, lb, sign)
    if lb is None and la is not None and sign > 0:
        return _log_multiple(b, la, sign)
    if la is None or lb is None:
        raise ModelError("product with a logarithm")
    if sign < 0 and lb.scale == 0:
        raise ModelError("division by zero")
    return Lin(
        la.scale * lb.scale if sign > 0 else la.scale / lb.scale,
        _add(la.dims, lb.dims, sign),
    )


def power(a: MU, n: int) -> MU:
    if n == 1:
        return a
    la = a.linear()
    if la is None:
        raise ModelError("power of a logarithm")
    if n < 0 and la.scale == 0:
        raise ModelError("division by zero")
    return Lin(la.scale**n, {k: v * n for k, v in la.dims.items()})


class Registry:
    """Names, prefixes and definitions, and the meaning of expressions."""

    def __init__(self):
        self.names: dict = {}  # any spelling -> key of the unit
        self.defs: dict = {}  # key -> definition text, or None for a basis unit
        self.dimensionless: set = set()
        self.prefix_names: dict = {}
        self.prefix_symbols: dict = {}
        self._cache: dict = {}
        self._aux: dict = {}

    def lookup(self, name: str):
        """(prefix value | None, unit key)"""
        if name in self.names:
            return None, self.names[name]
        for table in (self.prefix_names, self.prefix_symbols):
            for n in range(len(name) - 1, 0, -1):
                if name[:n] in table and name[n:] in self.names:
                    return table[name[:n]], self.names[name[n:]]
        raise Unresolvable(name)

    def named(self, name: str) -> MU:
        if name not in self._cache:
            prefix, key = self.lookup(name)
            unit = self.unit_of_key(key)
            if prefix is not None:
                k = number(prefix)
                unit = (
                    Lin(k * unit.scale, unit.dims)
                    if isinstance(unit, Lin)
                    else Scaled(k, unit)
                )
            self._cache[name] = unit
        return self._cache[name]

    def unit_of_key(self, key) -> MU:
        if key not in self._aux:
            definition = self.defs[key]
            if definition is None:
                self._aux[key] = Lin(Fraction(1), {key: 1})
            else:
                self._aux[key] = self.meaning(parse(definition))
        return self._aux[key]

    def meaning(self, ast) -> MU:
        op = ast[0]
        if op == "num":
            return Lin(number(ast[1]), {})
        if op == "id":
            return self.named(ast[1])
        if op == "mul":
            return multiply(self.meaning(ast[1]), self.meaning(ast[2]))
        if op == "div":
            return multiply(self.meaning(ast[1]), self.meaning(ast[2]), -1)
        if op == "pow":
            return power(self.meaning(ast[1]), ast[2])
        if op == "shift":
            return Off(self.meaning(ast[1]), number(ast[2]))
        if op == "log":
            return Log(ast[1], self.meaning(ast[2]))
        raise ModelError(op)

    def dims(self, ast) -> dict:
        """Dimensionality: structural, and defined for every expression."""
        op = ast[0]
        if op == "num":
            return {}
        if op == "id":
            return self.real_dims(self.named(ast[1]).dims)
        if op == "mul":
            return _add(self.dims(ast[1]), self.dims(ast[2]))
        if op == "div":
            return _add(self.dims(ast[1]), self.dims(ast[2]), -1)
        if op == "pow":
            return {k: v * ast[2] for k, v in self.dims(ast[1]).items() if v * ast[2]}
        if op in ("shift", "date"):
            return self.dims(ast[1])
        if op == "log":
            return self.dims(ast[2])
        raise AssertionError(op)

    def real_dims(self, dims: dict) -> dict:
        return {k: v for k, v in dims.items() if k not in self.dimensionless and v}

    def relation(self, a: MU, b: MU):
        """'direct', 'reciprocal' or None"""
        da, db = self.real_dims(a.dims), self.real_dims(b.dims)
        if da == db:
            return "direct"
        if da == {k: -v for k, v in db.items()}:
            return "reciprocal"
        return None

    def convert(self, a: MU, b: MU, x):
        rel = self.relation(a, b)
        if rel is None:
            raise ModelError("not convertible")
        v = a.fwd(x)
        if rel == "reciprocal":
            if v == 0:
                raise ModelError("reciprocal of zero")
            v = 1 / v
        return b.inv(v)


# --------------------------------------------------------------------------
# The database


def local(tag) -> str:
    return tag.rpartition("}")[2] if isinstance(tag, str) else "!"


def plural_of(singular: str) -> str:
    """UDUNITS-2's formPlural()"""
    if singular.endswith("y"):
        if len(singular) > 1 and singular[-2] in "aeiou":
            return singular + "s"
        return singular[:-1] + "ies"
    if singular.endswith(("s", "x", "z", "ch", "sh")):
        return singular + "es"
    return singular + "s"


def _name(el):
    singular = plural = None
    noplural = False
    for c in el:
        tag = local(c.tag)
        if tag == "singular":
            singular = (c.text or "").strip()
        elif tag == "plural":
            plural = (c.text or "").strip()
        elif tag == "noplural":
            noplural = True
    if plural is None and not noplural:
        plural = plural_of(singular)
    return singular, plural


class Database(Registry):
    def __init__(self, path=XML):
        super().__init__()
        self.entries = []  # (key, spelling, how)
        root = ET.parse(path).getroot()
        [system] = [e for e in root.iter() if local(e.tag) == "unit-system"]
        n = 0
        for el in system:
            tag = local(el.tag)
            if tag == "prefix":
                value = name = None
                symbols = []
                for c in el:
                    t = local(c.tag)
                    if t == "value":
                        value = c.text.strip()
                    elif t == "name":
                        name = c.text.strip()
                    elif t == "symbol":
                        symbols.append(c.text.strip())
                self.prefix_names[name] = value
                for s in symbols:
                    self.prefix_symbols[s] = value
            elif tag == "unit":
                n += 1
                spellings = []
                definition = None
                dimensionless = False
                for c in el:
                    t = local(c.tag)
                    if t == "name":
                        s, p = _name(c)
                        spellings.append((s, "name"))
                        if p:
                            spellings.append((p, "plural"))
                    elif t == "symbol":
                        spellings.append((c.text.strip(), "symbol"))
                    elif t == "aliases":
                        for a in c:
                            if local(a.tag) == "name":
                                s, p = _name(a)
                                spellings.append((s, "alias name"))
                                if p:
                                    spellings.append((p, "alias plural"))
                            elif local(a.tag) == "symbol":
                                spellings.append((a.text.strip(), "alias symbol"))
                    elif t == "def":
                        definition = (c.text or "").strip()
                    elif t == "dimensionless":
                        dimensionless = True
                key = spellings[0][0] if spellings else f"unit{n}"
                while key in self.defs:
                    key += "'"
                self.defs[key] = definition
                if dimensionless:
                    self.dimensionless.add(key)
                for s, how in spellings:
                    self.names.setdefault(s, key)
                    self.entries.append((key, s, how))


@lru_cache(maxsize=None)
def database() -> Database:
    return Database()


# Names the pyudunits2 lexer can take as one identifier.
LEXABLE = re.compile(
    "[A-Za-z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u00ff\u0080\u00ad\u00b0\u00b5πΩ]+"
)
KEYWORDS = {"after", "from", "since", "ref", "per", "PER", "log", "lg", "ln", "lb"}
SHIFT_WORDS = {"T", "Z", "UTC", "GMT", "TZ"}


def lexable(name: str) -> bool:
    return bool(LEXABLE.fullmatch(name))

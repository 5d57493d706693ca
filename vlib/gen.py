"""Generators: expressions, and the many spellings of an expression."""

from __future__ import annotations

from hypothesis import strategies as st

from . import model as M

LOGS = ["lg", "ln", "log", "lb"]

FREE_IDS = [
    "m", "s", "kg", "K", "a", "b", "x", "foo", "Foo_bar", "_x", "meter",
    "µm", "°C", "°", "Ω", "π", "À", "ÿ", "öl", "UTC", "T", "Z", "GMT", "TZ",
    "e", "E", "lb", "lg", "log", "re", "RE", "LOG", "mfrom", "since_x",
    "dayref", "perm", "per_", "afterx", "eV", "E_x",
]  # fmt: skip


class Src:
    """Choices decoded from bytes (a fixed number of bytes, drawn by Hypothesis
    or made by a coverage-guided fuzzer).  Zero is always the simplest choice,
    so that shrinking the bytes shrinks what is decoded."""

    def __init__(self, data: bytes):
        self.data = data
        self.i = 0

    def byte(self) -> int:
        i = self.i
        self.i += 1
        return self.data[i] if i < len(self.data) else 0

    def pick(self, n: int) -> int:
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() * n >> 8
        return (self.byte() * 65536 + self.byte() * 256 + self.byte()) * n >> 24

    def of(self, options):
        return options[self.pick(len(options))]

    def chance(self, percent: int) -> bool:
        """True on the high bytes."""
        return self.byte() * 100 >> 8 >= 100 - percent

    def weighted(self, table):
        """[(weight, value), ...]; the first is the simplest."""
        total = sum(w for w, _ in table)
        x = self.pick(total) if total <= 256 else self.pick(65536) * total >> 16
        for w, v in table:
            if x < w:
                return v
            x -= w
        return table[0][1]

    def perm(self, items):
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = i - self.pick(i + 1)
            items[i], items[j] = items[j], items[i]
        return items


def sources(n=96):
    return st.binary(min_size=n, max_size=n)


def from_bytes(decode, n=96):
    """A strategy for the cases a decoder makes of n bytes."""
    return sources(n).map(lambda data: decode(Src(data)))


def int_text(src):
    k = src.pick(5)
    if k == 0:
        return str(src.pick(13))
    if k == 1:
        return str(src.pick(256))
    if k == 2:
        return src.of(["1", "+1", "-1", "007", "+12", "-273", "1990", "10", "0"])
    if k == 3:
        return str(src.pick(10**6))
    return str(src.byte() + 1) + "0" * src.pick(20) + str(src.byte())


FRACS = ["5", "25", "0", "001", "15", "9144", "806650"]


def float_text(src):
    sign = src.of(["", "", "", "-", "+"])
    whole = str(src.pick(100) if src.pick(2) else src.pick(10000))
    frac = src.of(FRACS)
    shape = src.pick(4)
    exp = src.of(["", "", "", "e3", "E-6", "e+2", "e-19", "e23", "E0"])
    if shape == 2 and sign:
        shape = 0  # "-.5" is not in the grammar
    if shape == 0:
        body = f"{whole}.{frac}"
    elif shape == 1:
        body = f"{whole}."
    elif shape == 2:
        body = f".{frac}"
    else:
        body = whole
        exp = exp or "e2"
    return sign + body + exp


def num_text(src):
    return float_text(src) if src.chance(45) else int_text(src)


def wide_number(src):
    """Numbers of any length and magnitude."""
    def digits(n):
        return "".join(str(src.pick(10)) for _ in range(n))

    sign = src.of(["", "", "-", "+"])
    whole = digits(1 + src.pick(src.of([3, 12, 45])))
    k = src.pick(4)
    if k == 0:
        return sign + whole
    exp = src.of(["", "e", "E"])
    if exp:
        exp += src.of(["", "-", "+"]) + str(src.pick(src.of([12, 40, 400, 9000])))
    if k == 1:
        return sign + whole + (exp or ".")
    return sign + whole + "." + digits(src.pick(src.of([3, 12, 45]))) + exp


def exponent(src):
    k = src.pick(4)
    if k < 2:
        return src.of([2, 1, 3, -1, -2, 2, -1, 4])
    if k == 2:
        return src.pick(25) - 12
    return src.of([0, 42, -99, 10, 1234567890, -17])


def gen_ast(src, ids=FREE_IDS, leaves=8, shifts=True, logs=True, nums=True, exp=exponent):
    """An arbitrary grammatical expression."""

    def unary(node, depth):
        while depth < 3 and src.chance(28):
            depth += 1
            k = src.pick(6)
            if k >= 4 and logs and k == 5:
                node = ["log", src.of(LOGS), node]
            elif k == 4 and shifts:
                node = ["shift", node, num_text(src)]
            else:
                node = ["pow", node, exp(src)]
        return node

    def build(n):
        if n == 1:
            if nums and src.chance(25):
                node = ["num", num_text(src)]
            else:
                node = ["id", src.of(ids)]
            return unary(node, 0)
        left = n - 1 if src.pick(2) == 0 else 1 + src.pick(n - 1)
        op = "div" if src.chance(35) else "mul"
        return unary([op, build(left), build(n - left)], 1)

    if leaves > 5 and not src.chance(25):
        leaves = 4
    return build(1 + src.pick(leaves))


# --------------------------------------------------------------------------
# Spelling
#
# A piece of text carries the class of its first and of its last token:
#   id, int, sint (signed), float, iexp (an exponent stuck to a name),
#   exp (any other exponent), uexp (superscripts), "(" , ")" , log


class Piece:
    __slots__ = ("text", "first", "last", "first_id", "last_id")

    def __init__(self, text, first, last, first_id=None, last_id=None):
        self.text, self.first, self.last = text, first, last
        self.first_id, self.last_id = first_id, last_id


LEVEL = {"mul": 1, "div": 1, "pow": 2, "shift": 0, "date": 0}
SUP = str.maketrans("0123456789+-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻")


class Speller:
    """Renders an expression left to right, choosing among the spellings.

    ``pick(n)`` chooses one of n (0 is the plainest).  ``plain`` sticks to the
    spellings that do not depend on the lexer's context.
    """

    def __init__(self, pick, plain=False, udunits=False):
        self.pick = pick
        self.plain = plain
        self.udunits = udunits  # only what the C library also understands
        self.shifted = False  # a shift operator has been written
        self.used = set()

    def choose(self, options):
        name, value = options[self.pick(len(options)) if len(options) > 1 else 0]
        self.used.add(name)
        return value

    def spell(self, ast, level=0) -> Piece:
        natural = LEVEL.get(ast[0], 3)
        if natural < level:
            return self.paren(ast)
        if natural >= 1 and not self.plain and self.pick(12) == 11:
            self.used.add("redundant parentheses")
            return self.paren(ast)
        return getattr(self, "spell_" + ast[0])(ast)

    def paren(self, ast) -> Piece:
        inner = self.spell(ast, 0)
        return Piece(f"({inner.text})", "(", ")", inner.first_id)

    def spell_id(self, ast):
        return Piece(ast[1], "id", "id", ast[1], ast[1])

    def spell_num(self, ast):
        t = ast[1]
        if t.lstrip("+-").isdigit():
            c = "sint" if t[0] in "+-" else "int"
            return Piece(t, c, "int")
        return Piece(t, "sfloat" if t[0] in "+-" else "float", "float")

    def spell_mul(self, ast):
        a = self.spell(ast[1], 1)
        shifted = self.shifted
        b = self.spell(ast[2], 2)
        a_log_like = a.last == "id" and a.last_id in ("log", "lg", "ln", "lb")
        if a_log_like and b.first == "(":
            # "lg (re" would be the start of a logarithm
            sep = self.choose([("*", "*"), ("·", "·")])
            return self.join(a, sep, b)
        options = [("space", " "), ("*", "*"), ("·", "·")]
        if not self.plain:
            options.append(("spaces", "   "))
            if not shifted:
                if b.first in ("id", "(", "log"):
                    options.append(("-", "-"))
                if a.last == "id":
                    options.append((".", "."))
                if self.can_juxtapose(a, b):
                    options += [("juxtaposition", "")] * 2
        sep = self.choose(options)
        return self.join(a, sep, b)

    def can_juxtapose(self, a, b):
        if b.first == "id":
            if b.first_id[0] in "eE" and a.last not in (")", "uexp"):
                return False
            if self.udunits and a.last == "uexp":
                return False
            return a.last in ("int", "float", "iexp", "exp", "uexp", ")")
        if b.first in ("(", "log"):
            if b.first == "(" and a.last == "id" and b.first_id:
                pass
            return a.last in ("int", "float", "iexp", "exp", "uexp", ")", "id") and not (
                b.first == "log" and a.last == "id"
            )
        if b.first == "float" and b.text.startswith(".") and a.last == "iexp":
            return True
        if b.first in ("int", "float") and a.last == "uexp":
            return not self.udunits
        return False

    def spell_div(self, ast):
        a = self.spell(ast[1], 1)
        shifted = self.shifted
        b = self.spell(ast[2], 2)
        options = [("/", "/")]
        if not self.plain and not shifted:
            options += [
                (" / ", " / "),
                ("/ ", "/ "),
                (" /", "  /"),
                (" per ", " per "),
                (" PER ", " PER "),
            ]
        return self.join(a, self.choose(options), b)

    def join(self, a, sep, b):
        return Piece(a.text + sep + b.text, a.first, b.last, a.first_id, b.last_id)

    def spell_pow(self, ast):
        base = self.spell(ast[1], 3)
        n = ast[2]
        digits = str(abs(n))
        sign = "-" if n < 0 else ""
        options = [("^", ("^" + sign + digits, "exp"))]
        if not self.plain and not self.shifted:
            options.append(("**", ("**" + sign + digits, "exp")))
            if n >= 0:
                options.append(("^+", ("^+" + digits, "exp")))
            sup = (sign + digits).translate(SUP)
            if not self.udunits or n in (1, 2, 3):
                options.append(("superscript", (sup, "uexp")))
                if n >= 0 and not self.udunits:
                    options.append(("superscript +", ("⁺" + sup, "uexp")))
            e_like = base.last == "id" and base.last_id in ("e", "E")
            if not e_like and base.last in ("id", ")"):
                c = "iexp" if base.last == "id" else "exp"
                options.append(("attached exponent", (sign + digits, c)))
                if n >= 0:
                    options.append(("attached + exponent", ("+" + digits, c)))
            elif base.last in ("int", "float"):
                options.append(("attached - exponent", ((sign or "+") + digits, "exp")))
        text, last = self.choose(options)
        return Piece(base.text + text, base.first, last, base.first_id)

    def spell_shift(self, ast):
        a = self.spell(ast[1], 1)
        options = [(" @ ", " @ ")]
        if not self.plain and not self.shifted:
            options += [
                ("@", "@"),
                ("@ ", "@ "),
                (" @", " @"),
                (" since ", " since "),
                (" from ", " from "),
                (" after ", " after "),
                (" ref ", " ref "),
            ]
        op = self.choose(options)
        self.shifted = True
        return Piece(a.text + op + ast[2], a.first, "shift", a.first_id)

    def spell_date(self, ast):
        return self.spell_shift(ast)

    def spell_log(self, ast):
        options = [("(re ", "(re ")]
        if not self.plain:
            options += [
                ("(re: ", "(re: "),
                ("(RE ", "(RE "),
                (" (re ", " (re "),
                ("( re ", "( re "),
                ("(re:", "(re:"),
            ]
            if self.shifted:
                options = options[:1]
        op = self.choose(options)
        inner = self.spell(ast[2], 0)
        if op.endswith(":") is False and not op.endswith(" "):
            op += " "
        return Piece(f"{ast[1]}{op}{inner.text})", "log", ")")


# After a shift the lexer reads some words and digits as parts of a date.


def date_safe(ast, shifted=None) -> bool:
    """Whether the expression stays clear of the (known) limits of what may
    follow a shift: the words T, Z, UTC, GMT, TZ."""
    state = {"s": False}

    def go(n):
        if n[0] == "id":
            return not (state["s"] and n[1] in M.SHIFT_WORDS)
        ok = all(go(c) for c in n[1:] if isinstance(c, list))
        if n[0] in ("shift", "date"):
            state["s"] = True
        return ok

    return go(ast)


def spell(src, ast, udunits=False, padding=True):
    """{"ast":…, "text":…, "how": [spellings used]}"""
    sp = Speller(src.pick, udunits=udunits)
    text = sp.spell(ast).text
    if padding and not udunits:
        pad = src.pick(8)
        text = {5: " " + text, 6: text + "\n", 7: "\t " + text + "  "}.get(pad, text)
    return {"ast": ast, "text": text, "how": sorted(sp.used)}


def plain_text(ast) -> str:
    return Speller(lambda n: 0, plain=True).spell(ast).text

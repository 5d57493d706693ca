"""A reference implementation of pyudunits2's documented unit grammar.

This is a direct transcription of udunits2Lexer.g4.jinja and udunits2Parser.g4
(the project's "canonical source of truth") into regular expressions and a
small backtracking parser.  It shares nothing with the generated ANTLR lexer,
parser and runtime, nor with the visitor which builds expressions.

``parse(text)`` gives the expression (nested lists, see vlib.model), or raises
``Reject``.
"""

from __future__ import annotations

import re


class Reject(Exception):
    pass


# --- Lexer ---------------------------------------------------------------

INT = r"[0-9]+"
SIGNED = r"[+-][0-9]+"
ANY = r"(?:[+-]?[0-9]+)"
EPOW = rf"(?:[Ee]{ANY})"
FLOAT = rf"(?:(?:{ANY}\.(?:{INT})?|(?:{ANY})?\.{INT}){EPOW}?|{ANY}{EPOW})"
LATIN = "\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u00ff\u0080\u00ad\u00b0\u00b5πΩ"
DIVIDE = r" *(?:/| PER | per ) *"
# Alternatives where the first is not necessarily the longest are tried apart.
HOUR = [r"[+-]?[01]?[0-9]", r"2[0-3]"]
MINUTE = r"[0-5]?[0-9]"
SECOND = rf"(?:{MINUTE}|60)(?:\.[0-9]*)?"
MONTH = r"(?:1[0-2]|0?[1-9])"
DAY = r"(?:30|31|[12][0-9]|0?[1-9])"
YEAR = rf"{ANY}"
HOURS = rf"(?:2[0-3]|[+-]?[01]?[0-9])"

DEFAULT = [
    ("SIGNED_INT", SIGNED),
    ("PLUS", r"\+"),
    ("MULTIPLY", r"[*·-]"),
    ("DIVIDE", DIVIDE),
    ("PERIOD", r"\."),
    ("OPEN", r"\("),
    ("CLOSE", r"\)"),
    ("SEMICOLON", r":"),
    ("INT", INT),
    ("E_POWER", EPOW),
    ("FLOAT", FLOAT),
    ("SHIFT_OP", r"@|after|from|since|ref"),
    ("UEXP", "[⁻⁺¹²³⁴⁵⁶⁷⁸⁹⁰]+"),
    ("RAISE", r"\^|\*\*"),
    ("LOG", r"(?:log|lg|ln|lb) *\( *(?:RE|re):? *"),
    ("ID", rf"[A-Za-z_{LATIN}]+"),
    ("WS", r" "),
    ("ERROR", r"(?s:.)"),
]
SHIFT_ONLY = [
    ("TIMEZONE", r"UTC|Z|GMT"),
    ("TZ", r"TZ"),
    ("HMS", rf"{HOURS}:{MINUTE}:{SECOND}"),
    ("HM", rf"{HOURS}:{MINUTE}"),
    ("M_MINUS", r"-"),
    ("DATE", rf"{YEAR}-{MONTH}(?:-{DAY})?"),
    ("T", r"T"),
    ("TIMESTAMP", None),
]
ID_SEEN = [("SIGNED_INT", SIGNED), ("MULTIPLY", r"[.-]")] + [
    t for t in DEFAULT if t[0] != "FLOAT"
]


def _longest(rx, text, i):
    """The longest match of a pattern at i: Python's alternation is ordered,
    so shorter prefixes of the remaining text are tried as full matches."""
    got = rx.match(text, i)
    return got.end() if got else -1


_FULL: dict = {}


def _compile(table):
    return [(n, re.compile(p) if p is not None else None) for n, p in table]


_MODES = {
    "DEFAULT": _compile(DEFAULT),
    "SHIFT": _compile(SHIFT_ONLY + DEFAULT),
    "ID_SEEN": _compile(ID_SEEN),
}
_DATE_CHARS = re.compile(r"[0-9+:.T-]*")
_TS_RX = re.compile(
    rf"{YEAR}(?:{MONTH}(?:{DAY})?)?T{HOURS}(?:{MINUTE}(?:{SECOND})?)?"
)
_EXACT = {
    "HMS": re.compile(rf"{HOURS}:{MINUTE}:{SECOND}"),
    "HM": re.compile(rf"{HOURS}:{MINUTE}"),
    "DATE": re.compile(rf"{YEAR}-{MONTH}(?:-{DAY})?"),
    "TIMESTAMP": _TS_RX,
}


def _match(name, rx, text, i):
    if name in _EXACT:
        # Digits may be shared out in more than one way: find the longest
        # prefix which is a full match.
        end = _DATE_CHARS.match(text, i).end()
        for j in range(end, i, -1):
            if _EXACT[name].fullmatch(text, i, j):
                return j
        return -1
    return _longest(rx, text, i)


def tokens(text: str):
    out = []
    mode = "DEFAULT"
    i = 0
    while i < len(text):
        best, best_end = None, -1
        for name, rx in _MODES[mode]:
            j = _match(name, rx, text, i)
            if j > best_end:
                best, best_end = name, j
        out.append((best, text[i:best_end]))
        i = best_end
        if mode == "ID_SEEN":
            mode = "DEFAULT"
        elif best == "ID" and mode == "DEFAULT":
            mode = "ID_SEEN"
        elif best == "SHIFT_OP":
            mode = "SHIFT"
    return out


# --- Parser --------------------------------------------------------------
#
# Every rule is a generator of (node, next position), in the grammar's order of
# alternatives, so that taking the first complete parse is ANTLR's choice.


class _Parser:
    def __init__(self, toks, every=False):
        self.toks = toks
        self.every = every  # or the first of those which end at the same place
        self.memo: dict = {}

    def kind(self, i):
        return self.toks[i][0] if i < len(self.toks) else "EOF"

    def text(self, i, j):
        return "".join(t for _, t in self.toks[i:j])

    def rule(self, name, i):
        key = (name, i)
        if key not in self.memo:
            found = list(getattr(self, name)(i))
            if not self.every:
                first: dict = {}
                for node, j in found if name != "timestamp" else [(j, j) for j in found]:
                    first.setdefault(j, node)
                found = [(node, j) for j, node in first.items()] if name != "timestamp" else list(first)
            self.memo[key] = found
        return self.memo[key]

    def skip_ws(self, i):
        """WS?"""
        if self.kind(i) == "WS":
            yield i + 1
        yield i

    def unit_spec(self, i):
        for node, j in self.rule("shift_spec", i):
            if self.kind(j) == "EOF":
                yield node, j
        if self.kind(i) == "EOF":
            yield ["num", "1"], i

    def shift_spec(self, i):
        for node, j in self.rule("product", i):
            yield node, j
            for k in self.skip_ws(j):
                if self.kind(k) != "SHIFT_OP":
                    continue
                for m in self.skip_ws(k + 1):
                    if self.kind(m) in ("INT", "SIGNED_INT", "FLOAT"):
                        yield ["shift", node, self.toks[m][1]], m + 1
                for m in self.skip_ws(k + 1):
                    for end in self.rule("timestamp", m):
                        yield ["date", node, self.text(m, end)], end

    def product(self, i):
        # Left recursive: grow from the left, longest first does not matter as
        # all results are considered.
        done = []
        todo = list(self.rule("power", i))
        ends = set()
        while todo:
            node, j = todo.pop(0)
            if j in ends and not self.every:
                continue  # it goes on as the one before it
            ends.add(j)
            done.append((node, j))
            for rhs, k in self.rule("power", j):
                todo.append((["mul", node, rhs], k))
            if self.kind(j) == "MULTIPLY":
                for rhs, k in self.rule("power", j + 1):
                    todo.append((["mul", node, rhs], k))
            if self.kind(j) == "DIVIDE":
                for rhs, k in self.rule("power", j + 1):
                    todo.append((["div", node, rhs], k))
            w = j
            while self.kind(w) == "WS":
                w += 1
            if w > j:
                for rhs, k in self.rule("power", w):
                    todo.append((["mul", node, rhs], k))
        return done

    def power(self, i):
        for base, j in self.rule("logarithm", i):
            if self.kind(j) in ("INT", "SIGNED_INT"):
                yield ["pow", base, int(self.toks[j][1])], j + 1
            yield base, j
            if self.kind(j) == "RAISE" and self.kind(j + 1) in ("INT", "SIGNED_INT"):
                yield ["pow", base, int(self.toks[j + 1][1])], j + 2
            if self.kind(j) == "UEXP":
                yield ["pow", base, ["uexp", self.toks[j][1]]], j + 1

    def logarithm(self, i):
        yield from self.rule("basic", i)
        if self.kind(i) == "LOG":
            fn = self.toks[i][1].split("(")[0].strip()
            for node, j in self.rule("shift_spec", i + 1):
                if self.kind(j) == "CLOSE":
                    yield ["log", fn, node], j + 1

    def basic(self, i):
        k = self.kind(i)
        if k == "ID":
            yield ["id", self.toks[i][1]], i + 1
        elif k == "OPEN":
            for node, j in self.rule("shift_spec", i + 1):
                if self.kind(j) == "CLOSE":
                    yield node, j + 1
        elif k in ("INT", "SIGNED_INT", "FLOAT"):
            yield ["num", self.toks[i][1]], i + 1

    def timestamp(self, i):
        k = self.kind(i)
        date = k in ("DATE", "INT", "SIGNED_INT")
        if date:
            yield i + 1
            for j in (
                [i + 2] if self.kind(i + 1) in ("WS", "T") else []
            ) + [i + 1]:
                if self.kind(j) in ("HMS", "HM", "INT", "SIGNED_INT"):
                    yield from self.zone(j + 1)
        if k in ("INT", "SIGNED_INT"):
            if self.kind(i + 1) in ("HM", "INT", "SIGNED_INT", "TIMEZONE"):
                yield i + 2
        if k == "TIMESTAMP":
            yield from self.zone(i + 1)
        if date:
            for j in self.skip_ws(i + 1):
                if self.kind(j) in ("TIMEZONE", "TZ"):
                    yield j + 1

    def zone(self, i):
        """WS? (timezone_offset | TIMEZONE)?"""
        for j in self.skip_ws(i):
            yield j
            if self.kind(j) in ("HM", "INT", "SIGNED_INT", "TIMEZONE"):
                yield j + 1


SUPERS = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻", "0123456789+-"))


def _finish(node):
    """Give the superscript exponents their value (or reject them)."""
    if node[0] == "pow" and isinstance(node[2], list):
        s = "".join(SUPERS[c] for c in node[2][1])
        if not re.fullmatch(r"[+-]?[0-9]+", s):
            raise Reject(f"superscript {s!r}")
        node = ["pow", node[1], int(s)]
    return [_finish(c) if isinstance(c, list) else c for c in node]


def parse(text: str):
    toks = tokens(text.strip())
    for node, _ in _Parser(toks).rule("unit_spec", 0):
        return _finish(node)
    raise Reject("no parse")


def parses(text: str):
    """Every parse of the text."""
    toks = tokens(text.strip())
    out = []
    for node, _ in _Parser(toks, every=True).rule("unit_spec", 0):
        if node not in out:
            out.append(node)
    return [_finish(n) for n in out]

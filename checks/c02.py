"""C02: every text is either read as the grammar documents or cleanly refused."""

import contextlib
import io
import random
import re
import sys
import unicodedata

from hypothesis import strategies as hs

from vlib import gen as G, model as M, pools as P, refgrammar as R, sut
from vlib.harness import Enum, Prop, Violation

PROPERTY = "C02"
ASSUMPTIONS = [
    "vlib.refgrammar transcribes the two grammar files of the project",
]

TOKENS = [
    "m", "s", "kg", "K", "foo", "e", "E", "E2", "e-3", "per", " per ", " PER ",
    "after", "from", "since", "ref", " since ", "@", " @ ", "lg", "ln(re ",
    "log(re: ", "lb (RE ", "lg(re", "re", "RE", "(", ")", "·", "*", "**", "^",
    "^-", "^+2", ".", "-", "+", "/", " ", "  ", ":", ",", "²", "⁻¹", "⁺", "⁻",
    "°", "µm", "π", "Ω", "À", "×", "μ", "%", "'", '"', "′", "_", "T", "Z",
    "UTC", "GMT", "TZ", "2000-01-01", "2000-1", "12:30", "00:00:60", "23:59:59.9",
    "-5", "+3", "2", "10", "007", "-273.15", "1.", ".5", "-.5", "1e3", "1.5E-6",
    "19900101T000000", "T12", "1990T00", "\t", "\n", "\u00a0", "\x00", "😀", "é",
    "²³", "#", "[", "\\", "=", "e2", "2000", "99", "-1", "+10:30", "13:00", "60",
]  # fmt: skip

ALPHABET = (
    "mskgKeETZUCGPRrefsinclobafdp0123456789 +-*/^().@:·²³¹⁻⁺°µπΩ_\t\n%'\"é×😀#"
)


def soup_case(src):
    n = 1 + src.pick(9)
    return "".join(src.of(TOKENS) for _ in range(n))


def mutant_case(src):
    """A correct text with a few characters changed."""
    ast = G.gen_ast(src, leaves=4)
    if src.chance(25):
        ast = ["date", ["id", "s"], timestamp(src)]
    text = G.spell(src, ast)["text"]
    for _ in range(1 + src.pick(3)):
        i = src.pick(len(text) + 1)
        k = src.pick(5)
        if k == 0:
            text = text[:i] + src.of(ALPHABET) + text[i:]
        elif k == 1:
            text = text[:i] + text[i + 1 :]
        elif k == 2:
            text = text[:i] + src.of(ALPHABET) + text[i + 1 :]
        elif k == 3:
            text = text[:i] + src.of(TOKENS) + text[i:]
        else:
            j = src.pick(len(text) + 1)
            i, j = sorted((i, j))
            text = text[:j] + text[i:j] + text[j:]
    return text[:120]


def timestamp(src):
    y = src.of(["2000", "1", "-44", "+1990", "19900101", "0000"])
    if src.chance(70):
        y += "-" + src.of(["1", "01", "12", "13", "0", "6"])
        if src.chance(70):
            y += "-" + src.of(["1", "01", "31", "30", "32", "0", "9"])
    if src.chance(60):
        y += src.of([" ", "T", "  ", ""])
        y += src.of(["12", "0", "23", "24", "-3", "+7", "1200", "7:5"])
        if src.chance(60):
            y += ":" + src.of(["00", "59", "60", "5"])
            if src.chance(60):
                y += ":" + src.of(["00", "60", "61", "1.5", "07.", "7"])
    if src.chance(50):
        y += src.of(["", " "]) + src.of(["UTC", "Z", "GMT", "TZ", "+1", "-5:30", "0"])
    return y


def text_strategy():
    return hs.text(alphabet=hs.sampled_from(ALPHABET), min_size=0, max_size=24)


LONG = [
    # what is repeated, at most how often (nesting and operators are limited by Python's recursion)
    (" ", 1000), ("a", 1500), ("1", 900), ("0", 900), ("m ", 90), ("m/", 60), ("s.", 90), ("2 ", 90), ("kg·", 90),
    ("(", 25), ("\t", 40), ("²", 300), ("m-1 ", 90), ("_b", 400), ("m**2*", 80),
]  # fmt: skip


def long_case(src):
    """Texts of up to thousands of characters, with something at the very end."""
    parts = [src.of(["", "m", "m ", "2 ", "lg(re ", "s since ", "(", "K @ 1", "m·", "m/"])]
    closing = ""
    for _ in range(1 + src.pick(2)):
        what, most = src.of(LONG)
        n = 1 + src.pick(most)
        parts.append(what * n)
        if what == "(":
            closing = ")" * (n - src.of([0, 0, 0, 1])) + closing
        parts.append(src.of(["", "m", "s", "2", " ", "kg ", "2000-01-01"]))
    parts.append(closing)
    parts.append(src.of(["", "", "", "s", " s", ".s", "%", ")", " (", "-", "/kg", "^2", "@2", " since 1-1-1"]))
    return "".join(parts)


def unicode_strategy():
    return hs.one_of(
        hs.text(max_size=16),
        hs.tuples(hs.sampled_from(["m", "m ", "2", "(m", ""]), hs.text(max_size=3), hs.sampled_from(["", " s", "2", ")"])).map("".join),
    )


def language(text, st):
    """Accepted exactly when the documented grammar derives it, and read as the
    grammar says; SyntaxError otherwise."""
    from pyudunits2._grammar import normalize

    if max(map(len, re.findall("[0-9]+", text)), default=0) > 1000:
        return
    try:
        want = R.parse(text)
        want_text = M.canon(want) if text.strip() else ""
    except R.Reject:
        want_text = None
    except ArithmeticError:
        want_text = None  # a number which cannot be represented
    printed = io.StringIO()
    try:
        with contextlib.redirect_stdout(printed), contextlib.redirect_stderr(printed):
            got = normalize(text)
    except SyntaxError as err:
        got, err_text = None, str(err)
    except RecursionError:
        st.label("nested too deeply")
        return
    if printed.getvalue():
        raise Violation(f"{text!r} makes it print {printed.getvalue()!r}")
    st.label("accepted" if got is not None else "refused")
    st.nontrivial(got is not None or len(text.strip()) > 2)
    if (got is None) != (want_text is None):
        if got is None:
            raise Violation(f"{text!r} is refused ({err_text}); it denotes {want_text!r}")
        raise Violation(f"{text!r} is accepted, as {got!r}; no rule derives it")
    if got != want_text:
        raise Violation(f"{text!r} is read as {got!r}, not as {want_text!r}")


AROUND = ["{}", "-{}", "+{}", "m {}", "{} m", "m^{}", "m^-{}", "m**+{}", "m{}", "m-{}", "m^-2 {}", "K @ {}", "K@-{}", "lg(re {} m)",
          "{}.5", ".{}", "0.{} m", "{}e5", "{}.{}e-7 m", "K since {}.5", "m/{}", "({})", "2 ({} s)^2", "m{} s", "m{}", "s.{}.m", "{} per s", "s since {}", "s@{}.5"]  # fmt: skip


def digits_cases(tier, seed):
    limit = sys.get_int_max_str_digits() or 10**5
    lengths = [1000, 1001, limit - 1, limit, limit + 1, limit + 2, 2 * limit, 10**5]
    if tier != "quick":
        lengths += [2000, 3000, limit + 100, 5 * limit, 10**6]
    return [[how, n, d] for how in AROUND for n in lengths for d in ("7", "1", "0") if d == "7" or n < 10**4]


def digits(case, st):
    """Numbers of as many digits as one likes are read to the last digit, or
    refused as any text is (Python limits the digits of its integers)."""
    from pyudunits2._grammar import normalize

    how, n, d = case
    number = "9" + d * (n - 1)
    text = how.format(number, number)
    limit = sys.get_int_max_str_digits() or n
    try:
        got = normalize(text)
    except SyntaxError:
        st.label("refused")
        st.nontrivial(n > limit)
        if n <= limit:
            raise Violation(f"{how!r} is refused with {n} digits {d}") from None
        return
    st.nontrivial()
    st.label("read")
    shown = re.findall("[0-9]{900,}", got.replace(".", ""))
    read = [x.strip("0") for x in re.findall("[0-9]{900,}", text.replace(".", ""))]
    if [x.strip("0") for x in shown] != read:
        raise Violation(f"{how!r} with {n} digits {d} is read as {got[:40]}...{got[-40:]}")
    if normalize(got) != got:
        raise Violation(f"{how!r} with {n} digits {d} becomes {got[:40]}... whose text is another")


def unit_case(src):
    """Texts for UnitSystem.unit: mostly correct tokens, with real names."""
    if src.chance(50):
        n = 1 + src.pick(7)
        out = []
        for _ in range(n):
            out.append(P.name(src) if src.chance(35) else src.of(TOKENS))
        return "".join(out)
    ids = [P.name(src) for _ in range(3)]
    ast = G.gen_ast(src, ids=ids + ["foo", "second", "day"], leaves=4)
    if src.chance(30):
        ast = ["date", ast, timestamp(src)]
    return G.spell(src, ast)["text"]


def _log_like(n):
    return n[0] == "log" or (
        n[0] == "id" and M.database().named(n[1]).kind not in ("lin", "off")
    )


def outcome(text):
    """What UnitSystem.unit should make of a text: 'unit', 'date', or the
    exceptions it may raise; None when there is no verdict."""
    from pyudunits2 import UnresolvableUnitException

    try:
        ast = R.parse(text)
        M.canon(ast)
    except (R.Reject, ArithmeticError):
        return SyntaxError
    db = M.database()
    for i in sorted(M.identifiers(ast)):
        try:
            if not P.readable(db.lookup(i)[1]):
                return None
        except M.Unresolvable:
            return UnresolvableUnitException
    nodes = list(M.walk(ast))
    for n in nodes:
        if n[0] in ("mul", "div", "pow") and any(map(_log_like, M.walk(n))):
            return None  # products of logarithms are a known finding (C13)
    inner = [n for n in nodes if n[0] in ("shift", "date")]
    kind = "unit"
    if ast[0] in ("shift", "date") and db.dims(ast[1]) == {"second": 1}:
        kind = "date"
        inner = [n for n in inner if n is not ast]
    if any(n[0] == "date" or db.dims(n[1]) == {"second": 1} for n in inner):
        return ValueError
    return kind


def unit(text, st):
    """A unit, a SyntaxError, a refusal (ValueError) of e.g. a nested date, or
    UnresolvableUnitException."""
    from pyudunits2 import DateUnit, Unit, UnresolvableUnitException

    want = outcome(text)
    try:
        u = sut.unit(text)
    except (SyntaxError, ValueError, UnresolvableUnitException) as err:
        st.label("refused: " + type(err).__name__)
        if isinstance(err, UnresolvableUnitException):
            st.nontrivial()
        if want is not None and not (isinstance(want, type) and isinstance(err, want)):
            raise Violation(f"{text!r} is refused ({err!r}); expected {want}")
        return
    except RecursionError:
        st.label("nested too deeply")
        return
    kind = "date" if isinstance(u, DateUnit) else "unit"
    st.label("a " + kind)
    st.nontrivial()
    if want is not None and kind != want:
        raise Violation(f"{text!r} gives a {kind} ({u}); expected {want}")
    if kind == "unit" and not isinstance(u, Unit):
        raise Violation(f"{text!r} gives {u!r}")
    if not isinstance(str(u), str):
        raise Violation(f"str of {text!r} is not a str")


def date_case(src):
    op = src.of(["@", " @ ", " since ", " from ", " after ", " ref ", " @", "@ "])
    return src.of(["s", "days", "(m s)", "2 s", "s2"]) + op + timestamp(src)


PLACES = ["k{}m", "{}km", "km{}", "2{} m", "m {}s", "m{}2", "1{}0 m", "K @ {}5", "s since 2000{}-01-01", "lg(re{} m)", "m^{}2"]


def odd_cases(tier, seed):
    """Every control, format and space character, and others, within a correct text."""
    rng = random.Random(seed)
    points = [c for c in range(0x110000) if not 0xD800 <= c < 0xE000 and not 0xE000 <= c < 0xF900]
    special = [c for c in points if unicodedata.category(chr(c)) in ("Cc", "Cf", "Zs", "Zl", "Zp")]
    others = rng.sample(points, 500) if tier == "quick" else points[:0x10000]
    digits = [c for c in points if unicodedata.category(chr(c)) in ("Nd", "No", "Sk", "Pd", "Ps", "Pe", "Mn")]
    out = [[place, chr(c)] for c in special for place in (PLACES if tier != "quick" else rng.sample(PLACES, 5))]
    for c in (*others, *(rng.sample(digits, 400) if tier == "quick" else digits)):
        out += [[place, chr(c)] for place in rng.sample(PLACES, 2 if tier == "quick" else 4)]
    return out


def odd(case, st):
    place, c = case
    st.label(unicodedata.category(c))
    language(place.format(c), st)


SUBCHECKS = [
    Prop("soup", lambda: G.from_bytes(soup_case, 12), language, 14000, 300000,
         "sequences of grammar tokens in any order; non-trivial: accepted, or longer "
         "than two characters", must_end=True),
    Prop("mutants", lambda: G.from_bytes(mutant_case, 110), language, 5000, 200000,
         "correct spellings with one to three edits", must_end=True),
    Prop("dates", lambda: G.from_bytes(date_case, 24), language, 8000, 200000,
         "shift operators followed by well- and ill-formed dates", must_end=True),
    Prop("characters", text_strategy, language, 3000, 150000,
         "strings over the grammar's characters and a few others", must_end=True),
    Prop("unicode", unicode_strategy, language, 3000, 150000,
         "arbitrary Unicode strings", must_end=True),
    Enum("odd", odd_cases, odd,
         "correct texts with a control, format, space or other character in one place, through the "
         "whole of Unicode"),
    Prop("long", lambda: G.from_bytes(long_case, 16), language, 500, 20000,
         "texts of up to thousands of characters: long blanks, names, numbers, products", must_end=True),
    Enum("digits", digits_cases, digits,
         "numbers of up to 100000 digits in every place where there may be one, around Python's limit; "
         "non-trivial: read, or of more digits than Python's limit"),
    Prop("unit", lambda: G.from_bytes(unit_case, 96), unit, 6000, 150000,
         "texts with real names through UnitSystem.unit", must_end=True),
]  # fmt: skip


def setup():
    sut.system()

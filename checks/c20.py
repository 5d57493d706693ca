"""C20: the command line tells what the library does."""

import contextlib
import io
import math
import re
import sys

from vlib import gen as G, model as M, pools as P, refgrammar as R, sut
from vlib.harness import Prop, Violation
from checks.c09 import any_case, logs_allowed, no_time_shift
from checks.c10 import alive, pair_case
from checks.c13 import log_unit, reference
from checks.c18 import date_text

PROPERTY = "C20"
ASSUMPTIONS = [
    "a shown expression is arithmetic over 'value' with log, exp and sqrt (as Python and SymPy write it), "
    "its numbers shown to fifteen digits",
    "debug-parser is given one line of printable characters",
]


def command(*args):
    """(exit status, stdout, stderr) of the program, in this process."""
    from pyudunits2.__main__ import main

    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = ["pyudunits2", *args]
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as stop:
        status = stop.code if isinstance(stop.code, int) else 0 if stop.code is None else 1
    finally:
        sys.argv = argv
    return status, out.getvalue(), err.getvalue()


NAMES = {"log": math.log, "exp": math.exp, "sqrt": math.sqrt, "E": math.e, "pi": math.pi, "Abs": abs}
SHAPE = re.compile(r"(?:[0-9.eE+*/() -]|value|log|exp|sqrt|pi|\bE\b)*")


def evaluate(text, x):
    if not SHAPE.fullmatch(text):
        raise Violation(f"the expression shown is {text!r}")
    try:
        return float(eval(text, {"__builtins__": {}}, {**NAMES, "value": x}))
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    except Exception as err:
        raise Violation(f"the expression shown, {text!r}, can't be evaluated: {err!r}")


def units_case(src):
    k = src.pick(10)
    if k == 8:
        ref = reference(src)
        a = no_time_shift(log_unit(src, ref))
        b = no_time_shift(log_unit(src, ref)) if src.chance(50) else P.of_dimensionality(src, M.database().dims(a))
        a, b = (a, b) if src.pick(2) else (b, a)
    elif k == 9:
        t = [["id", P.of_dims(src, (("kelvin", 1),))] for _ in range(2)]
        a, b = [src.of([t[i], ["id", "degC"], ["id", "degF"], ["shift", t[i], "12.5"]]) for i in (0, 1)]
    else:
        a, b = pair_case(src)
    return [a, b, [P.value(src) for _ in range(3)]]


def usual(ast):
    """A spelling which argparse does not take for an option."""
    text = G.plain_text(ast)
    return text if not text.startswith("-") else f"({text})"


def expression(case, st):
    from pyudunits2 import Converter

    a, b, values = case
    db = M.database()
    if not (logs_allowed(a) and logs_allowed(b)):
        st.label("not claimed")
        return
    ta, tb = usual(a), usual(b)
    da, db_ = db.dims(a), db.dims(b)
    want = da == db_ or da == {k: -v for k, v in db_.items()}
    if want:
        try:
            ua, ub = db.meaning(a), db.meaning(b)
        except M.ModelError:
            return
        if not (alive(ua) and alive(ub)) or "scaled" in (ua.kind, ub.kind):
            st.label("not claimed")
            return
    status, out, err = command("conversion-expr", ta, tb)
    u, v = sut.unit(ta), sut.unit(tb)
    if err:
        raise Violation(f"conversion-expr {ta!r} {tb!r} writes {err!r} to stderr")
    if str(u) not in out or str(v) not in out:
        raise Violation(f"conversion-expr {ta!r} {tb!r} says {out!r}")
    if not want:
        st.label("not convertible")
        if status == 0 or "value" in out:
            raise Violation(f"conversion-expr {ta!r} {tb!r} exits with {status}: {out!r}")
        return
    if status:
        raise Violation(f"conversion-expr {ta!r} {tb!r} exits with {status}: {out!r}")
    st.nontrivial()
    st.label("convertible")
    shown = out.strip().splitlines()[-1]
    converter = Converter(u, v)
    names = {str(s) for s in converter.expression.free_symbols}
    if not names <= {"value"}:
        raise Violation(f"the expression of {ta!r} to {tb!r} is {converter.expression}")
    for x in values:
        try:
            with_converter = converter.convert(x)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        got = evaluate(shown, x)
        if isinstance(with_converter, complex) or got is None:
            continue
        c = sut.number(with_converter)
        if not math.isfinite(c) or not math.isfinite(got) or abs(c) < 1e-280:
            continue
        # Cancellation of the (fifteen) digits which are shown
        near = [evaluate(shown, x * (1 + 1e-13)), evaluate(shown, 0.0)]
        near = [n for n in near if n is not None and math.isfinite(n)]
        scale = max([abs(n) for n in near], default=0.0)
        if "log(" in shown:
            scale = max(scale, 1.0)  # log(exp(1e-14)) has lost its digits
        slack = abs(near[0] - got) * 10 if near else 0.0
        if abs(got - c) > 1e-12 * max(abs(c), abs(got), scale) + slack:
            raise Violation(
                f"{x} {ta!r} is {c} {tb!r}, and {got} by the expression shown, {shown!r}"
            )


def explain_case(src):
    if src.chance(20):
        return P.of_dims(src, (("second", 1),)) + " since " + date_text(src)
    ast = any_case(src)
    return usual(ast if logs_allowed(ast) else ["id", P.name(src)])


def explain(case, st):
    status, out, err = command("explain-unit", case)
    if status or err:
        raise Violation(f"explain-unit {case!r} exits with {status}: {err!r}")
    u = sut.unit(case)
    st.nontrivial()
    st.label(type(u).__name__)
    lines = out.splitlines()
    for what in (str(u), u.expanded(), str(u.dimensionality())):
        if not any(what in line for line in lines):
            raise Violation(f"explain-unit {case!r} does not say {what!r}: {out!r}")
    for basis, order in sut.dims(u).items():
        if not any(f"{basis!r}: {order}" in line for line in lines):
            raise Violation(f"explain-unit {case!r} does not say {basis}, {order}: {out!r}")


def tokens_case(src):
    k = src.pick(3)
    if k == 0:
        text = G.spell(src, G.gen_ast(src))["text"].strip()
    elif k == 1:
        text = "s since " + date_text(src)
    else:
        alphabet = "mskg12 .-+*/^()@·²⁻eE:TZ°µ%#é"
        text = "".join(src.of(alphabet) for _ in range(src.pick(12) + 1)).strip()
    if text.startswith("-"):
        text = "m" + text
    return text.replace("\n", " ") or "m"


def tokens(case, st):
    """All of the text, in order, one token a line."""
    status, out, err = command("debug-parser", case)
    if status:
        raise Violation(f"debug-parser {case!r} exits with {status}: {err!r}")
    lines = out.split("\n")
    if lines[-1] != "":
        raise Violation(f"debug-parser {case!r} says {out!r}")
    texts, kinds = [], []
    for line in lines[:-1]:
        text, sep, kind = line.rpartition(": ")
        if not sep:
            raise Violation(f"debug-parser {case!r} says {line!r}")
        texts.append(text)
        kinds.append(kind)
    st.nontrivial(len(texts) > 1)
    if "".join(texts) != case:
        raise Violation(f"the tokens of {case!r} are {texts}")
    want = [t for _, t in R.tokens(case)]
    if texts != want:
        raise Violation(f"the tokens of {case!r} are {texts}, not {want}")


SUBCHECKS = [
    Prop("expression", lambda: G.from_bytes(units_case, 160), expression, 1500, 60000,
         "conversion-expr of pairs of units; the expression shown, evaluated, gives what a Converter gives; "
         "non-trivial: they are convertible"),
    Prop("explain", lambda: G.from_bytes(explain_case, 96), explain, 1500, 60000,
         "explain-unit of units and date units"),
    Prop("tokens", lambda: G.from_bytes(tokens_case, 64), tokens, 4000, 100000,
         "debug-parser of texts, within the grammar and not; non-trivial: several tokens"),
]  # fmt: skip


def setup():
    sut.system()

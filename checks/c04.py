"""C04: what a unit is does not depend on what has been done before."""

import json
import math
import os
import random
import subprocess
import sys
import tempfile

from vlib import env, gen as G, model as M, observe as O, pools as P, registry as R, sut
from vlib.harness import Enum, Prop, Violation
from checks.c01 import small
from checks.c09 import any_case, logs_allowed
from checks.c18 import date_text

PROPERTY = "C04"
ASSUMPTIONS = [
    "conversions are compared to a relative 1e-9: the order of floating point "
    "operations is not claimed",
    "processes differ in PYTHONHASHSEED, locale, working directory, optimisation and time zone",
]


def a_text(src, dims):
    """A unit text; most are convertible to the others of the case."""
    k = src.weighted([(6, "same"), (2, "any"), (2, "off"), (1, "date"), (1, "bad"), (2, "one")])
    if k == "same":
        return G.plain_text(P.of_dimensionality(src, dims))
    if k == "any":
        ast = any_case(src)
        return G.plain_text(ast) if logs_allowed(ast) else "m"
    if k == "off":
        return src.of(["degC", "degF", "K", "K @ 20", "lg(re K)", "degC @ -3.5", "2 degC", "ln(re mW)", "Bm"])
    if k == "date":
        return src.of(["s", "days", "hours"]) + " since " + date_text(src)
    if k == "bad":
        return src.of(O.BAD + O.UNKNOWN)
    return G.plain_text(["id", P.name(src)])


def an_op(src, n):
    k = src.weighted(
        [(4, "convert"), (2, "array"), (3, "dims"), (2, "inverted"), (2, "eq"), (3, "convertible"),
         (2, "expanded"), (2, "str"), (2, "is"), (1, "dimeq"), (2, "text"), (1, "look"), (1, "expression")]
    )  # fmt: skip
    if k == "text":
        return [k, src.of(O.BAD + O.UNKNOWN) if src.chance(60) else G.plain_text(["id", P.name(src)])]
    if k == "look":
        return [k, src.of(O.UNKNOWN) if src.chance(40) else P.name(src)]
    i, j = src.pick(n), src.pick(n)
    if k in ("convert",):
        return [k, i, j, P.value(src)]
    if k == "array":
        return [k, i, j, [P.value(src) for _ in range(src.pick(3) + 1)]]
    return [k, i, j]


def history_case(src):
    dims = src.of([{"second": 1}, {"meter": 1}, {"kelvin": 1}, {}, {"second": -1},
                   {"meter": 2, "second": -2}, {"kilogram": 1, "meter": -3}])  # fmt: skip
    texts = [a_text(src, dims) for _ in range(2 + src.pick(4))]
    ops = [an_op(src, len(texts)) for _ in range(3 + src.pick(10))]
    # The same again, after everything else.
    ops += [ops[src.pick(len(ops))] for _ in range(3)]
    return {"texts": texts, "ops": ops}


def history(case, st):
    """On units which have lived through the history, and on new ones."""
    old_system = sut.fresh_system()
    old = O.make(old_system, case["texts"])
    kept = {}
    converted = False
    for n, op in enumerate(case["ops"]):
        got = O.perform(old_system, old, op, kept)
        new = O.make(sut.system(), case["texts"])
        want = O.perform(sut.system(), new, op)
        st.label(op[0] + ("" if not isinstance(want, list) or not want or want[:1] not in
                          (["SyntaxError"], ["UnresolvableUnitException"], ["IncompatibleUnitsError"], ["ValueError"])
                          else " refused"))  # fmt: skip
        if op[0] in ("convert", "array") and isinstance(want, (float, list)):
            converted = True
        if not O.same(got, want):
            raise Violation(
                f"step {n}: {op} over {case['texts']} gives {got} after the steps before, "
                f"{want} with new units in another system"
            )
    st.nontrivial(converted and len(case["ops"]) > 5)


# -- two systems in which the same names mean something else


WORDS = ["foo", "bar", "baz", "qux"]
# Names of basis units, which may be anything: sympy's names, those of pyudunits2's own symbols, Python's words.
NAMES = ["u", "v", "u", "v", "value", "to_value", "value_transformed_to_base_unit_scale", "E", "I", "S", "N", "Q",
         "pi", "lambda", "oo", "nan", "zoo", "x", "None", "Symbol", "beta", "log", "exp", "__class__"]  # fmt: skip


def systems_case(src):
    out = []
    u = src.of(NAMES)
    v = src.of([n for n in NAMES if n != u])
    dimensionless = src.of([[], [], [u], [v]])
    for _ in range(2):
        defs = []
        for i, w in enumerate(WORDS):
            known = [u, v] + WORDS[:i]
            node = ["id", src.of(known)]
            if src.chance(70):
                node = ["mul", ["num", src.of(["2", "3", "60", "0.5", "1e3"])], node]
            if src.chance(40):
                node = ["mul", node, ["pow", ["id", src.of(known)], src.of([-1, 2, 1])]]
            if src.chance(20):
                node = ["shift", node, src.of(["5", "-2", "273.15"])]
            defs.append([w, node])
        time = src.of([u, v, None])
        if any(node[0] == "shift" for _, node in defs):
            time = None  # no dates in definitions
        out.append({"basis": [u, v], "dimensionless": dimensionless, "defs": defs, "time": time,
                    "k": src.of(["1000", "1024", "10"])})  # fmt: skip
    ops = []
    for _ in range(4 + src.pick(8)):
        a, b = ["id", src.of(WORDS)], ["id", src.of(WORDS)]
        if src.chance(40):
            a = ["mul", a, ["pow", ["id", src.of([u, v, "kfoo", "kbar"])], src.of([1, -1, 2])]]
        op = src.of(["meaning", "meaning", "convert", "eq", "convert across", "eq across"])
        if op.endswith("across") and src.chance(60):
            b = a  # The same text, in the other system
        ops.append([src.pick(2), op, a, b, P.value(src)])
    return {"systems": out, "ops": ops}


def build(spec):
    from pyudunits2 import UnitSystem

    model, real = R.System(), UnitSystem()

    def add(name, node, time=False):
        ref = {"name": [name, None], "symbols": []}
        entry = R.Entry(ref, node, name in spec["dimensionless"], time and name not in spec["dimensionless"])
        model.add(entry)
        real.add_unit(R.real_unit(real, entry))

    for name in spec["basis"]:
        add(name, None, spec["time"] == name)
    for w, node in spec["defs"]:
        add(w, node)
    model.add_prefix("k", spec["k"], [])
    real.add_prefix(R.real_prefix("k", spec["k"], []))
    return model, real


def systems(case, st):
    from pyudunits2 import Converter, IncompatibleUnitsError

    built = [build(spec) for spec in case["systems"]]
    differ = False
    for n, (which, op, a, b, x) in enumerate(case["ops"]):
        model, real = built[which]
        model2, real2 = built[1 - which] if op.endswith("across") else built[which]
        op = op.removesuffix(" across")
        meaning = R._Meaning
        ta, tb = G.plain_text(a), G.plain_text(b)
        try:
            ma, mb = [
                meaning(m, {i: m.find(i) for i in sorted(M.identifiers(t))}, ()).meaning(t)
                for m, t in ((model, a), (model2, b))
            ]
        except M.ModelError:
            st.label("no meaning in the model")
            continue
        ua, ub = real.unit(ta), real2.unit(tb)
        where = f"step {n}, in system {which}{' and the other' if model2 is not model else ''}: "
        if op == "meaning":
            got, text = R.observe(ua)
            if got.key() != ma.key():
                raise Violation(f"{where}{ta!r} is {text!r}, not {ma.key()}")
            if sut.dims(ua) != model.real(ma.dims):
                raise Violation(f"{where}{ta!r} has the dimensionality {sut.dims(ua)}, not {model.real(ma.dims)}")
            time = [k for k in (case["systems"][which]["time"],) if model.real(ma.dims) == {k: 1}]
            if bool(ua.is_time_unit()) != bool(time):
                raise Violation(f"{where}is_time_unit of {ta!r} is {ua.is_time_unit()}")
        elif op == "eq":
            if not isinstance(ma, M.Lin) or not isinstance(mb, M.Lin):
                st.label("equality with an origin (C17's)")
                continue
            if bool(ua == ub) != (ma.key() == mb.key()):
                raise Violation(f"{where}{ta!r} == {tb!r} is {ua == ub}")
        else:
            da, db = model.real(ma.dims), model2.real(mb.dims)
            if da != db:
                if da != {k: -v for k, v in db.items()}:
                    try:
                        Converter(ua, ub)
                    except IncompatibleUnitsError:
                        continue
                    raise Violation(f"{where}{ta!r} converts to {tb!r}")
                continue
            want = float(mb.inv(ma.fwd(M.Fraction(x))))
            got = sut.number(Converter(ua, ub).convert(x))
            scale = abs(float(mb.inv(M.Fraction(0)))) + abs(float(mb.inv(ma.fwd(M.Fraction(0)))))
            if not sut.same(got, want, 1e-12, scale):
                raise Violation(f"{where}{x} {ta!r} is {got} {tb!r}, not {want}")
        other = built[1 - which][0]
        try:
            mo = meaning(other, {i: other.find(i) for i in sorted(M.identifiers(a))}, ()).meaning(a)
            differ = differ or mo.key() != ma.key()
        except M.ModelError:
            pass
        st.label(op)
    st.nontrivial(differ)


# -- other processes

CONFIGS = [
    {"PYTHONHASHSEED": "0"},
    {"PYTHONHASHSEED": "1"},
    {"PYTHONHASHSEED": "4242"},
    {"PYTHONHASHSEED": "random"},
    {"PYTHONHASHSEED": "7", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"PYTHONHASHSEED": "8", "LC_ALL": "POSIX", "PYTHONIOENCODING": "latin-1"},
    {"PYTHONHASHSEED": "9", "LC_ALL": "C.utf8", "TZ": "Asia/Kathmandu"},
    {"PYTHONHASHSEED": "10", "PYTHONOPTIMIZE": "1", "cwd": "/"},
    {"PYTHONHASHSEED": "11", "VERIF_PLAIN_SYMPY": "1", "few": "1"},
    {"PYTHONHASHSEED": "12", "cwd": "scratch", "backwards": "1"},
    {"PYTHONHASHSEED": "13", "backwards": "1", "SYMPY_USE_CACHE": "no", "few": "1"},
    {"PYTHONHASHSEED": "14", "PYTHONDEVMODE": "1", "few": "1"},
    {"PYTHONHASHSEED": "17", "cwd": "decoys", "UDUNITS2_XML_PATH": "udunits2.xml", "HOME": ".", "XDG_CONFIG_HOME": "."},
    {"PYTHONHASHSEED": "18", "PYTHONOPTIMIZE": "2", "VERIF_DECIMALS": "3"},
    {"PYTHONHASHSEED": "19", "VERIF_WARNINGS": "error"},
    {"PYTHONHASHSEED": "15", "VERIF_BLOCK": "numpy,scipy,cf_units"},
    {"PYTHONHASHSEED": "16", "VERIF_BLOCK": "scipy,cf_units"},
]


DECOY = """<?xml version="1.0"?>
<unit-system><prefix><name>kilo</name><value>7</value><symbol>k</symbol></prefix>
<unit><base/><name><singular>furlong</singular></name><symbol>m</symbol><symbol>s</symbol><symbol>K</symbol></unit>
</unit-system>
"""


def decoys(scratch):
    """Files which are nobody's business."""
    for where in ("", ".config", "pyudunits2", ".pyudunits2"):
        os.makedirs(os.path.join(scratch, where), exist_ok=True)
        for name in ("udunits2.xml", "udunits2_combined.xml", "udunits2-common.xml", "units.xml"):
            with open(os.path.join(scratch, where, name), "w") as f:
                f.write(DECOY)


def process_cases(tier, seed):
    rng = random.Random(seed)
    rounds = 1 if tier == "quick" else 12
    out = []
    for r in range(rounds):
        for config in CONFIGS:
            cases = []
            for _ in range(8 if "few" in config else 25):
                cases.append(history_case(G.Src(rng.randbytes(220))))
            out.append({"config": config, "cases": cases})
    return out


def processes(case, st):
    config = dict(case["config"])
    cases = case["cases"]
    backwards = config.pop("backwards", None)
    config.pop("few", None)
    cwd = config.pop("cwd", None)
    if cwd == "scratch":
        cwd = tempfile.gettempdir()
    environment = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    environment.update(config)
    # (ASCII only: the locale of the process is one of the things which vary)
    order = list(reversed(cases)) if backwards else cases
    with tempfile.TemporaryDirectory() as scratch:
        if cwd == "decoys":
            cwd = scratch
            environment = {k: os.path.join(scratch, v) if k == "UDUNITS2_XML_PATH" else v for k, v in environment.items()}
            decoys(scratch)
        done = subprocess.run(
            [sys.executable, "-W", "ignore", os.path.join(env.VERIF, "vlib", "observe.py")],
            input=json.dumps(order).encode("ascii"),
            env=environment,
            cwd=cwd,
            capture_output=True,
            timeout=400,
        )
    if done.returncode != 0:
        tail = done.stderr.decode("utf-8", "replace").strip().splitlines()[-8:]
        if any("/pyudunits2/" in line for line in tail):
            raise Violation(f"in a process with {config}: {tail}")
        raise AssertionError(f"the observer failed: {tail}")
    got = json.loads(done.stdout)
    if backwards:
        got.reverse()
    for c, outcomes in zip(cases, got):
        units = O.make(sut.system(), c["texts"])
        for op, there in zip(c["ops"], outcomes):
            here = json.loads(json.dumps(O.perform(sut.system(), units, op)))
            st.label(op[0])
            if "numpy" in config.get("VERIF_BLOCK", "") and op[0] in ("convert", "array"):
                # Python's numbers instead of numpy's, which go on where these are refused.
                if op[0] == "array" or not isinstance(here, float) or not math.isfinite(here):
                    continue
                if there in (["OverflowError"], ["ZeroDivisionError"], ["ValueError"]):
                    st.label("refused by Python's functions")
                    continue
                st.label("converted without numpy")
                zero = O.perform(sut.system(), units, [op[0], op[1], op[2], 0.0])
                if isinstance(there, float) and isinstance(zero, float) and abs(there - here) <= 1e-9 * abs(zero):
                    continue
            if not O.same(here, there):
                raise Violation(
                    f"{op} over {c['texts']} gives {here} here, {there} in a process with {config}"
                )
    st.nontrivial()


SYSTEMS = """
import json, sys
sys.path.insert(0, sys.argv[1])
from vlib import env, observe
observe.block(sys.argv[2].split(","))
from checks import c04
from vlib.harness import Stats, Violation
out = []
for case in json.load(sys.stdin):
    try:
        c04.systems(case, Stats())
        out.append(None)
    except Violation as err:
        out.append(str(err))
from pyudunits2 import UnitSystem
try:
    UnitSystem.from_udunits2_xml()
    out.append("the database was read")
except ImportError as err:
    out.append(None if "lxml" in str(err) or "xml" in str(err) else str(err))
sys.stdout.buffer.write(json.dumps(out).encode("ascii"))
"""


def without_cases(tier, seed):
    rng = random.Random(seed)
    return [
        {"block": block, "cases": [systems_case(G.Src(rng.randbytes(128))) for _ in range(60)]}
        for _ in range(2 if tier == "quick" else 30)
        for block in ("lxml", "lxml,numpy,scipy,cf_units")
    ]


def without(case, st):
    """Only reading the XML database needs lxml."""
    done = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", SYSTEMS, env.VERIF, case["block"]],
        input=json.dumps(case["cases"]).encode("ascii"),
        capture_output=True,
        timeout=400,
    )
    if done.returncode != 0:
        tail = done.stderr.decode("utf-8", "replace").strip().splitlines()[-8:]
        if any("/pyudunits2/" in line for line in tail):
            raise Violation(f"without {case['block']}: {tail}")
        raise AssertionError(f"the observer failed: {tail}")
    for c, problem in zip([*case["cases"], "from_udunits2_xml"], json.loads(done.stdout)):
        st.label("a system")
        if problem is not None:
            raise Violation(f"without {case['block']}: {problem} ({c})")
    st.nontrivial()


SUBCHECKS = [
    Prop("history", lambda: G.from_bytes(history_case, 220), history, 600, 40000,
         "a history of operations (conversions, comparisons, refused texts) on units of one system, each "
         "compared with the same on new units of another; non-trivial: a conversion and over five steps"),
    Prop("systems", lambda: G.from_bytes(systems_case, 128), systems, 1600, 60000,
         "interleaved operations on two unit systems in which the same names are defined differently, against "
         "a model of each; non-trivial: some name does mean something else in the other"),
    Enum("processes", process_cases, processes,
         "histories in processes with another hash seed, locale, working directory, optimisation, time zone "
         "or order, or without numpy; compared with this process"),
    Enum("without", without_cases, without,
         "hand-built systems where lxml (and numpy) are not installed, against the model; the database is refused"),
]  # fmt: skip


def setup():
    sut.system()

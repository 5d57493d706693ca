"""C23: a copy or a pickle of a unit or of a unit system means the same."""

import base64
import copy
import json
import os
import pickle
import random
import subprocess
import sys

from vlib import env, gen as G, observe as O, pools as P, registry as R, sut
from vlib.harness import Enum, Prop, Violation
from checks import c04, c07

PROPERTY = "C23"
ASSUMPTIONS = [
    "pickle protocols 2 and later; converters are copied but not pickled (they hold a compiled function)",
    "a shallow copy of a unit system is not registered into (it shares its contents)",
]

WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle 2": lambda x: pickle.loads(pickle.dumps(x, 2)),
    "pickle 4": lambda x: pickle.loads(pickle.dumps(x, 4)),
    "pickle 5": lambda x: pickle.loads(pickle.dumps(x, 5)),
}
DEEP = ["deepcopy", "pickle 2", "pickle 5"]


# -- units of the UDUNITS-2 database


def history_case(src):
    case = c04.history_case(src)
    n = len(case["texts"])
    ops = []
    for op in case["ops"]:
        k = src.weighted([(4, None), (4, "unit"), (1, "dimensionality"), (1, "converter"), (1, "system"), (1, "list")])
        if k == "unit":
            ops.append(["copy", k, src.pick(n), src.of(sorted(WAYS))])
        elif k in ("dimensionality",):
            ops.append(["copy", k, src.pick(n), src.of(sorted(WAYS))])
        elif k == "converter":
            ops.append(["copy", k, src.pick(n), src.of(["copy", "deepcopy"])])
        elif k == "system":
            ops.append(["copy", k, src.pick(n), src.of(sorted(WAYS))])
        elif k == "list":
            ops.append(["copy", k, src.pick(n), src.of(DEEP)])
        ops.append(op)
    return {"texts": case["texts"], "ops": ops}


def alike(u, v, how):
    """A unit and its copy."""
    from pyudunits2 import Unit

    if type(u) is not type(v) or str(u) != str(v) or u.expanded() != v.expanded():
        raise Violation(f"{how} of {u} ({type(u).__name__}, {u.expanded()}) is {v} ({type(v).__name__}, {v.expanded()})")
    if type(u) is Unit and not ((u == v) is True and (v == u) is True and (u != v) is False):
        raise Violation(f"{how} of {u} is not equal to it")
    a, b = u.dimensionality(), v.dimensionality()
    if not (a == b and b == a) or a != b or len(a) != len(b):
        raise Violation(f"{how} of {u} has the dimensionality {b}, not {a}")
    if not (u.is_convertible_to(v) is v.is_convertible_to(u) is u.is_convertible_to(u)):
        raise Violation(f"{how} of {u} is convertible to it otherwise than it is to itself")


def history(case, st):
    system = sut.fresh_system()
    units = O.make(system, case["texts"])
    kept = {}
    made = set()
    for n, op in enumerate(case["ops"]):
        if op[0] == "copy":
            _, what, i, how = op
            u = units[i]
            if what == "system":
                system = WAYS[how](system)
                units[i] = O.make(system, case["texts"])[i]
            elif what == "list":
                # One operation copies all of them together.
                units = WAYS[how](units)
            elif isinstance(u, list):
                continue
            elif what == "unit":
                # (the original is kept: both go on)
                units[i] = WAYS[how](u)
                alike(u, units[i], f"step {n}: a {how}")
            elif what == "dimensionality":
                d = u.dimensionality()
                e = WAYS[how](d)
                if not (d == e and e == d) or str(d.inverted()) != str(e.inverted()) or dict(d.items()) != dict(e.items()):
                    raise Violation(f"step {n}: a {how} of the dimensionality {d} of {u} is {e}")
            else:
                for key in [k for k in kept if k[0] == i]:
                    kept[key] = WAYS[how](kept[key])
                    made.add("converter used")
            made.add(what)
            st.label(what + ": " + how)
            continue
        got = O.perform(system, units, op, kept)
        new = O.make(sut.system(), case["texts"])
        want = O.perform(sut.system(), new, op)
        if op[0] == "eq" and isinstance(want[0], bool) and op[1] != op[2] and not both_units(new, op):
            st.label("equality of date units (by identity)")
            continue
        if not O.same(got, want):
            raise Violation(f"step {n}: {op} over {case['texts']} gives {got} with copies, {want} with new units")
    st.nontrivial(len(made) > 1)


def both_units(units, op):
    from pyudunits2 import Unit

    return all(type(units[i]) is Unit for i in op[1:3])


# -- unit systems which go on separately


def branches_case(src):
    ops = []
    branches = 1
    for op in c07.history(src):
        if src.chance(25) and branches < 4:
            ops.append(["fork", src.pick(branches), src.of(DEEP)])
            branches += 1
        if op[0] == "look":
            ops.append([op, src.pick(branches)])
        else:
            # Into some, or all, of them.
            at = list(range(branches)) if src.chance(40) else [src.pick(branches)]
            ops.extend([op, k] for k in at)
    return ops


def branches(ops, st):
    from pyudunits2 import UnitSystem

    every = [(R.System(), UnitSystem())]
    for op in ops:
        if op[0] == "fork":
            model, real = every[op[1]]
            every.append((copy.deepcopy(model), WAYS[op[2]](real)))
            st.label("fork: " + op[2])
        else:
            c07.step(*every[op[1]], op[0], st)
    tables = []
    for model, real in every:
        words = sorted({w for t in model.tables.values() for w in t})
        pre = sorted(set(model.prefixes["name"]) | set(model.prefixes["symbol"]))
        for w in words + [p + w for p in pre[:3] for w in words[:6]]:
            c07.look(model, real, w, st)
        tables.append((words, pre))
    # What another one has, this one need not.
    for model, real in every:
        for words, _ in tables:
            for w in words:
                c07.look(model, real, w, st)
    st._nontrivial = len({str(t) for t in tables}) > 1


# -- other processes

READER = """
import base64, json, pickle, sys
sys.path.insert(0, sys.argv[1])
from vlib import env
from vlib import observe as O
out = []
for case in json.load(sys.stdin):
    system, units = pickle.loads(base64.b64decode(case["pickle"]))
    got = [O.perform(system, units, op, {}) for op in case["ops"]]
    if case["mixed"]:
        # Together with units of this process, too.
        from vlib import sut
        for k in (0, 1):
            made = O.make(sut.system(), case["texts"])
            some = [u if i % 2 == k else m for i, (u, m) in enumerate(zip(units, made))]
            got += [O.perform(system, some, op, {}) for op in case["ops"]]
    out.append(got)
sys.stdout.buffer.write(json.dumps(out).encode("ascii"))
"""


def process_cases(tier, seed):
    rng = random.Random(seed)
    out = []
    for r in range(4 if tier == "quick" else 40):
        for used in (False, True):
            out.append({
                "seed": str(rng.randrange(1, 100000)), "used": used, "mixed": r % 2 == 0,
                "cases": [c04.history_case(G.Src(rng.randbytes(220))) for _ in range(20)],
            })
    return out


def processes(case, st):
    sent, wanted = [], []
    for c in case["cases"]:
        system = sut.fresh_system() if case["used"] else sut.system()
        units = O.make(system, c["texts"])
        ops = [op for op in c["ops"] if op[0] != "eq" or op[1] == op[2] or both_units(units, op)]
        if case["used"]:
            for op in ops:
                O.perform(system, units, op)
        data = base64.b64encode(pickle.dumps((system, units))).decode("ascii")
        sent.append({"pickle": data, "ops": ops, "texts": c["texts"], "mixed": case["mixed"]})
        new = O.make(sut.system(), c["texts"])
        ops = ops * (3 if case["mixed"] else 1)
        sent[-1]["want"] = ops
        wanted.append([json.loads(json.dumps(O.perform(sut.system(), new, op))) for op in ops])
    done = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", READER, env.VERIF],
        input=json.dumps(sent).encode("ascii"),
        env={**os.environ, "PYTHONHASHSEED": case["seed"]},
        capture_output=True,
        timeout=400,
    )
    if done.returncode != 0:
        tail = done.stderr.decode("utf-8", "replace").strip().splitlines()[-8:]
        if any("/pyudunits2/" in line for line in tail):
            raise Violation(f"units which were pickled here, in another process: {tail}")
        raise AssertionError(f"the reader failed: {tail}")
    for c, ops, there, here in zip(
        case["cases"], (s["want"] for s in sent), json.loads(done.stdout), wanted
    ):
        for op, x, y in zip(ops, there, here):
            st.label(op[0])
            if not O.same(x, y):
                raise Violation(f"{op} over {c['texts']} gives {x} with units pickled in another process, {y} here")
    st.nontrivial()


SUBCHECKS = [
    Prop("history", lambda: G.from_bytes(history_case, 320), history, 500, 30000,
         "a history of operations in which units, dimensionalities, converters and the system are replaced by "
         "copies and pickles of themselves, against new units of another system; non-trivial: two kinds of copies"),
    Prop("branches", lambda: G.from_bytes(branches_case, 260), branches, 2500, 80000,
         "histories of registrations and look-ups in unit systems which are copies of one another and go on "
         "separately, against a model of each; non-trivial: they have come to differ"),
    Enum("processes", process_cases, processes,
         "units and systems pickled here and used in a process with another hash seed, by themselves and together "
         "with units made there, against new ones here"),
]  # fmt: skip


def setup():
    sut.system()

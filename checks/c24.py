"""C24: units and a unit system which several threads use at once answer each as they would alone."""

import sys

from vlib import gen as G, observe as O, pools as P, schedule as S, sut
from vlib.harness import Prop, Violation
from checks import c04

PROPERTY = "C24"
ASSUMPTIONS = [
    "threads are stopped between the lines of pyudunits2's own modules, not within the parser generator's, "
    "sympy's or numpy's",
    "nobody registers units or prefixes while others look them up",
]


def a_schedule(src, threads):
    out = []
    for _ in range(2 + src.pick(30)):
        kind = src.of(["line", "new", "new"])
        count = 1 + src.pick(1 << src.pick(10 if kind == "line" else 6))
        out.append([kind, count, src.pick(threads)])
    return out


def an_op(src, n):
    op = c04.an_op(src, n)
    if op[0] == "text" and src.chance(50):
        # A text of its own.
        op = ["text", f"{src.of(['2', '0.5', '7e3'])}{src.pick(1000)} {P.name(src)}"]
    return op


def case_of(src, schedule=True):
    dims = src.of([{"second": 1}, {"meter": 1}, {"kelvin": 1}, {}, {"second": -1}, {"kilogram": 1, "meter": -3}])
    texts = [c04.a_text(src, dims) for _ in range(1 + src.pick(4))]
    threads = 2 + src.pick(2)
    ops = [[an_op(src, len(texts)) for _ in range(1 + src.pick(4))] for _ in range(threads)]
    if src.chance(40):
        ops[1] = ops[0]  # the same at the same time
    return {"texts": texts, "ops": ops, "own": src.chance(40),
            "schedule": a_schedule(src, threads) if schedule else []}


def work(system, units, texts, ops, own):
    if own:  # the system is shared, and the units are not
        units = O.make(system, texts)
    return [O.perform(system, units, op, {}) for op in ops]


def scheduled(case, st):
    shared = sut.fresh_system()
    # Where the threads make units of their own, the system is one nobody has used.
    units = None if case["own"] else O.make(shared, case["texts"])
    run = S.Scheduled(
        [lambda ops=ops: work(shared, units, case["texts"], ops, case["own"]) for ops in case["ops"]],
        case["schedule"],
    )
    try:
        results = run.run()
    except S.Stuck:
        raise Violation(f"the threads have not come to an end within {S.LIMIT:.0f} s") from None
    st.label("stalled", run.stalled)
    st.label("threads: %d" % len(results))
    compare(case, results, st)
    st.nontrivial(run.switches > 2)


def compare(case, results, st):
    for k, (ops, got) in enumerate(zip(case["ops"], results)):
        system = sut.fresh_system()
        alone = O.make(system, case["texts"])
        for op, g in zip(ops, got):
            want = O.perform(system, alone, op)
            st.label(op[0])
            if not O.same(g, want):
                raise Violation(
                    f"thread {k}: {op} over {case['texts']} gives {g} next to the other threads, {want} alone"
                )


def switching(case, st):
    """Real preemption, at any bytecode."""
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        shared = sut.fresh_system()
        units = None if case["own"] else O.make(shared, case["texts"])
        results = S.Scheduled(
            [lambda ops=ops: work(shared, units, case["texts"], ops, case["own"]) for ops in case["ops"]], []
        ).run()
    except S.Stuck:
        raise Violation(f"the threads have not come to an end within {S.LIMIT:.0f} s") from None
    finally:
        sys.setswitchinterval(before)
    compare(case, results, st)
    st.nontrivial()


SUBCHECKS = [
    Prop("scheduled", lambda: G.from_bytes(case_of, 260), scheduled, 500, 30000,
         "operations of two or three threads on the same units and system, stopped and continued line by line "
         "by a generated schedule, against the same operations alone; non-trivial: over two switches"),
    Prop("switching", lambda: G.from_bytes(lambda src: case_of(src, False), 200), switching, 200, 10000,
         "the same with Python's own thread switching at its shortest interval"),
]  # fmt: skip


def setup():
    sut.system()

"""Runs the generated checks of one property.

A property module (checks/cNN.py) defines ``SUBCHECKS``: a list of ``Prop``
(Hypothesis generated cases) and ``Enum`` (an enumerated list of cases).  A
*case* is always a JSON value, and ``check(case, st)`` decides it: it returns
when the property holds on the case and raises ``Violation`` when it does not.
Because cases are plain data, a shrunk failure is written out as is, and
``run.py <id> --replay FILE`` decides it again without Hypothesis.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

from .env import REPO, VERIF


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(Exception):
    pass


@dataclass
class Prop:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any, "Stats"], None]
    quick: int
    thorough: int
    rule: str = ""
    corpus: list = field(default_factory=list)
    must_end: bool = False


@dataclass
class Enum:
    name: str
    cases: Callable[[str, int], list]
    check: Callable[[Any, "Stats"], None]
    rule: str = ""
    must_end: bool = False


class Stats:
    """What one worker actually generated."""

    def __init__(self):
        self.evaluations = 0
        self.keys: set = set()
        self.labels: Counter = Counter()
        self.samples: list = []
        self._case = None
        self._nontrivial = False

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._nontrivial = False

    def nontrivial(self, flag=True):
        self._nontrivial = self._nontrivial or bool(flag)

    def label(self, name, flag=True):
        if flag:
            self.labels[name] += 1

    def end(self):
        if self._nontrivial:
            text = dumps(self._case)
            key = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if key not in self.keys:
                self.keys.add(key)
                n = len(self.keys)
                if len(self.samples) < 2 or (n & (n - 1)) == 0:
                    self.samples.append(text[:600])


def dumps(case) -> str:
    return json.dumps(case, ensure_ascii=False, sort_keys=True)


def in_sut(err: BaseException) -> bool:
    """Whether the exception comes out of the code under test."""
    prefix = os.path.join(REPO, "pyudunits2") + os.sep
    tb = err.__traceback__
    last_verif, last_repo = -1, -1
    i = 0
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(prefix):
            last_repo = i
        elif f.startswith(VERIF + os.sep):
            last_verif = i
        tb = tb.tb_next
        i += 1
    return last_repo > last_verif


CASE_CPU_LIMIT = 60.0


def _alarm(signum, frame):
    raise CaseTimeout(f"no answer within {CASE_CPU_LIMIT:.0f} s of CPU time")


def decide(sub, case, st: Stats):
    """Run one case.  Any exception the code under test lets out is a failure
    of the case: every check handles the refusals its property allows."""
    st.begin(case)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        sub.check(case, st)
    except Violation:
        raise
    except CaseTimeout as err:
        # No verdict, except where giving an answer at all is the property.
        if sub.must_end:
            raise Violation(str(err)) from err
        st.label("inconclusive: " + str(err))
        print(f"{sub.name}: {err}: {dumps(case)}", file=sys.stderr)
    except Exception as err:
        if in_sut(err):
            raise Violation(
                f"unexpected {type(err).__name__}: {str(err)[:300]}"
            ) from err
        if isinstance(err, (TypeError, AttributeError)):
            # What came back is not of the kind which it is documented to be
            # (on the unchanged tree, the check has no such error).
            raise Violation(
                f"an answer of another kind ({type(err).__name__}: {str(err)[:300]})"
            ) from err
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        st.end()


def subseed(*parts) -> int:
    digest = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(digest, "big")


class _Found(Exception):
    pass


def run_prop(sub: Prop, n: int, seed: int, deadline: float, st: Stats, known=(), failed=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {
        "best": None,
        "first": None,
        "msg": "",
        "t": None,
        "skipped": 0,
        "history": [],
        "first_history": [],
    }

    def body(case):
        text = dumps(case)
        if text in known:
            st.label("known finding drawn")
            return
        now = time.monotonic()
        if state["best"] is None:
            if now > deadline or (failed and os.path.exists(failed)):
                state["skipped"] += 1
                return
        elif now > state["t"] + 45 and text != state["best"]:
            return  # stop shrinking: nothing but the best case may fail now
        if state["best"] is None:
            state["history"].append(text)
            del state["history"][:-300]
        try:
            decide(sub, case, st)
        except Violation as err:
            if state["best"] is None:
                state["first"] = text
                state["t"] = now
                state["first_msg"] = str(err)
                state["first_history"] = list(state["history"][:-1])
                if failed:
                    open(failed, "w").close()
            state["best"] = text
            state["msg"] = str(err)
            raise

    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(seed)(given(sub.strategy())(body)))

    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        # The same case failed and then passed: the outcome depends on what
        # was done before it.
        pass
    except BaseExceptionGroup as group:
        if state["best"] is None:
            raise group
    except hypothesis.errors.HypothesisException:
        if state["best"] is None:
            raise
    if state["best"] is None:
        return None, state["skipped"]
    # Is the shrunk case a failure by itself?
    out = {"case": json.loads(state["best"]), "message": state["msg"]}
    try:
        decide(sub, out["case"], Stats())
        out = {
            "case": json.loads(state["first"]),
            "message": state["first_msg"],
            "history": [json.loads(t) for t in state["first_history"]],
        }
    except Violation as err:
        out["message"] = str(err)
    return out, state["skipped"]


def worker(module, tier, seed, shard, shards, deadline, conn_path, known):
    # Once one worker has found a violation, the others stop looking.
    failed = os.path.join(os.path.dirname(conn_path), "failed")
    result: dict = {"subs": {}, "error": None}
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        # cf_units' C library writes its complaints to stderr.
        for sub in module.SUBCHECKS:
            st = Stats()
            random.seed(0)
            failure, skipped = None, 0
            t0 = time.monotonic()
            skip = known.get(sub.name, ())
            if isinstance(sub, Prop):
                if shard == 0:
                    for case in sub.corpus:
                        if dumps(case) in skip:
                            continue
                        try:
                            decide(sub, case, st)
                        except Violation as err:
                            failure = {"case": case, "message": str(err)}
                            break
                total = sub.quick if tier == "quick" else sub.thorough
                n = total // shards + (1 if shard < total % shards else 0)
                if failure is None and n:
                    failure, skipped = run_prop(
                        sub,
                        n,
                        subseed(module.PROPERTY, sub.name, seed, shard),
                        deadline,
                        st,
                        skip,
                        failed,
                    )
            else:
                cases = sub.cases(tier, seed)
                for case in cases[shard::shards]:
                    if dumps(case) in skip:
                        continue
                    if time.monotonic() > deadline or os.path.exists(failed):
                        skipped += 1
                        continue
                    try:
                        decide(sub, case, st)
                    except Violation as err:
                        if failure is None:
                            failure = {"case": case, "message": str(err)}
                        break
            if failure is not None:
                open(failed, "w").close()
            result["subs"][sub.name] = {
                "evaluations": st.evaluations,
                "keys": sorted(st.keys),
                "labels": dict(st.labels),
                "samples": st.samples,
                "failure": failure,
                "skipped": skipped,
                "seconds": time.monotonic() - t0,
            }
    except BaseException:
        result["error"] = traceback.format_exc()
    with open(conn_path, "w") as fh:
        json.dump(result, fh)


# --------------------------------------------------------------------------
# Known findings

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def load_findings(prop: str):
    """Lines "known: property=C05 subcheck=names case=<json> :: what fails".

    "what fails" is the start of the violation's message, and then optionally
    " -- " and an explanation: another violation on the same case is not the
    finding."""
    out = []
    try:
        lines = open(FINDINGS, encoding="utf-8").read().splitlines()
    except FileNotFoundError:
        return out
    for line in lines:
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: ") :].partition(" :: ")
        p, _, rest = head.partition(" ")
        s, _, rest = rest.partition(" ")
        assert p.startswith("property=") and s.startswith("subcheck="), line
        assert rest.startswith("case="), line
        if p[len("property=") :] == prop:
            out.append((s[len("subcheck=") :], json.loads(rest[5:]), what))
    return out


def main(module, argv=None) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = subseed(os.environ["VERIF_SEED"]) % 2**31
    tier = "thorough" if args.tier == "thorough" else "quick"
    prop = module.PROPERTY
    t0 = time.monotonic()

    setup = getattr(module, "setup", None)
    if setup is not None:
        # What every case relies on (e.g. that the unit database loads).
        module.SUBCHECKS = [
            Enum("setup", lambda tier, seed: [], lambda case, st: setup())
        ] + list(module.SUBCHECKS)
        try:
            signal.signal(signal.SIGVTALRM, _alarm)
            decide(module.SUBCHECKS[0], "setup", Stats())
        except Violation as err:
            if args.replay:
                print(f"{prop}/setup: {err}")
                print(f"VIOLATION property={prop} replay={args.replay}")
                return 1
            st = Stats()
            st.evaluations = 1
            st.samples = ["setup"]
            res = {
                "subs": {
                    "setup": {
                        "evaluations": 1, "keys": [], "labels": {},
                        "samples": ["setup"], "skipped": 0, "seconds": 0.0,
                        "failure": {"case": "setup", "message": str(err)},
                    }
                },
                "error": None,
            }
            return report(module, prop, tier, seed, t0, [res], [], 1)

    if args.replay:
        return replay(module, args.replay)

    if args.only:
        module.SUBCHECKS = [s for s in module.SUBCHECKS if s.name == args.only]
    if args.scale != 1.0:
        for s in module.SUBCHECKS:
            if isinstance(s, Prop):
                s.quick = max(1, int(s.quick * args.scale))
                s.thorough = max(1, int(s.thorough * args.scale))

    known_lines, known = [], {}
    signal.signal(signal.SIGVTALRM, _alarm)
    subs = {s.name: s for s in module.SUBCHECKS}
    for sub_name, case, what in load_findings(prop):
        if sub_name not in subs:
            continue
        try:
            decide(subs[sub_name], case, Stats())
        except Violation as err:
            if str(err).startswith(what.partition(" -- ")[0]):
                known_lines.append(f"KNOWN-FINDING: property={prop} {what}")
                known.setdefault(sub_name, set()).add(dumps(case))
        # A listed case that no longer fails is decided like any other.

    jobs = args.jobs or min(8, os.cpu_count() or 1)
    budget = getattr(module, "BUDGET", {"quick": 240, "thorough": 3000})[tier]
    ctx = multiprocessing.get_context("fork")
    results = []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        procs = []
        for shard in range(jobs):
            path = os.path.join(tmp, f"{shard}.json")
            p = ctx.Process(
                target=worker,
                args=(module, tier, seed, shard, jobs, t0 + budget, path, known),
            )
            p.start()
            procs.append((p, path))
        for p, path in procs:
            p.join()
            try:
                results.append(json.load(open(path)))
            except Exception:
                results.append({"subs": {}, "error": f"worker died ({p.exitcode})"})

    return report(module, prop, tier, seed, t0, results, known_lines, jobs)


def report(module, prop, tier, seed, t0, results, known_lines, jobs) -> int:
    errors = [r["error"] for r in results if r["error"]]
    failures = []
    evaluations, keys, samples, rules, per_sub = 0, set(), [], [], {}
    skipped_total = 0
    for s in module.SUBCHECKS:
        labels: Counter = Counter()
        ev, sk, smp, secs, ks = 0, 0, [], 0.0, set()
        for r in results:
            d = r["subs"].get(s.name)
            if d is None:
                continue
            ev += d["evaluations"]
            sk += d["skipped"]
            ks |= {f"{s.name}:{k}" for k in d["keys"]}
            labels.update(d["labels"])
            smp += d["samples"]
            secs = max(secs, d["seconds"])
            if d["failure"]:
                failures.append((s.name, d["failure"]))
        evaluations += ev
        skipped_total += sk
        keys |= ks
        smp.sort(key=lambda t: (-min(len(t), 200), t))
        samples += [{"subcheck": s.name, "case": json_or_text(t)} for t in smp[:3]]
        if s.rule:
            rules.append(f"{s.name}: {s.rule}")
        per_sub[s.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(ks),
            "labels": dict(sorted(labels.items())),
            "not_run_for_time": sk,
            "seconds": round(secs, 2),
        }

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": " | ".join(rules),
            "samples": samples,
            "subchecks": per_sub,
            "not_run_for_time": skipped_total,
            "workers": jobs,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(out + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=False)
    os.replace(out + ".tmp", out)

    for line in known_lines:
        print(line)
    if failures:
        failures.sort(key=lambda f: len(dumps(f[1]["case"])))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name, failure = failures[0]
        body = {"property": prop, "subcheck": name, **failure}
        digest = hashlib.blake2b(dumps(body).encode(), digest_size=4).hexdigest()
        path = os.path.join("replays", f"{prop}-{name}-{digest}.json")
        with open(os.path.join(VERIF, path), "w") as fh:
            json.dump(body, fh, indent=1, ensure_ascii=False)
        shown = set()
        for other, f in failures:
            if other not in shown:
                shown.add(other)
                print(f"{prop}/{other}: {f['message']}")
                print(f"  case: {dumps(f['case'])[:1000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"{prop}: the check itself failed", file=sys.stderr)
        return 3
    print(
        f"{prop}: held on {evaluations} cases ({len(keys)} distinct non-trivial) "
        f"in {evidence['wall_s']} s, seed {seed}, {tier}"
        + (f"; {skipped_total} not run for time" if skipped_total else "")
    )
    return 0


def json_or_text(text):
    try:
        return json.loads(text)
    except ValueError:
        return text


def replay(module, path) -> int:
    body = json.load(open(path))
    [sub] = [s for s in module.SUBCHECKS if s.name == body["subcheck"]]
    signal.signal(signal.SIGVTALRM, _alarm)
    for case in body.get("history", []):
        try:
            decide(sub, case, Stats())
        except Violation:
            pass
    try:
        decide(sub, body["case"], Stats())
    except Violation as err:
        print(f"{body['property']}/{sub.name}: {err}")
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1
    print(f"{body['property']}/{sub.name}: holds on {path}")
    return 0

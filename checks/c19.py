"""C19: dates and times are values."""

import copy
import pickle
import re

from vlib import gen as G
from vlib.harness import Prop, Violation

PROPERTY = "C19"
ASSUMPTIONS = [
    "fields are whole numbers in their usual ranges (a second may be 60, an offset's hour negative)",
]

TEXT = re.compile(r"(-?\d\d+):(\d\d)(?::(\d\d)(?:\.(\d{6}))?)?")


def a_time(src, plain=True):
    k = src.pick(4)
    return [
        src.of([0, 0, 23, 12, src.pick(24)]) if plain else src.pick(27) - 12,
        src.of([0, 30, 59, src.pick(60)]),
        0 if k < 2 else src.of([0, 1, 59, 60, src.pick(60)]),
        0 if k < 3 else src.of([0, 1, 10, 100000, 999999, 500000, src.pick(1000000)]),
    ]


def text_case(src):
    return [a_time(src), a_time(src)]


def read(text):
    got = TEXT.fullmatch(text)
    if not got:
        raise Violation(f"the text of a time is {text!r}")
    return [int(x or 0) for x in got.groups()]


def text(case, st):
    """The text of a time has all of it, and differs for different times."""
    from pyudunits2._datetime import Time

    a, b = (Time(*fields) for fields in case)
    st.nontrivial(case[0] != case[1])
    for fields, t in zip(case, (a, b)):
        if read(str(t)) != fields:
            raise Violation(f"Time{tuple(fields)} has the text {str(t)!r}")
        if f"{t}" != str(t):
            raise Violation(f"formatting Time{tuple(fields)} gives {t}")
        st.label("microseconds", fields[3])
        st.label("seconds", fields[2])
    same = case[0] == case[1]
    if (str(a) == str(b)) != same or (a == b) != same or (a != b) == same:
        raise Violation(f"{a} and {b}: equal is {a == b}")
    if same and hash(a) != hash(b):
        raise Violation(f"{a} and {b} have different hashes")


def date_case(src):
    fields = {
        "year": src.of([2000, 1, -44, 1970, 1 + src.pick(3000), 0]),
        "month": 1 + src.pick(12),
        "day": 1 + src.pick(31),
    }
    if src.chance(60):
        fields["time"] = a_time(src)
    k = src.pick(3)
    if k == 1:
        fields["tz_offset"] = src.of(["UTC", "Z", "GMT", ""])
    elif k == 2:
        fields["tz_offset"] = a_time(src, plain=False)
    if src.chance(50):
        fields["raw_content"] = src.of(["2000-01-01", "2000", "", None])
    changes = {}
    for _ in range(src.of([0, 1, 1, 1, 2])):
        f = src.of(["year", "month", "day", "time", "tz_offset", "raw_content"])
        changes[f] = {
            "year": src.of([2000, 2001, -2000]),
            "month": 1 + src.pick(12),
            "day": 1 + src.pick(31),
            "time": a_time(src),
            "tz_offset": src.of(["UTC", "Z", a_time(src), "as text"]),
            "raw_content": src.of(["2000-01-01", "x", None]),
        }[f]
    if changes.get("tz_offset") == "as text":
        # What the other one looks like
        offset = fields.get("tz_offset", [0, 0, 0, 0])
        if isinstance(offset, list):
            h, m, s, u = offset
            offset = f"{h:02}:{m:02}" + (f":{s:02}" if s or u else "") + (f".{u:06}" if u else "")
        changes["tz_offset"] = offset
    return [fields, changes]


def date(case, st):
    """Equality, hash and copies of a date take all of it but its original text."""
    import dataclasses

    from pyudunits2 import DateTime
    from pyudunits2._datetime import Time

    def make(fields):
        return DateTime(**{k: Time(*v) if isinstance(v, list) else v for k, v in fields.items()})

    def meaning(fields):
        out = {"time": [0, 0, 0, 0], "tz_offset": "UTC", **fields}
        out.pop("raw_content", None)
        return out

    one = case[0]
    other = {**case[0], **case[1]}
    a, b = make(one), make(other)
    same = meaning(one) == meaning(other)
    st.nontrivial(bool(case[1]))
    st.label("equal" if same else "different")
    for x, y in ((a, b), (b, a)):
        if (x == y) is not same or (x != y) is same:
            raise Violation(f"{x} == {y} is {x == y}")
    if same and hash(a) != hash(b):
        raise Violation(f"{a} and {b} are equal and have different hashes")
    if len({a, b}) != (1 if same else 2):
        raise Violation(f"a set of {a} and {b} has {len({a, b})} members")
    for how, c in (("copy", copy.copy(a)), ("deepcopy", copy.deepcopy(a)),
                   *((f"pickle {n}", pickle.loads(pickle.dumps(a, n))) for n in (2, 3, 4, 5)), ("replace", dataclasses.replace(a))):  # fmt: skip
        if not (c == a) or hash(c) != hash(a) or c.raw_content != one.get("raw_content"):
            raise Violation(f"{how} of {a} is {c}")
    for thing in (None, "2000-01-01", (a.year, a.month, a.day), a.time, 2000):
        if a == thing or not (a != thing):
            raise Violation(f"{a} == {thing!r}")
    for f in ("year", "time", "raw_content"):
        try:
            setattr(a, f, getattr(a, f))
        except AttributeError:
            continue
        raise Violation(f"{f} of a date can be set, though it has a hash")


SUBCHECKS = [
    Prop("text", lambda: G.from_bytes(text_case, 24), text, 6000, 200000,
         "pairs of times; non-trivial: they differ"),
    Prop("date", lambda: G.from_bytes(date_case, 64), date, 8000, 200000,
         "a date and a variation of it; non-trivial: something is varied"),
]  # fmt: skip


def setup():
    pass

"""C16: an array converts element by element, and is left alone."""

import math
import warnings

from vlib import gen as G, model as M, oracle as O, pools as P, sut
from vlib.harness import Prop, Violation
from checks.c13 import comfortable, depth, in_range, lossy
from checks.c15 import family

PROPERTY = "C16"
ASSUMPTIONS = [
    "the conversion of a single float is the reference (other checks decide it)",
]

SHAPES = [[3], [1], [2, 3], [], [0], [4, 1], [1, 1, 2], [2, 0, 3], [7], [2, 2, 2], [300], [5000], [17, 61]]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "broadcast", "offset"]
FLOATS = ["float64", "float64", "float32", ">f8", "longdouble"]
INTS = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", ">i4"]
SPECIAL = ["nan", "inf", "-inf"]


def array_case(src):
    a, b = family(src, 2, True)
    if src.chance(45):
        dtype = src.of(INTS)
    else:
        dtype = src.of(FLOATS)
    values = []
    for _ in range(1 + src.pick(6)):
        if dtype in INTS:
            k = src.pick(4)
            if k == 0:
                values.append(src.pick(100) + 1)
            elif k == 1:
                values.append("max")
            elif k == 2:
                values.append("min")
            else:
                values.append(src.pick(30000) - 15000)
        elif src.chance(8):
            values.append(src.of(SPECIAL))
        else:
            values.append(src.of([1.0, 2.5, -3.0, 0.5, 300.0, 0.0]) + src.pick(1024) / 256)
    return {"a": a, "b": b, "dtype": dtype, "values": values,
            "shape": src.of(SHAPES) if src.pick(24) else large(src), "layout": src.of(LAYOUTS),
            "readonly": src.chance(30)}  # fmt: skip


def large(src):
    n = (1 << (19 + src.pick(2) if src.chance(8) else 13 + src.pick(6))) + src.of([-1, 0, 1, 7])
    return src.of([[n], [n], [2, n // 2], [n // 3, 3]])


def build(case):
    import numpy as np

    dt = np.dtype(case["dtype"])
    out = []
    for v in case["values"]:
        if dt.kind in "iu":
            info = np.iinfo(dt)
            v = info.max if v == "max" else info.min if v == "min" else v
            v = min(max(v, info.min), info.max)
        out.append(dt.type(v) if not isinstance(v, str) else dt.type(float(v)))
    shape = tuple(case["shape"])
    n = int(np.prod(shape)) if shape else 1
    flat = np.array([out[i % len(out)] for i in range(n)], dtype=dt)
    arr = flat.reshape(shape)
    layout = case["layout"]
    if layout == "F":
        arr = np.asfortranarray(arr) if arr.ndim else arr
    elif layout == "strided" and arr.ndim:
        big = np.zeros((arr.shape[0] * 2, *arr.shape[1:]), dtype=dt)
        big[::2] = arr
        arr = big[::2]
    elif layout == "reversed" and arr.ndim:
        arr = arr[::-1]
    elif layout == "transposed":
        arr = arr.T
    elif layout == "broadcast" and arr.ndim:
        arr = np.broadcast_to(arr, (2, *arr.shape))
    elif layout == "offset":
        raw = np.zeros(arr.nbytes + 1, dtype=np.uint8)
        view = raw[1:].view(dt)[: arr.size].reshape(arr.shape)
        view[...] = arr
        arr = view
    if case["readonly"]:
        try:
            arr.flags.writeable = False
        except ValueError:
            pass
    return arr


def converter(case, st):
    """-> (Converter, model units, texts) or None"""
    from pyudunits2 import Converter

    db = M.database()
    try:
        a, b = db.meaning(case["a"]), db.meaning(case["b"])
    except M.ModelError:
        return None
    if not (in_range(a) and in_range(b)) or db.relation(a, b) is None:
        return None
    ta, tb = G.plain_text(case["a"]), G.plain_text(case["b"])
    return Converter(sut.unit(ta), sut.unit(tb)), a, b, ta, tb


def elementwise(case, st):
    import numpy as np

    made = converter(case, st)
    if made is None:
        return
    conv, a, b, ta, tb = made
    arr = build(case)
    before = arr.tobytes()
    flags = (arr.dtype, arr.shape, arr.strides, arr.flags.writeable)
    what = f"{case['dtype']} array of shape {arr.shape} ({case['layout']}), {ta!r} to {tb!r}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = conv.convert(arr)
    st.label("dtype " + case["dtype"])
    st.label("layout " + case["layout"])
    st.label("logarithm", depth(a) or depth(b))
    if arr.tobytes() != before or flags != (
        arr.dtype, arr.shape, arr.strides, arr.flags.writeable
    ):  # fmt: skip
        raise Violation(f"the {what}: the input was modified")
    if not isinstance(got, (np.ndarray, np.generic)):
        raise Violation(f"the {what} converts to {type(got).__name__}")
    if np.may_share_memory(got, arr):
        raise Violation(f"the {what}: the result shares the memory of the input")
    if np.shape(got) != arr.shape:
        raise Violation(f"the {what} converts to the shape {np.shape(got)}")
    if got.dtype.kind != "f":
        raise Violation(f"the {what} converts to the dtype {got.dtype}")
    if arr.dtype.kind in "iu" and got.dtype.itemsize < 8:
        raise Violation(f"the {what} loses precision in {got.dtype}")
    if arr.dtype.kind == "f" and got.dtype.itemsize < arr.dtype.itemsize:
        raise Violation(f"the {what} loses precision in {got.dtype}")
    single = case["dtype"] == "float32"
    rel = 1e-5 if single else 2e-13
    # every distinct value once
    seen = {}
    # tolist() of a longdouble keeps the longdouble
    for v, g in zip(arr.ravel().tolist(), np.asarray(got).ravel().tolist()):
        v, g = float(v), float(g)
        known = seen.setdefault(repr(v), [])
        if g in known or (g != g and "nan" in known) or len(known) > 3 or len(seen) > 12:
            continue
        known.append(g if g == g else "nan")
        compare(conv, a, b, v, g, rel, what, single, st)
    st.label("more than 8000 elements", arr.size > 8000)


def compare(conv, a, b, v, g, rel, what, single, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            want = sut.number(conv.convert(v))
        except ZeroDivisionError:
            if math.isfinite(g):
                raise Violation(f"{what}: {v!r} converts to {g!r} in an array")
            return
        except OverflowError:
            return
    if single and (not math.isfinite(want) or not 1e-30 < abs(want) < 1e30):
        return  # beyond single precision on the way
    if single and not all(
        in_single(u) for u in (a, b)
    ):
        return
    if math.isnan(want) or math.isnan(g):
        if math.isnan(want) != math.isnan(g):
            raise Violation(f"{what}: {v!r} converts to {want!r}, in an array to {g!r}")
        return
    if math.isinf(want) or math.isinf(g):
        if want != g and not (math.isinf(want) and "longdouble" in what):
            raise Violation(f"{what}: {v!r} converts to {want!r}, in an array to {g!r}")
        return
    scale = O.scale_of(a, b, v, want) if math.isfinite(v) else 0.0
    if depth(a) or depth(b):
        if single or lossy(a, v) or lossy(b, want):
            return
        scale = max(scale, 1.0 if depth(b) else 0.0)
        rel = 1e-9
    st.nontrivial()
    if not abs(g - want) <= rel * max(abs(want), scale):
        raise Violation(f"{what}: {v!r} converts to {want!r}, in an array to {g!r}")


def in_single(u):
    lin = u.linear()
    return lin is not None and P.in_range(lin, 12)


def masked_case(src):
    a, b = family(src, 2, False)
    return {"a": a, "b": b,
            "values": [src.of([1.0, 2.0, 5.0, 250.0]) + src.pick(64) / 8 for _ in range(4)],
            "mask": [src.chance(50) for _ in range(4)]}  # fmt: skip


def masked(case, st):
    """Masked arrays stay masked."""
    import numpy as np

    made = converter(case, st)
    if made is None:
        return
    conv, a, b, ta, tb = made
    arr = np.ma.array(case["values"], mask=case["mask"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = conv.convert(arr)
    what = f"a masked array, {ta!r} to {tb!r}"
    if not isinstance(got, np.ma.MaskedArray):
        raise Violation(f"{what}: {type(got).__name__}")
    mask = np.ma.getmaskarray(got)
    if np.may_share_memory(got, arr):
        raise Violation(f"{what}: the result shares the memory of the input")
    for v, m, g, gm in zip(case["values"], case["mask"], got.data.tolist(), mask.tolist()):
        if m and not gm:
            raise Violation(f"{what}: a masked element is unmasked")
        if not m:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = sut.number(conv.convert(v))
            if gm:
                if math.isfinite(want):
                    raise Violation(f"{what}: {v!r} is masked, it should be {want!r}")
                continue
            compare(conv, a, b, v, g, 2e-13, what, False, st)


def scalar_case(src):
    a, b = family(src, 2, True)
    n = src.of([0, 1, 7, 100, -3, 2**31, 2**53 - 10, 123456789, 2**64, -10**20, 10**40]) + src.pick(10)
    return {"a": a, "b": b, "n": n}


def scalars(case, st):
    """Every kind of scalar number converts to the same number."""
    import fractions

    import numpy as np

    made = converter(case, st)
    if made is None:
        return
    conv, a, b, ta, tb = made
    n = case["n"]
    kinds = {"int": n, "np.float64": np.float64(n), "np.longdouble": np.longdouble(n)}
    if a.linear() is not None and b.linear() is not None:
        kinds["Fraction"] = fractions.Fraction(n)  # (numpy's logarithms don't take those)
    if abs(n) < 2**63:
        kinds["np.int64"] = np.int64(n)
    if 0 <= n < 2**64:
        kinds["np.uint64"] = np.uint64(n)
    if n in (0, 1):
        kinds["bool"] = bool(n)
    if -100 < n < 127:
        kinds["np.int8"] = np.int8(n)
        kinds["np.float32"] = np.float32(n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for kind, v in kinds.items():
            try:
                got = sut.number(conv.convert(v))
            except OverflowError:
                continue
            except ZeroDivisionError:
                continue
            rel = 1e-5 if "32" in kind else 1e-12
            compare(conv, a, b, float(n), got, rel, f"{kind}, {ta!r} to {tb!r}",
                    "32" in kind, st)  # fmt: skip


def reuse_case(src):
    a, b = family(src, 2, True)
    ops = []
    for _ in range(2 + src.pick(6)):
        k = src.pick(3)
        v = src.of([1.0, 2.5, 40.0]) + src.pick(64) / 8
        ops.append(["scalar", v] if k == 0 else
                   ["array", v, src.of(["float64", "int32", "float32"])] if k == 1
                   else ["int", int(v)])  # fmt: skip
    return {"a": a, "b": b, "ops": ops}


def reuse(case, st):
    """A converter has no memory: each use gives what a new one gives."""
    import numpy as np

    from pyudunits2 import Converter

    made = converter(case, st)
    if made is None:
        return
    conv, a, b, ta, tb = made
    st.nontrivial()

    def one(c, op):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                v = op[1]
                if op[0] == "array":
                    v = np.array([v, v + 1]).astype(op[2])
                return np.asarray(c.convert(v)).tolist()
            except ArithmeticError as err:
                return type(err).__name__

    for op in case["ops"]:
        got = one(conv, op)
        want = one(Converter(sut.unit(ta), sut.unit(tb)), op)
        if repr(got) != repr(want):
            raise Violation(
                f"{op} {ta!r} to {tb!r}: {got} from a used Converter, {want} from a new one"
            )


SUBCHECKS = [
    Prop("elementwise", lambda: G.from_bytes(array_case, 128), elementwise, 2200, 80000,
         "arrays of any dtype, shape and layout, read-only ones too; non-trivial: an "
         "element was compared with the conversion of the single number"),
    Prop("masked", lambda: G.from_bytes(masked_case, 112), masked, 600, 20000,
         "masked arrays"),
    Prop("scalars", lambda: G.from_bytes(scalar_case, 112), scalars, 800, 30000,
         "ints, numpy scalars and floats of the same value"),
    Prop("reuse", lambda: G.from_bytes(reuse_case, 112), reuse, 250, 10000,
         "histories of conversions with one converter"),
]  # fmt: skip


def setup():
    sut.system()

"""Text and bytes conversion is lossless, total and structure-preserving."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "strings held in numpy arrays are ASCII without trailing NULs (what numpy's fixed-width strings can hold and convert)",
    "numpy's conversion between fixed-width string types keeps the characters",
]
RULE = "random nested values and random structured types (nested, sub-arrays, padding, titles, byte orders), against an independent element-by-element description"


# ---------------------------------------------------------------- proofs
def p_nested(e):
    """One level of nesting; the recursive calls are taken at their contract (structural induction)."""
    from caput.util import typeutils as t

    real = t.bytes_to_unicode
    H = z3.Function("converted", U, U)
    calls = []

    def rec(x):
        calls.append(x)
        return SVal(H(x.z)) if isinstance(x, SVal) else real(x)

    kind = ["list", "tuple", "set", "dict"][e.choose(4, "kind")]
    k = e.choose(4, "len")
    items = [SVal(z3.Const(f"x{i}", U)) for i in range(k)]
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    if kind == "dict":
        arg = {f"k{i}".encode() if i % 2 else f"k{i}": x for i, x in enumerate(items)}
    elif kind == "set":
        arg = {b"a", "b", 3} if k else set()
    else:
        arg = {"list": list, "tuple": tuple}[kind](items)
    before = list(arg.items()) if kind == "dict" else list(arg)
    e.cover("pre")
    t.bytes_to_unicode = rec
    try:
        r = real(arg)
    finally:
        t.bytes_to_unicode = real
    e.prove("nested:same-collection", T if type(r) is type(arg) and (kind == 'tuple' or r is not arg) else F)
    after = list(arg.items()) if kind == "dict" else list(arg)
    e.prove("nested:argument-unchanged", T if len(after) == len(before) and all(x is y or x == y for p, q in zip(after, before) for x, y in (zip(p, q) if kind == "dict" else [(p, q)])) else F)
    if kind == "set":
        e.prove("nested:set", T if r == ({"a", "b", 3} if k else set()) else F)
        return
    e.prove("nested:same-length", T if len(r) == k else F)
    if len(r) != k:
        return
    if kind == "dict":
        e.prove("nested:keys-converted-in-order", T if list(r) == [f"k{i}" for i in range(k)] else F)
        got = list(r.values())
    else:
        got = list(r)
    for i in range(k):
        e.prove("nested:each-element-converted-in-place", SBool(got[i].z == H(items[i].z)) if isinstance(got[i], SVal) else F)


def p_kind(e):
    """A structured type has a kind iff one of its fields has (recursion at its contract)."""
    from caput.util import typeutils as t

    real = t.has_kind
    k = 1 + e.choose(4, "fields")
    has = [Bool(f"has{i}") for i in range(k)]

    class D:
        def __init__(self, i):
            self.i = i

    import numpy as np

    names = tuple(f"f{i}" for i in range(k))

    class S:
        subdtype = None
        kind = "V"

    S.names = names
    S.fields = {n: (D(i), 8 * i) for i, n in enumerate(names)}
    S.base = S
    q = "S"
    e.cover("pre")

    def rec(d, kind):
        if isinstance(d, D):
            if kind != q:
                e.fail("kind:asks-for-the-same-kind", f"asked for {kind}")
            return bool(has[d.i])
        return real(d, kind)

    t.has_kind = rec
    try:
        r = real(S, q)
    finally:
        t.has_kind = real
    r = r if isinstance(r, SBool) else SBool(z3.BoolVal(bool(r)))
    e.prove("kind:any-field", SBool(r.z == z3.Or(*[h.z for h in has])))


def p_ensure(e):
    """ensure_unicode/ensure_bytestring convert exactly when there is something to convert."""
    from caput.util import typeutils as t

    which = e.choose(2, "which")
    hasS, hasU = Bool("has_bytes"), Bool("has_text")
    log = []

    class A:
        dtype = "its type"

        def astype(self, d, *a, **k):
            log.append(d)
            return ("converted", d)

    sv = {n: getattr(t, n) for n in ("has_kind", "has_unicode", "has_bytestring", "dtype_to_unicode", "dtype_to_bytestring", "_convert_dtype")}
    t.has_kind = lambda d, k: bool(hasS if k == "S" else hasU)
    t.has_unicode, t.has_bytestring = (lambda d: bool(hasU)), (lambda d: bool(hasS))
    t.dtype_to_unicode, t.dtype_to_bytestring = (lambda d: ("text", d)), (lambda d: ("bytes", d))
    a = A()
    e.cover("pre")
    try:
        r = (t.ensure_unicode, t.ensure_bytestring)[which](a)
    finally:
        for n, v in sv.items():
            setattr(t, n, v)
    need = (hasS, hasU)[which]
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    e.prove("ensure:unconverted-is-returned-as-is", Implies(Not(need), T if r is a and not log else F))
    e.prove("ensure:converted-to-the-type-with-strings-replaced", Implies(need, T if r == ("converted", (("text", "bytes")[which], "its type")) else F))


M = "caput.util.typeutils."
PROOFS = [
    Proof("nested", p_nested, [M + "bytes_to_unicode"], covers=["pre"], bound="collections of up to three items (items and nesting depth arbitrary, by induction)"),
    Proof("kind", p_kind, [M + "has_kind"], covers=["pre"], bound="up to four fields per level (depth arbitrary, by induction)"),
    Proof("ensure", p_ensure, [M + "ensure_unicode", M + "ensure_bytestring"], covers=["pre"], assumes=["contracts of has_unicode/has_bytestring and dtype_to_unicode/dtype_to_bytestring (the first proved here, the second evaluated at run time)"]),
]


# ---------------------------------------------------------------- run time
WORDS = ["", "a", "freq", "XX-YY", "x y", "#", "0"]


def gen_val(rng, depth=0):
    k = rng.random()
    if depth < 3 and k < 0.45:
        c = rng.choice(["list", "tuple", "dict", "set"])
        n = rng.choice([0, 1, 2, 3])
        if c == "set":
            return [c, [["b" if rng.random() < 0.5 else "s", w] for w in rng.sample(WORDS, n)]]
        if c == "dict":
            return [c, [[["b" if rng.random() < 0.5 else "s", w], gen_val(rng, depth + 1)] for w in rng.sample(WORDS, n)]]
        return [c, [gen_val(rng, depth + 1) for _ in range(n)]]
    k = rng.choice(["b", "b", "s", "i", "f", "none", "S", "U", "i8", "u8b", "npb", "0d", "bool"])
    if k in ("b", "s"):
        return [k, rng.choice(WORDS)]
    if k == "u8b":
        return [k, rng.choice(["µs", "日", "é"])]
    if k == "npb":
        return [k, rng.choice(WORDS)]
    if k in ("S", "U"):
        return [k, [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 2, 4]))], rng.choice([1, 2])]
    return [k, rng.randrange(9)]


def mk(v):
    import numpy as np

    k, x = v[0], v[1]
    if k == "list":
        return [mk(y) for y in x]
    if k == "tuple":
        return tuple(mk(y) for y in x)
    if k == "set":
        return {mk(y) for y in x}
    if k == "dict":
        return {mk(a): mk(b) for a, b in x}
    if k == "b":
        return x.encode()
    if k == "u8b":
        return x.encode("utf8")
    if k == "npb":
        return np.bytes_(x)
    if k == "s":
        return x
    if k in ("S", "U"):
        a = np.array([w.encode() if k == "S" else w for w in x], dtype=f"{k}6")
        return a.reshape(1, -1) if v[2] == 2 else a
    if k == "0d":
        return np.array(b"zero")
    return {"i": x, "f": x / 2, "none": None, "i8": np.arange(x), "bool": bool(x % 2)}[k]


def want(v):
    """(same object expected, value)"""
    import numpy as np

    k, x = v[0], v[1]
    if k == "list":
        return [want(y) for y in x]
    if k == "tuple":
        return tuple(want(y) for y in x)
    if k == "set":
        return {want(y) for y in x}
    if k == "dict":
        return {want(a): want(b) for a, b in x}
    if k in ("b", "u8b", "npb"):
        return x
    if k == "S":
        a = np.array(list(x), dtype="U6")
        return a.reshape(1, -1) if v[2] == 2 else a
    if k == "0d":
        return np.array("zero")
    return mk(v)


def eqv(a, b):
    import numpy as np

    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype.kind == b.dtype.kind and a.shape == b.shape and (a == b).all()
    if type(a) is not type(b) and not (isinstance(a, (str, np.str_)) and isinstance(b, str)):
        return False
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return list(a) == list(b) and all(eqv(a[k], b[k]) for k in b)
    return a == b


def gen_nested(rng, i):
    return {"v": gen_val(rng)}


def check_nested(c):
    from caput.util import typeutils as t

    v, orig = mk(c["v"]), mk(c["v"])
    try:
        w = want(c["v"])
    except TypeError:
        return None
    r = t.bytes_to_unicode(v)
    if not eqv(r, w):
        return f"{orig!r} became {r!r}, expected {w!r}"
    if not eqv_raw(v, orig):
        return f"the argument became {v!r}"
    r2 = t.bytes_to_unicode(r)
    if not eqv(r2, w):
        return f"converting again changed {r!r} to {r2!r}"
    return None


def eqv_raw(a, b):
    return eqv(a, b)


# structured types -----------------------------------------------------------
def gen_type(rng, depth=0):
    fields = []
    for i in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if depth < 2 and k < 0.3:
            t = gen_type(rng, depth + 1)
        else:
            t = rng.choice(["i4", ">i4", "f8", "S3", "S1", "U4", ">U2", "U1", "c8", "?", "M8[s]", "V3", "u1"])
        sh = rng.choice([None, None, None, [2], [2, 1]])
        fields.append([f"f{i}" if rng.random() < 0.8 else f"name {i}", t, sh, rng.random() < 0.1])
    return {"fields": fields, "align": rng.random() < 0.3}


def mkt(t, conv=None):
    import numpy as np

    if isinstance(t, str):
        if conv == "U" and t.lstrip("<>|").startswith("S"):
            return np.dtype("U" + t[1:])
        if conv == "S" and "U" in t:
            return np.dtype("S" + t.lstrip("<>")[1:])
        return np.dtype(t)
    fl = []
    for n, ft, sh, title in t["fields"]:
        d = mkt(ft, conv)
        name = (f"title {n}", n) if title else n
        fl.append((name, d, tuple(sh)) if sh else (name, d))
    return np.dtype(fl, align=t["align"] and conv is None)


def gen_struct(rng, i):
    t = gen_type(rng) if rng.random() < 0.8 else rng.choice(["S3", "U4", ">U2", "f8", "i4", "M8[s]", "S1", "?"])
    return {"t": t, "shape": rng.choice([[], [0], [3], [2, 2]]), "seed": rng.randrange(999), "view": rng.random() < 0.2}


def kinds(d):
    if d.subdtype is not None:
        return kinds(d.subdtype[0])
    if d.names:
        return {k for n in d.names for k in kinds(d.fields[n][0])}
    return {d.kind}


def fillin(a, rng):
    import numpy as np

    d = a.dtype
    if d.names:
        for n in d.names:
            fillin(a[n], rng)
    elif d.kind in "SU":
        n = d.itemsize // (4 if d.kind == "U" else 1)
        w = ["".join(rng.choice("abXY01_") for _ in range(rng.randrange(0, n + 1))) for _ in range(a.size)]
        a[...] = np.array(w if d.kind == "U" else [x.encode() for x in w], dtype=d).reshape(a.shape)
    elif d.kind == "V":
        a[...] = np.array([bytes([rng.randrange(256) for _ in range(d.itemsize)]) for _ in range(a.size)], dtype=d).reshape(a.shape)
    elif d.kind == "?" or d.kind == "b":
        a[...] = np.array([rng.random() < 0.5 for _ in range(a.size)]).reshape(a.shape)
    else:
        a[...] = np.array([rng.randrange(100) for _ in range(a.size)]).reshape(a.shape).astype(d)


def leaves(a):
    """Every element with its position, strings as text."""
    if a.dtype.names:
        return [(n, leaves(a[n])) for n in a.dtype.names]
    x = a.tolist()

    def txt(y):
        if isinstance(y, list):
            return [txt(z) for z in y]
        return y.decode("latin1") if isinstance(y, bytes) and a.dtype.kind == "S" else y

    return (a.shape, a.dtype.kind if a.dtype.kind not in "SU" else "text", txt(x))


def check_struct(c):
    import random

    import numpy as np

    from caput.util import typeutils as t

    rng = random.Random(c["seed"])
    dt = mkt(c["t"])
    K = kinds(dt)
    if t.has_unicode(dt) != ("U" in K) or t.has_bytestring(dt) != ("S" in K):
        return f"{dt}: has_unicode {t.has_unicode(dt)}, has_bytestring {t.has_bytestring(dt)}; kinds {K}"
    for k in "SUifcV":
        if t.has_kind(dt, k) != (k in K):
            return f"{dt}: has_kind {k} is {t.has_kind(dt, k)}"
    for f, conv in ((t.dtype_to_unicode, "U"), (t.dtype_to_bytestring, "S")):
        r, w = f(dt), mkt(c["t"], conv)
        if strip(r) != strip(w):
            return f"{f.__name__}({dt}) = {r}, expected {w}"
    a = np.zeros(c["shape"], dtype=dt)
    if c["view"] and a.ndim:
        a = np.zeros([2 * x for x in c["shape"]], dtype=dt)[tuple(slice(None, None, 2) for _ in c["shape"])]
    fillin(a, rng)
    keep = a.copy()
    before = leaves(a)
    for f, conv, gone in ((t.ensure_unicode, "U", "S"), (t.ensure_bytestring, "S", "U")):
        r = f(a)
        if gone not in K:
            if r is not a:
                return f"{f.__name__}: nothing to convert in {dt}, but a new array was returned"
            continue
        if strip(r.dtype) != strip(mkt(c["t"], conv)):
            return f"{f.__name__} of {dt}: type {r.dtype}"
        if leaves(r) != before:
            return f"{f.__name__} of {dt}: {r} from {a}"
        back = (t.ensure_bytestring, t.ensure_unicode)[conv == "S"](r)
        if leaves(back) != before:
            return f"{f.__name__} of {dt} and back: {back} from {a}"
        if len(K & {"S", "U"}) == 1 and strip(back.dtype) != strip(mkt(c["t"], gone)):
            return f"{f.__name__} of {dt} and back: type {back.dtype}"
        if np.shares_memory(r, a) and a.size:
            return "result shares memory"
    if leaves(a) != leaves(keep) or a.dtype != dt:
        return "the argument was modified"
    # writing unicode to HDF5 is refused, anything else passes through
    class D:
        name = "/x"

    d = D()
    d.dtype, d.data = a.dtype, a
    try:
        r = t.check_unicode(d)
        if "U" in K:
            return f"check_unicode accepted {dt}"
        if r is not a:
            return "check_unicode did not return the data"
    except TypeError:
        if "U" not in K:
            return f"check_unicode refused {dt}"
    n = t.ensure_native_byteorder(a)
    if leaves(n) != before:
        return f"ensure_native_byteorder changed {a} to {n}"
    return None


def strip(d):
    """The structure of a type: names, titles, kinds, sizes, shapes in order."""
    if d.subdtype is not None:
        return ("sub", strip(d.subdtype[0]), d.subdtype[1])
    if d.names is not None:
        return [(n, d.fields[n][2] if len(d.fields[n]) > 2 else None, strip(d.fields[n][0])) for n in d.names]
    return (d.kind, d.itemsize)


FALSIFIERS = [
    Falsifier("nested", gen_nested, check_nested, n=1500, thorough=40000),
    Falsifier("types", gen_struct, check_struct, n=1500, thorough=40000),
]

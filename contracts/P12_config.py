"""A configuration is read faithfully or rejected."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = ["a property converter is an arbitrary function of the value that either returns or raises"]
RULE = "random class hierarchies with random property kinds, defaults and keys; random configurations with valid and invalid values"


# ---------------------------------------------------------------- proofs
_CONV = "converted"


def _conv(e, name="conv", may_fail=True):
    """An arbitrary converter: uninterpreted result, may raise TypeError on this path."""
    f = z3.Function(name, U, U)

    def conv(v):
        if not isinstance(v, SVal):
            raise Unsupported("converter called with something else")
        if may_fail and e.choose(2, name + "_fails") == 0:
            conv.failed = True
            raise TypeError("cannot convert")
        return SVal(f(v.z))

    conv.failed = False
    conv.want = lambda v: SVal(f(v.z))
    return conv


def _same(a, b):
    if isinstance(a, SVal) and isinstance(b, SVal):
        return SBool(a.z == b.z)
    return SBool(z3.BoolVal(a is b))


def p_property(e):
    """One property of an arbitrary object, any key, any value."""
    from caput.config import CaputConfigError, Property

    conv = _conv(e)
    default = [None, Val("default")][e.choose(2, "has_default")]
    key = [None, "other"][e.choose(2, "key")]
    P = Property(default=default, proptype=conv, key=key)

    class Obj:
        p = P

    class Sub(Obj):
        pass

    a, b = (Obj(), Sub()) if e.choose(2, "sub") else (Sub(), Obj())
    k = key or "p"
    val = Val("val")
    conf = {k: val, "unrelated": Val("x")} if e.choose(2, "present") else {"unrelated": Val("x"), "q": 1}
    if key is not None:
        conf["p"] = Val("decoy")
    before = dict(conf)
    e.cover("pre")
    try:
        P._from_config(a, conf)
        raised = False
    except CaputConfigError:
        raised = True
    e.prove("from_config:configuration-not-modified", SBool(z3.BoolVal(list(conf) == list(before) and all(conf[x] is before[x] for x in conf))))
    e.prove("from_config:refused-iff-converter-refuses", SBool(z3.BoolVal(raised == conv.failed)))
    if raised:
        return
    conv.failed = False
    present = k in conf
    try:
        got = a.p
    except TypeError:
        e.prove("get:only-default-conversion-may-fail", SBool(z3.BoolVal(not present and default is not None)))
        return
    if present:
        e.prove("get:converted-value", _same(got, conv.want(val)))
    else:
        e.prove("get:default", _same(got, conv.want(default) if default is not None else None))
    # nothing leaks to another instance
    try:
        other = b.p
    except TypeError:
        return
    e.prove("get:other-instance-default", _same(other, conv.want(default) if default is not None else None))
    w = Val("w")
    try:
        b.p = w
    except TypeError:
        e.prove("set:refusal-leaves-instance-unset", SBool(z3.BoolVal("p" not in b.__dict__)))
        return
    e.prove("set:converted-value", _same(b.__dict__.get("p", 0), conv.want(w)))
    conv.failed = False
    try:
        again = a.p
    except TypeError:
        return
    e.prove("set:first-instance-unchanged", _same(again, got))


def p_reader(e):
    """Hierarchies of up to three classes; presence of every key and every value arbitrary."""
    from caput.config import CaputConfigError, Property, Reader

    shape = e.choose(4, "shape")
    c = {n: _conv(e, "c" + n, may_fail=False) for n in "abcde"}

    class A(Reader):
        x = Property(default=SVal(z3.Const("dA", U)), proptype=c["a"])
        y = Property(proptype=c["b"], key="ykey")

    if shape == 0:
        K, eff = A, {"x": ("x", "a", "dA"), "y": ("ykey", "b", None)}
    elif shape == 1:
        class K(A):
            z = Property(default=SVal(z3.Const("dB", U)), proptype=c["c"])
        eff = {"x": ("x", "a", "dA"), "y": ("ykey", "b", None), "z": ("z", "c", "dB")}
    elif shape == 2:
        class K(A):  # redefinition
            x = Property(default=SVal(z3.Const("dC", U)), proptype=c["d"], key="xnew")
        eff = {"x": ("xnew", "d", "dC"), "y": ("ykey", "b", None)}
    else:
        class M:
            w = Property(default=SVal(z3.Const("dM", U)), proptype=c["e"])

        class B(A):
            z = Property(proptype=c["c"])

        class K(M, B):
            pass
        eff = {"x": ("x", "a", "dA"), "y": ("ykey", "b", None), "z": ("z", "c", None), "w": ("w", "e", "dM")}
    keys = {v[0] for v in eff.values()}
    conf, vals = {}, {}
    for k in sorted(keys):
        if e.choose(2, "has_" + k):
            conf[k] = vals[k] = Val("v_" + k)
    extra = e.choose(2, "extra") == 0
    if extra:
        conf["extra"] = Val("v_extra")
    mode = e.choose(3, "compare")
    compare = [False, True, ["extra"]][mode]
    use_defaults = e.choose(2, "defaults") == 0
    e.cover("pre")
    obj, twin = K(), K()
    fin = []
    obj._finalise_config = lambda: fin.append(1)
    try:
        obj.read_config(conf, compare_keys=compare, use_defaults=use_defaults)
        ok = True
    except CaputConfigError:
        ok = False
    bad = (extra and mode == 1) or (not use_defaults and keys - set(conf))
    e.prove("reader:refused-iff-unused-or-missing-keys", SBool(z3.BoolVal(ok == (not bad))))
    if not ok:
        return
    e.prove("reader:finalised-once", SBool(z3.BoolVal(fin == [1])))
    for p, (k, cn, d) in eff.items():
        want = c[cn].want(vals[k]) if k in vals else (c[cn].want(SVal(z3.Const(d, U))) if d else None)
        e.prove(f"reader:value-or-default:{p}", _same(getattr(obj, p), want))
        e.prove(f"reader:other-instance-untouched:{p}", _same(getattr(twin, p), c[cn].want(SVal(z3.Const(d, U))) if d else None))


def p_range(e):
    from caput.config import CaputConfigError, float_in_range

    a, b, v = Real("start"), Real("end"), Real("val")
    P = float_in_range(a, b)
    e.cover("pre")
    try:
        r = P.proptype(v)
    except CaputConfigError:
        e.prove("range:refused-only-outside", Or(v < a, v > b))
        return
    e.prove("range:accepted-only-inside", And(v >= a, v <= b))
    e.prove("range:value-kept", r == v)


def p_enum(e):
    from caput.config import CaputConfigError, enum

    n = e.choose(4, "n")
    opts = [Val(f"o{i}") for i in range(n)]
    v = Val("v")
    P = enum(opts)
    e.cover("pre")
    member = SBool(z3.Or([v.z == o.z for o in opts])) if opts else SBool(z3.BoolVal(False))
    try:
        r = P.proptype(v)
    except CaputConfigError:
        e.prove("enum:refused-only-outside", Not(member))
    else:
        e.prove("enum:accepted-only-member", member)
        e.prove("enum:value-kept", _same(r, v))
    # a default outside the options is refused at declaration
    d = Val("d")
    memd = SBool(z3.Or([d.z == o.z for o in opts])) if opts else SBool(z3.BoolVal(False))
    try:
        P = enum(opts, default=d)
    except ValueError:
        e.prove("enum:default-refused-only-outside", Not(memd))
    else:
        e.prove("enum:default-accepted-only-member", memd)


def p_list(e):
    from caput.config import CaputConfigError, list_type

    n = e.choose(5, "n")
    kinds = [e.choose(2, f"k{i}") for i in range(n)]
    val = [("s" if k else 3.5) for k in kinds]
    if e.choose(2, "tuple"):
        val = tuple(val)
    L = OptInt("length", lo=1)
    M = OptInt("maxlength", lo=1)
    T = [None, str][e.choose(2, "type")]
    e.cover("pre")
    P = list_type(type_=T, length=L, maxlength=M)
    good = And(SBool(z3.BoolVal(T is None or all(kinds))), SBool(z3.BoolVal(True)) if L is None else L == n,
               SBool(z3.BoolVal(True)) if M is None else M >= n)
    try:
        r = P.proptype(val)
    except CaputConfigError:
        e.prove("list:refused-only-if-wrong", Not(good))
    else:
        e.prove("list:accepted-only-if-right", good)
        e.prove("list:value-kept", SBool(z3.BoolVal(r is val or (type(r) is type(val) and list(r) == list(val)))))
    for notlist in ("abc", 3, {"a": 1}, None):
        try:
            list_type().proptype(notlist)
        except CaputConfigError:
            continue
        e.fail("list:not-a-list-refused", repr(notlist))
    e.prove("list:not-a-list-refused", SBool(z3.BoolVal(True)))


_C = "caput.config."
PROOFS = [
    Proof("property", p_property, [_C + "Property.__get__", _C + "Property.__set__", _C + "Property._from_config", _C + "Property._set_propname"], covers=["pre"]),
    Proof("reader", p_reader, [_C + "Reader.read_config", _C + "Property._from_config"], covers=["pre"],
          bound="class hierarchies: single, derived, redefining, and multiple inheritance with up to four properties (values, presence of keys, options unbounded)"),
    Proof("float_in_range", p_range, [_C + "float_in_range"], covers=["pre"], to_cases=lambda o, m: [("types", {"kind": "range", "a": float(m["start"]), "b": float(m["end"]), "v": float(m["val"])})]),
    Proof("enum", p_enum, [_C + "enum"], covers=["pre"], bound="up to three options"),
    Proof("list_type", p_list, [_C + "list_type"], covers=["pre"], bound="lists of up to four items"),
]


# ---------------------------------------------------------------- run time
KINDS = ["plain", "int", "str", "list", "range", "enum", "lt", "fmt"]


def gen(rng, i):
    names = "abcde"
    ncls = rng.choice([1, 2, 2, 3])
    classes = []
    for k in range(ncls):
        props = {}
        for n in names:
            if rng.random() < 0.4:
                kind = rng.choice(KINDS)
                props[n] = {"kind": kind, "default": _val(rng, kind, True) if rng.random() < 0.6 else None,
                            "key": rng.choice([None, None, None, "k_" + n])}
        classes.append(props)
    base = rng.choice(["chain", "multi"])
    confs = []
    for _ in range(2):
        conf = {}
        for n in names:
            for k in (n, "k_" + n):
                if rng.random() < 0.45:
                    decl = [c[n] for c in classes if n in c]
                    kind = rng.choice(decl)["kind"] if decl else "plain"
                    conf[k] = _val(rng, kind, rng.random() < 0.9)
        if rng.random() < 0.3:
            conf["zzz"] = 1
        confs.append(conf)
    return {"classes": classes, "base": base, "confs": confs, "compare": rng.choice([False, False, True, ["zzz"], ["zzz", "a", "k_a"]]),
            "use_defaults": rng.random() < 0.8}


def _val(rng, kind, ok):
    if kind == "plain":
        return rng.choice([1, "x", [1, 2], {"q": 1}, 0, "", False])
    if kind == "int":
        return rng.choice([1, 0, -4, "12"]) if ok else rng.choice(["x", [1], None, {}])
    if kind == "str":
        return rng.choice(["a", "", 3, [1]])
    if kind == "list":
        return rng.choice([[1], [], "ab"]) if ok else rng.choice([3, None])
    if kind == "range":
        return rng.choice([0.0, 1.0, 0.5, "0.25", 1]) if ok else rng.choice([-0.001, 1.0001, 7, "nan", "inf", [1]])
    if kind == "enum":
        return rng.choice(["red", "blue", 3]) if ok else rng.choice(["Red", "green", 4, None, "re"])
    if kind == "fmt":
        return rng.choice(["hdf5", "zarr", "HDF5", "Zarr"]) if ok else rng.choice(["h5", 3, ["zarr"]])
    return rng.choice([["a"], ["a", "b"], [], ["x", "y", "z"]]) if ok else rng.choice([["a", 1], "abc", ["a", "b", "c", "d"], 5])


def _decl(d):
    from caput import config
    from caput.pipeline.extensions import file_format

    k, kw = d["kind"], {"default": d["default"]}
    if k == "range":
        p = config.float_in_range(0.0, 1.0, **kw)
    elif k == "enum":
        p = config.enum(["red", "blue", 3], **kw)
    elif k == "lt":
        p = config.list_type(type_=str, maxlength=3, **kw)
    elif k == "fmt":
        p = file_format(**kw)
    else:
        p = config.Property(proptype={"plain": None, "int": int, "str": str, "list": list}[k], **kw)
    p.key = d["key"]
    return p


class Bad(Exception):
    pass


def _ref(kind, v):
    import math

    if kind == "plain":
        return v
    if kind == "int":
        if isinstance(v, (list, dict)) or v is None or v == "x":
            raise Bad
        try:
            return int(v)
        except (ValueError, TypeError):
            raise Bad from None
    if kind == "str":
        return str(v)
    if kind == "list":
        if isinstance(v, (str, list, dict)):
            return list(v)
        raise Bad
    if kind == "range":
        try:
            f = float(v)
        except (ValueError, TypeError):
            raise Bad from None
        if math.isnan(f) or f < 0 or f > 1:
            raise Bad
        return f
    if kind == "enum":
        if v in ("red", "blue") and isinstance(v, str) or (isinstance(v, (int, float)) and v == 3):
            return v
        raise Bad
    if kind == "fmt":
        from caput.memdata import fileformats

        if v is None:
            return None
        if not isinstance(v, str) or v.lower() not in ("hdf5", "zarr"):
            raise Bad
        return {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[v.lower()]
    if not isinstance(v, list) or len(v) > 3 or not all(isinstance(x, str) for x in v):
        raise Bad
    return v


def check(c):
    import copy

    from caput.config import CaputConfigError, Reader

    cls = []
    if c["base"] == "chain":
        prev = Reader
        for i, props in enumerate(c["classes"]):
            prev = type(f"C{i}", (prev,), {n: _decl(d) for n, d in props.items()})
            cls.append(prev)
        K = prev
        order = list(range(len(cls)))
    else:
        for i, props in enumerate(c["classes"]):
            cls.append(type(f"C{i}", (Reader,), {n: _decl(d) for n, d in props.items()}))
        K = type("K", tuple(cls), {})
        order = list(range(len(cls)))[::-1]
    eff = {}
    for i in order:
        eff.update(c["classes"][i])
    objs = []
    for conf in c["confs"]:
        o = K()
        keep = copy.deepcopy(conf)
        keys = {n: d["key"] or n for n, d in eff.items()}
        exp, bad = {}, None
        for n, d in eff.items():
            if keys[n] in conf:
                try:
                    exp[n] = _ref(d["kind"], conf[keys[n]])
                except Bad:
                    bad = f"{n}={conf[keys[n]]!r}"
            else:
                exp[n] = _ref(d["kind"], d["default"]) if d["default"] is not None else None
        if not bad and c["compare"]:
            allowed = set(keys.values()) | (set(c["compare"]) if isinstance(c["compare"], list) else set())
            if set(conf) - allowed:
                bad = "unused keys"
        if not bad and not c["use_defaults"] and set(keys.values()) - set(conf):
            bad = "missing keys"
        try:
            o.read_config(conf, compare_keys=c["compare"], use_defaults=c["use_defaults"])
            err = None
        except CaputConfigError as e:
            err = e
        if bool(err) != bool(bad):
            return f"expected {'rejection of ' + bad if bad else 'acceptance'}, got {err!r}"
        if conf != keep:
            return "configuration modified"
        if not err:
            objs.append((o, exp))
    fresh = K()
    for n, d in eff.items():
        w = _ref(d["kind"], d["default"]) if d["default"] is not None else None
        if getattr(fresh, n) != w or type(getattr(fresh, n)) is not type(w):
            return f"fresh instance {n} = {getattr(fresh, n)!r}, default {w!r}"
        if getattr(K, n) is not None and False:
            return "class access"
    for o, exp in objs:
        for n, w in exp.items():
            g = getattr(o, n)
            if g != w or type(g) is not type(w):
                return f"{n} = {g!r}, expected {w!r}"
    # setting on one instance does not show on another
    for n, d in eff.items():
        if d["kind"] == "int" and len(objs) == 2:
            setattr(objs[0][0], n, "77")
            if getattr(objs[0][0], n) != 77 or getattr(objs[1][0], n) != objs[1][1][n]:
                return "set leaked"
    return None


def gen_types(rng, i):
    k = rng.choice(["range", "logging", "yaml", "time"])
    if k == "range":
        a, b = sorted([rng.choice([0.0, -1.5, 2.0, 1e300, rng.random()]) for _ in range(2)])
        return {"kind": k, "a": a, "b": b, "v": rng.choice([a, b, (a + b) / 2, a - 1, b + 1, "nan", "-inf", rng.random()])}
    if k == "logging":
        lv = ["debug", "INFO", "Warning", "error", "notset", "loud", "", "critical!"]
        return {"kind": k, "v": rng.choice([rng.choice(lv), {rng.choice(["root", "caput", "x.y"]): rng.choice(lv) for _ in range(rng.randrange(0, 4))}, 3, ["INFO"], None])}
    if k == "time":
        return {"kind": k, "v": rng.choice([0.0, 1.5e9, -3.0, rng.uniform(0, 2e9)]), "default": rng.random() < 0.5}
    return {"kind": k, "tree": _tree(rng, 0)}


def _tree(rng, d):
    if d > 2 or rng.random() < 0.3:
        return rng.randrange(9)
    if rng.random() < 0.6:
        return {f"k{j}": _tree(rng, d + 1) for j in range(rng.randrange(1, 4))}
    return [_tree(rng, d + 1) for _ in range(rng.randrange(1, 3))]


def check_types(c):
    from caput import config

    if c["kind"] == "range":
        p = config.float_in_range(c["a"], c["b"])
        v = float(c["v"])
        ok = c["a"] <= v <= c["b"]
        try:
            r = p.proptype(c["v"])
        except config.CaputConfigError:
            return "rejected a value in the range" if ok else None
        return None if ok and r == v else f"accepted {v} for [{c['a']}, {c['b']}] as {r}"
    if c["kind"] == "logging":
        v = c["v"]
        d = {"root": v} if isinstance(v, str) else v
        good = isinstance(d, dict) and all(x.upper() in ("DEBUG", "INFO", "WARNING", "ERROR", "NOTSET") for x in d.values())
        try:
            r = config.logging_config().proptype(v)
        except (ValueError, config.CaputConfigError):
            return "rejected" if good else None
        return None if good and r == {k: x.upper() for k, x in d.items()} else f"{v!r} read as {r!r}"
    if c["kind"] == "time":
        import datetime

        class O:
            t = config.utc_time(default=c["v"]) if c["default"] else config.utc_time()
            u = config.utc_time()

        o = O()
        if not c["default"]:
            O.__dict__["t"]._from_config(o, {"t": c["v"]})
        if abs(o.t - c["v"]) > 1e-6:
            return f"time {o.t}"
        O.__dict__["u"]._from_config(o, {"u": datetime.datetime.fromtimestamp(c["v"], datetime.timezone.utc).replace(tzinfo=None)})
        return None if abs(o.u - c["v"]) < 1e-3 else f"datetime read as {o.u}, {c['v']}"
    import yaml

    doc = yaml.load(yaml.safe_dump(c["tree"]), Loader=config.SafeLineLoader)
    return None if doc == c["tree"] else f"document read as {doc}"


FALSIFIERS = [
    Falsifier("reader", gen, check, n=1500, thorough=40000, fixed=[
        {"classes": [{"a": {"kind": "int", "default": 1, "key": None}}, {"a": {"kind": "str", "default": "x", "key": None}}], "base": "chain",
         "confs": [{"a": "abc"}, {}], "compare": True, "use_defaults": True}]),
    Falsifier("types", gen_types, check_types, n=800, thorough=10000),
]

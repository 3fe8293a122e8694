"""Run-time hooks called by the rewritten code, and symbolic-aware builtins."""

from __future__ import annotations

import builtins
import numbers

import numpy as _np
import z3

from .sym import (
    EngineSignal, PathEnd, SBool, SInt, SReal, SStr, SVal, Unsupported, And, Ite, Or,
    _intlike, _numlike, eng, is_sym, zb, zi, zr,
)
from . import seq as _seq
from .seq import SSeq, SymIterable, SymRange

_b = builtins


# --------------------------------------------------------------------------
# loops
# --------------------------------------------------------------------------
class LoopContract:
    """Invariant for one loop.

    ``inv(L)`` returns [(name, formula)], where L maps local names to values and
    L['__k'] is the number of completed iterations, L['__n'] the iterable's
    length.  ``havoc(name, old, L)`` gives the arbitrary value of a modified
    local (default: by type).  ``heap(L)`` havocs mutated heap objects.
    """

    def __init__(self, inv, havoc=None, heap=None, name=""):
        self.inv = inv
        self.havoc = havoc
        self.heap = heap
        self.name = name


class ContractMismatch(EngineSignal):
    """A loop contract mentions something the code no longer has."""


def default_havoc(name, old):
    e = eng()
    if isinstance(old, SBool) or isinstance(old, bool):
        return SBool(e.fresh(name, "bool"))
    if _intlike(old):
        return SInt(e.fresh(name))
    if isinstance(old, (float, SReal)):
        return SReal(e.fresh(name, "real"))
    if isinstance(old, SVal):
        return SVal(z3.Const(f"{name}!{e.fresh_n}", old.z.sort()))
    return UNBOUND


class _Unbound:
    __pv_symbolic__ = True

    def __getattr__(self, n):
        raise Unsupported("use of a value not described by the loop contract")

    __add__ = __radd__ = __bool__ = __iter__ = __call__ = __getitem__ = (
        lambda self, *a: self.__getattr__("x")
    )


UNBOUND = _Unbound()


class _NativeLoop:
    contracted = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return _b.iter(self.it)

    def after(self, L):
        pass


def _conjuncts(c, L, key):
    try:
        return list(c.inv(L))
    except (KeyError, AttributeError, TypeError, IndexError) as e:
        raise ContractMismatch(f"{key}: {e!r}") from None


class _SymLoop:
    """A for-loop over a symbolic iterable, cut by its invariant."""

    contracted = True

    def __init__(self, it, key, contract):
        self.it, self.key, self.c = it, key, contract
        self.state = "init"

    def begin(self, L):
        L = dict(L)
        L["__k"], L["__n"], L["__phase"] = 0, self.it.n, "entry"
        for n, f in _conjuncts(self.c, L, self.key):
            eng().prove(f"{self.key}:inv-entry:{n}", f)
        self.entry = L

    def havoc1(self, name, L):
        old = L.get(name, UNBOUND)
        if self.c.havoc is not None:
            v = self.c.havoc(name, old, L)
            if v is not NotImplemented:
                return v
        if old is UNBOUND:
            return UNBOUND
        return default_havoc(name, old)

    def ready(self, L):
        e = eng()
        if self.c.heap is not None:
            try:
                self.c.heap(dict(L))
            except (KeyError, AttributeError, TypeError) as ex:
                raise ContractMismatch(f"{self.key}: {ex!r}") from None
        self.k = SInt(e.fresh("k"))
        L = dict(L)
        L["__k"], L["__n"], L["__phase"] = self.k, self.it.n, "assume"
        n = SInt(zi(self.it.n))
        e.add(z3.And(self.k.z >= 0, self.k.z <= n.z))
        for _, f in _conjuncts(self.c, L, self.key):
            e.add(zb(f))
        self.arbitrary = e.fork(self.k.z < n.z)

    def __iter__(self):
        if self.arbitrary:
            e = eng()
            e.cover(f"{self.key}:body")
            yield self.it.get(self.k)

    def after(self, L):
        if self.arbitrary:
            L = dict(L)
            L["__k"], L["__n"], L["__phase"] = self.k + 1, self.it.n, "step"
            for n, f in _conjuncts(self.c, L, self.key):
                eng().prove(f"{self.key}:inv-step:{n}", f)
            raise PathEnd
        eng().cover(f"{self.key}:exit")


class _WhileLoop:
    def __init__(self, key, contract):
        self.key, self.c = key, contract
        self.contracted = contract is not None
        self.count = 0

    def begin(self, L):
        for n, f in _conjuncts(self.c, dict(L, __phase="entry"), self.key):
            eng().prove(f"{self.key}:inv-entry:{n}", f)

    havoc1 = _SymLoop.havoc1

    def ready(self, L):
        if self.c.heap is not None:
            self.c.heap(dict(L))
        for _, f in _conjuncts(self.c, dict(L, __phase="assume"), self.key):
            eng().add(zb(f))

    def again(self, L):
        self.count += 1
        if not self.contracted:
            e = _engine()
            if e is not None and self.count > 400:
                raise Unsupported(f"loop {self.key} unrolled 400 times")
            if e is not None and e.unroll is not None and self.count > e.unroll * 4 + 8:
                e.bounded = True
                raise PathEnd
            return True
        if self.count > 1:
            for n, f in _conjuncts(self.c, dict(L, __phase="step"), self.key):
                eng().prove(f"{self.key}:inv-step:{n}", f)
            raise PathEnd
        return True


def _engine():
    from . import sym

    return sym.ENGINE


def _as_symiter(it):
    """A SymIterable of symbolic length, or None when iteration is concrete."""
    if isinstance(it, SymIterable):
        n = it.n
        if not isinstance(n, int):
            v = z3.simplify(zi(n))
            if z3.is_int_value(v):
                n = v.as_long()
        if isinstance(n, int):
            return None, [it.get(i) for i in _b.range(n)]
        return it, None
    if hasattr(type(it), "__pv_iter__"):
        return _as_symiter(it.__pv_iter__())
    return None, it


def loop(it, key):
    s, c = _as_symiter(it)
    if s is None:
        return _NativeLoop(c)
    e = eng()
    k = e.loop_contracts.get(key)
    if k is None:
        return _NativeLoop(_seq.iter_bounded(s))
    return _SymLoop(s, key, k)


def wloop(key):
    e = _engine()
    return _WhileLoop(key, e.loop_contracts.get(key) if e is not None else None)


def compiter(it):
    s, c = _as_symiter(it)
    return c if s is None else s


def listcomp(f, it):
    s, c = _as_symiter(it)
    if s is None:
        return [f(x) for x in c]
    return SSeq(s.n, lambda k: f(s.get(k)))


def _display(parts):
    if not any(star and _as_symiter(x)[0] is not None for star, x in parts):
        out = []
        for star, x in parts:
            if star:
                out.extend(_as_symiter(x)[1])
            else:
                out.append(x)
        return out
    res = None
    run = []
    for star, x in parts:
        if not star:
            run.append(x)
            continue
        s, c = _as_symiter(x)
        if s is None:
            run.extend(c)
            continue
        if run:
            res = SSeq.of(run) if res is None else res + run
            run = []
        piece = SSeq(s.n, s.get)
        res = piece if res is None else res + piece
    if run:
        res = res + run
    return res


def disp_list(parts):
    return _display(parts)


def disp_tuple(parts):
    r = _display(parts)
    if isinstance(r, SSeq):
        r.pytype = tuple
        return r
    return tuple(r)


# --------------------------------------------------------------------------
# operators
# --------------------------------------------------------------------------
def indices(s, n):
    if isinstance(s, slice):
        return _seq.slice_indices(s, n)
    return s.indices(n)


def mod(a, b):
    if isinstance(a, (str, bytes)) and _contains_sym(b):
        return "<formatted>"
    return a % b


def _contains_sym(x):
    if isinstance(x, (tuple, list)):
        return any(_contains_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_contains_sym(y) for y in x.values())
    return is_sym(x)


def contains(cont, x):
    if isinstance(cont, (list, tuple, set, frozenset, dict)) or type(cont) in (
        type({}.keys()), type({}.values())
    ):
        if is_sym(x) or (not isinstance(cont, dict) and _contains_sym(list(cont))):
            for y in cont:
                if x is y:
                    return True
                r = x == y
                if isinstance(r, SBool):
                    if bool(r):
                        return True
                elif bool(r):
                    return True
            return False
        return x in cont
    if isinstance(cont, (_b.range,)) and is_sym(x):
        return x in SymRange(cont.start, cont.stop, cont.step)
    if isinstance(cont, str) and isinstance(x, SStr):
        return bool(SBool(z3.Contains(z3.StringVal(cont), x.z)))
    return x in cont


FACADES = ("numpy", "math", "os", "shutil", "pathlib")
OVERRIDE = {}  # {"os": stand-in, "open": stand-in}: installed by a proof for one path


class ModProxy:
    """A module whose attributes a proof may replace by assumed contracts."""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        import importlib

        n = self.__dict__["_n"]
        o = OVERRIDE.get(n)
        if o is not None:
            return getattr(o, a)
        return getattr(importlib.import_module(n), a)


def facade(name):
    from . import npsym

    if name == "numpy":
        return npsym.facade
    if name == "math":
        return npsym.math_facade
    return ModProxy(name)


def p_open(*a, **k):
    o = OVERRIDE.get("open")
    return (o or _b.open)(*a, **k)


def fstr(*parts):
    """An f-string: concatenation, symbolic if a part is a symbolic string."""
    if _b.any(_b.isinstance(p, SStr) for p in parts):
        r = None
        for p in parts:
            p = p if _b.isinstance(p, (str, SStr)) else format(p)
            r = p if r is None else r + p
        return r
    return "".join([format(p) for p in parts])


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------
def p_len(x):
    if isinstance(x, SymIterable):
        return x.n
    if isinstance(x, SStr):
        return SInt(z3.Length(x.z))
    if getattr(type(x), "__pv_len__", None) is not None:
        return x.__pv_len__()
    return _b.len(x)


_SYM_TYPES = {
    "int": (SInt,),
    "bool": (SBool,),
    "float": (SReal,),
    "str": (SStr,),
}


def _inst1(x, t):
    if isinstance(x, SInt):
        return t in (int, numbers.Integral, numbers.Number, numbers.Real, object, SInt, numbers.Rational)
    if isinstance(x, SBool):
        return t in (bool, int, numbers.Integral, numbers.Number, object, SBool)
    if isinstance(x, SReal):
        return t in (float, numbers.Real, numbers.Number, object, SReal)
    if isinstance(x, SStr):
        return t in (str, object, SStr)
    if isinstance(x, SSeq):
        import collections.abc as cabc

        if t in (x.pytype, object, SSeq, SymIterable, cabc.Iterable, cabc.Sequence, cabc.Sized):
            return True
        return False
    return _b.isinstance(x, t)


def _flat(t):
    import types

    if isinstance(t, tuple):
        for y in t:
            yield from _flat(y)
    elif isinstance(t, types.UnionType):
        yield from t.__args__
    else:
        yield t


def p_isinstance(x, t):
    hook = getattr(type(x), "__pv_isinstance__", None)
    if hook is not None:
        return any(hook(x, y) for y in _flat(t))
    if is_sym(x):
        return any(_inst1(x, y) for y in _flat(t))
    if isinstance(t, tuple) or not isinstance(t, type):
        return any(_b.isinstance(x, _unfacade(y)) for y in _flat(t))
    return _b.isinstance(x, t)


def _unfacade(t):
    return t


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, (_b.range, SymRange))


class p_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if not any(is_sym(x) for x in a):
            return _b.range(*a)
        if len(a) == 1:
            a = (0, a[0])
        return SymRange(*a)


def p_int(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return SInt(zi(x))
        if isinstance(x, SReal):  # truncation towards zero
            f = z3.ToInt(x.z)
            return SInt(z3.If(x.z >= 0, f, -z3.ToInt(-x.z)))
        raise Unsupported("int() of a symbolic value")
    return _b.int(*a, **k)


def p_float(*a, **k):
    if a and is_sym(a[0]):
        return SReal(zr(a[0]))
    return _b.float(*a, **k)


def p_bool(*a):
    return _b.bool(*a)


def p_abs(x):
    return _b.abs(x)


def _minmax(a, k, better, orig):
    key = k.get("key")
    if len(a) == 1 and key is None:
        s, _ = _as_symiter(a[0]) if not hasattr(a[0], "__next__") else (None, None)
        if s is not None:
            from .npsym import s_max_array

            return s_max_array(s, 1 if orig is _b.max else -1)
    xs = a if len(a) > 1 else list(compiter(a[0]))
    if len(a) == 1:
        a = (xs,)
    if not any(is_sym(key(x) if key else x) for x in xs):
        return orig(*a, **k)
    if not xs:
        if "default" in k:
            return k["default"]
        raise ValueError("empty sequence")
    best = xs[0]
    for x in xs[1:]:
        p, q = (key(x), key(best)) if key else (x, best)
        if _numlike(p) and _numlike(q) and not key:
            c = better(p, q)
            best = (x if c else best) if isinstance(c, bool) else Ite(c, x, best)
        else:
            if bool(better(p, q)):
                best = x
    return best


def p_min(*a, **k):
    return _minmax(a, k, lambda p, q: p < q, _b.min)


def p_max(*a, **k):
    return _minmax(a, k, lambda p, q: p > q, _b.max)


def p_sum(it, start=0):
    s, c = _as_symiter(it)
    if s is not None:
        raise Unsupported("sum over a symbolic-length sequence")
    r = start
    for x in c:
        r = r + x
    return r


class SymEnum(SymIterable):
    pass


def p_enumerate(it, start=0):
    s, c = _as_symiter(it)
    if s is None:
        return _b.enumerate(c, start)
    return SymIterable(s.n, lambda k: (k + start, s.get(k)))


def p_zip(*its, **kw):
    parts = [_as_symiter(i) for i in its]
    if all(s is None for s, _ in parts):
        return _b.zip(*[c for _, c in parts], **kw)
    gets, n = [], None
    for s, c in parts:
        if s is None:
            c = list(c)
            s = SSeq.of(c) if c else SSeq(0, None)
        gets.append(s.get)
        n = s.n if n is None else Ite(SInt(zi(s.n)) < n, s.n, n)
    if kw.get("strict"):
        raise Unsupported("zip(strict=True) over symbolic sequences")
    return SymIterable(n, lambda k: tuple(g(k) for g in gets))


def p_reversed(x):
    s, c = _as_symiter(x)
    if s is None:
        return _b.reversed(c)
    return SymIterable(s.n, lambda k: s.get(SInt(zi(s.n)) - 1 - k))


def c_list(*a):
    if a:
        s, c = _as_symiter(a[0])
        if s is not None:
            return SSeq(s.n, s.get, list)
        return _b.list(c)
    return _b.list()


def c_tuple(*a):
    if a:
        s, c = _as_symiter(a[0])
        if s is not None:
            return SSeq(s.n, s.get, tuple)
        return _b.tuple(c)
    return _b.tuple()


def p_any(it):
    s, c = _as_symiter(it)
    if s is not None:
        return any(_b.iter(s))
    for x in c:
        if x:
            return True
    return False


def p_all(it):
    s, c = _as_symiter(it)
    if s is not None:
        return all(_b.iter(s))
    for x in c:
        if not x:
            return False
    return True


def p_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, mod(a, b)
    return _b.divmod(a, b)


def p_round(x, n=None):
    if is_sym(x):
        raise Unsupported("round")
    return _b.round(x, n) if n is not None else _b.round(x)


def p_sorted(it, **k):
    s, c = _as_symiter(it)
    if s is not None:
        raise Unsupported("sorted of a symbolic-length sequence")
    return _b.sorted(c, **k)


BUILTINS = {
    "len": p_len,
    "isinstance": p_isinstance,
    "range": p_range,
    "min": p_min,
    "max": p_max,
    "sum": p_sum,
    "abs": p_abs,
    "enumerate": p_enumerate,
    "zip": p_zip,
    "reversed": p_reversed,
    "any": p_any,
    "all": p_all,
    "divmod": p_divmod,
    "round": p_round,
    "sorted": p_sorted,
    "open": p_open,
}
# int/float/list/tuple are types: `x is int`, `int in types`, `type=int` must still
# be the real types, so only *calls* by name are redirected (see loader.visit_Call).
CALLS = {"int": p_int, "float": p_float, "list": c_list, "tuple": c_tuple}


_BYTYPE = {_b.int: p_int, _b.float: p_float, _b.list: c_list, _b.tuple: c_tuple}


def callee(f):
    """The callable for a call written ``int(...)`` etc. (identity unless builtin)."""
    try:
        return _BYTYPE.get(f, f)
    except TypeError:
        return f

"""Model of the part of numpy the contracts need (assumed contract of numpy).

``SArr`` is an n-dimensional array of concrete rank and possibly symbolic
extents; contents are a function from index tuples to (symbolic) values held in
a mutable store, and basic indexing yields views onto the same store, as in
numpy.  The facade delegates everything else to numpy when all arguments are
concrete.  ``python -m pv.selftest`` checks this model against numpy.
"""

from __future__ import annotations

import builtins as _b
import numbers

import numpy as _np
import math as _math
import z3

from .sym import (
    SBool, SInt, SReal, SVal, Unsupported, And, Or, Ite, U, _intlike, _numlike,
    eng, is_sym, zb, zi, zr,
)
from .seq import SSeq, SymIterable, range_len, slice_indices

newaxis = None


def _add(a, b):
    return a + b


def cint(x):
    """Concrete int of x if its term is a literal, else x."""
    if isinstance(x, SInt):
        v = z3.simplify(x.z)
        if z3.is_int_value(v):
            return v.as_long()
        return x
    if isinstance(x, SBool):
        return SInt(zi(x))
    return int(x) if isinstance(x, numbers.Integral) else x


def same(a, b):
    """Fork: are the two extents equal?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(SInt(zi(a)) == b)


class Store:
    __slots__ = ("fn", "writes")

    def __init__(self, fn):
        self.fn = fn
        self.writes = 0


class Fix:
    __slots__ = ("at",)

    def __init__(self, at):
        self.at = at


class Ax:
    __slots__ = ("v", "start", "step")

    def __init__(self, v, start, step):
        self.v, self.start, self.step = v, start, step


class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SArr:
            return type.__instancecheck__(cls, x) or _b.isinstance(x, _np.ndarray)
        return type.__instancecheck__(cls, x)


class SArr(metaclass=_Meta):
    """Symbolic ndarray."""

    __pv_symbolic__ = True
    __hash__ = None
    __array_priority__ = 1e7
    __array_ufunc_none = None

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        self = object.__new__(cls)
        shape = _shape(shape)
        e = eng()
        f = z3.Function(f"uninit!{e.fresh_n}", *([z3.IntSort()] * max(1, len(shape))), U)
        e.fresh_n += 1

        def fn(idx):
            return SVal(f(*[zi(i) for i in (idx or (0,))]))

        self._init(Store(fn), [Ax(i, 0, 1) for i in range(len(shape))], shape, _np.dtype(dtype))
        if hasattr(cls, "__array_finalize__") and cls.__array_finalize__ is not None:
            self.__array_finalize__(None)
        return self

    def __init__(self, *a, **k):
        pass

    __array_finalize__ = None

    def _init(self, store, amap, shape, dtype):
        d = self.__dict__
        d["_store"], d["_map"], d["_shape"], d["_dtype"] = store, amap, tuple(shape), dtype

    # -- construction -----------------------------------------------------------
    @classmethod
    def _make(cls, fn, shape, dtype=None):
        self = object.__new__(SArr)
        shape = tuple(cint(s) for s in shape)
        self._init(
            Store(fn), [Ax(i, 0, 1) for i in range(len(shape))], shape,
            _np.dtype(dtype) if dtype is not None else _np.dtype(float),
        )
        return self

    def _derive(self, store, amap, shape, dtype=None):
        new = object.__new__(type(self))
        new._init(store, amap, tuple(cint(s) for s in shape), dtype or self._dtype)
        if type(self).__array_finalize__ is not None:
            new.__array_finalize__(self)
        return new

    # -- attributes ---------------------------------------------------------------
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    @property
    def size(self):
        return prod(self._shape)

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self._dtype.itemsize

    @property
    def flags(self):
        f = self.__dict__.get("_flags")
        if f is None:
            raise Unsupported("ndarray.flags")
        return f

    @property
    def T(self):
        # like numpy: does not go through the subclass's transpose()
        return SArr.transpose(self)

    def __len__(self):
        if self._shape and isinstance(self._shape[0], int):
            return self._shape[0]
        raise Unsupported("native len() of a symbolic array")

    def __pv_len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __pv_iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        return SymIterable(self._shape[0], lambda k: self[k])

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            for k in range(n):
                yield self[k]
        else:
            yield from iter(self.__pv_iter__())

    def __bool__(self):
        raise Unsupported("truth value of a symbolic array")

    # -- element access -------------------------------------------------------------
    def _fn(self):
        """Snapshot: function from view index tuple to value."""
        f, m = self._store.fn, self._map

        def g(idx):
            base = []
            for a in m:
                base.append(a.at if isinstance(a, Fix) else a.start + idx[a.v] * a.step)
            return f(tuple(base))

        return g

    def at(self, *idx):
        return self._fn()(tuple(idx))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if all(isinstance(s, int) and s == 1 for s in self._shape):
            return self.at(*([0] * self.ndim))
        raise Unsupported("item()")

    # -- indexing ---------------------------------------------------------------------
    def _index(self, key):
        """(amap, shape) of a basic-indexing view, or advanced result via exception."""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            i = next(j for j, k in enumerate(key) if k is Ellipsis)
            if any(k is Ellipsis for k in key[i + 1:]):
                raise IndexError("an index can only have a single ellipsis ('...')")
            key[i : i + 1] = [slice(None)] * (self.ndim - nreal)
        else:
            key = key + [slice(None)] * (self.ndim - nreal)
        if nreal > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def _basic(self, key):
        key = self._index(key)
        ax = 0
        vmap = {}  # old view axis -> Fix or (new axis, start, step)
        shape = []
        fancy = []
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                a, b, c = slice_indices(k, n)
                m = range_len(a, b, c) if any(is_sym(x) for x in (a, b, c)) else len(range(a, b, c))
                vmap[ax] = (len(shape), a, c)
                shape.append(m)
            elif _intlike(k) and not isinstance(k, bool):
                kk = SInt(zi(k))
                nn = SInt(zi(n))
                if bool(Or(kk >= nn, kk < -nn)):
                    raise IndexError("index out of bounds")
                k2 = cint(kk + nn if bool(kk < 0) else kk)
                vmap[ax] = Fix(k2)
            elif isinstance(k, (list, tuple, _np.ndarray, SArr, SSeq)):
                fancy.append(ax)
                vmap[ax] = ("fancy", k, len(shape))
                shape.append(None)
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
            ax += 1
        return vmap, shape, fancy

    def __getitem__(self, key):
        vmap, shape, fancy = self._basic(key)
        if fancy:
            return self._fancy(vmap, shape, fancy)
        amap = []
        for a in self._map:
            if isinstance(a, Fix):
                amap.append(a)
                continue
            m = vmap[a.v]
            if isinstance(m, Fix):
                amap.append(Fix(a.start + m.at * a.step))
            else:
                amap.append(Ax(m[0], a.start + m[1] * a.step, a.step * m[2]))
        if not shape and not any(k is Ellipsis for k in (key if isinstance(key, tuple) else (key,))):
            v = self._store.fn(tuple(a.at for a in amap))
            return v
        return self._derive(self._store, amap, shape)

    def _fancy(self, vmap, shape, fancy):
        if len(fancy) > 1:
            raise Unsupported("several index arrays")
        ax = fancy[0]
        _, idx, pos = vmap[ax]
        idx = as_index(idx)
        if idx.ndim != 1:
            raise Unsupported("index array of rank != 1")
        n = self._shape[ax]
        f = self._fn()
        shape = list(shape)
        shape[pos] = idx.shape[0]
        g = idx._fn()
        # scalar indices next to an index array are fine with one index array at
        # this position only if they do not move the axis; keep to the simple case
        if any(isinstance(m, Fix) for m in vmap.values()):
            raise Unsupported("mixed integer and array index")
        nn = SInt(zi(n))

        def fn(i):
            src = [None] * self.ndim
            for a in range(self.ndim):
                m = vmap[a]
                if a == ax:
                    j = g((i[m[2]],))
                    src[a] = Ite(SInt(zi(j)) < 0, j + nn, j)
                else:
                    src[a] = m[1] + i[m[0]] * m[2]
            return f(tuple(src))

        # bounds: every index must be within range
        e = eng()
        if isinstance(idx.shape[0], int):
            for t in range(idx.shape[0]):
                j = SInt(zi(g((t,))))
                if bool(Or(j >= nn, j < -nn)):
                    raise IndexError("index out of bounds")
        else:
            t = e.fresh("fi")
            bad = zb(
                And(SInt(t) >= 0, SInt(t) < idx.shape[0], Or(SInt(zi(g((SInt(t),)))) >= nn,
                                                             SInt(zi(g((SInt(t),)))) < -nn))
            )
            if e._check(bad) != z3.unsat and e.fork(z3.Exists([t], bad)):  # t is fresh: unsat means none
                raise IndexError("index out of bounds")
        arr = SArr._make(fn, shape, self._dtype)
        new = object.__new__(type(self))
        new._init(arr._store, arr._map, arr._shape, self._dtype)
        if type(self).__array_finalize__ is not None:
            new.__array_finalize__(self)
        return new

    def __setitem__(self, key, value):
        vmap, shape, fancy = self._basic(key)
        if fancy:
            raise Unsupported("assignment through an index array")
        amap = []
        for a in self._map:
            if isinstance(a, Fix):
                amap.append(a)
                continue
            m = vmap[a.v]
            amap.append(
                Fix(a.start + m.at * a.step)
                if isinstance(m, Fix)
                else Ax(m[0], a.start + m[1] * a.step, a.step * m[2])
            )
        shape = [cint(s) for s in shape]
        vfn = broadcast(value, shape)
        old = self._store.fn
        used = {a.v for a in amap if isinstance(a, Ax)}
        for i, s in enumerate(shape):
            if i not in used and not (isinstance(s, int) and s == 1):
                raise Unsupported("write through a broadcast axis")

        def fn(b):
            conds = []
            vidx = [0] * len(shape)
            for a, bi in zip(amap, b):
                if isinstance(a, Fix):
                    conds.append(eq(bi, a.at))
                    continue
                t = bi - a.start
                n = shape[a.v]
                if isinstance(a.step, int) and a.step == 1:
                    conds.append(And(SInt(zi(t)) >= 0, SInt(zi(t)) < n))
                    vidx[a.v] = t
                elif isinstance(a.step, int) and a.step == -1:
                    t = -t
                    conds.append(And(SInt(zi(t)) >= 0, SInt(zi(t)) < n))
                    vidx[a.v] = t
                else:
                    st = zi(a.step)
                    q = SInt(zi(t) / st)
                    conds.append(And(SBool(zi(t) % st == 0), q >= 0, q < n))
                    vidx[a.v] = q
            c = And(*conds)
            z = z3.simplify(c.z)
            if z3.is_true(z):
                return vfn(tuple(vidx))
            if z3.is_false(z):
                return old(b)
            return merge(SBool(z), lambda: vfn(tuple(vidx)), lambda: old(b))

        self._store.fn = fn
        self._store.writes += 1

    # -- views ------------------------------------------------------------------------
    def view(self, *args, **kw):
        t = kw.get("type")
        dt = kw.get("dtype")
        for a in args:
            if isinstance(a, type) and issubclass(a, SArr):
                t = a
            else:
                dt = a
        if dt is not None and not (isinstance(dt, type) and issubclass(dt, SArr)):
            raise Unsupported("view with another dtype")
        new = object.__new__(t or type(self))
        new._init(self._store, list(self._map), self._shape, self._dtype)
        if type(new).__array_finalize__ is not None:
            new.__array_finalize__(self)
        return new

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if axes is None or len(axes) == 0:
            axes = tuple(range(self.ndim))[::-1]
        axes = [int(a) for a in axes]
        if len(axes) != self.ndim:
            raise ValueError("axes don't match array")
        axes = [a + self.ndim if a < 0 else a for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("repeated axis in transpose" if len(set(axes)) != len(axes) else "axis out of bounds")
        inv = {a: i for i, a in enumerate(axes)}
        amap = [a if isinstance(a, Fix) else Ax(inv[a.v], a.start, a.step) for a in self._map]
        return self._derive(self._store, amap, [self._shape[a] for a in axes])

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return SArr.transpose(self, *ax)

    def copy(self, order="C"):
        arr = SArr._make(self._fn(), self._shape, self._dtype)
        return self._derive(arr._store, arr._map, arr._shape)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SArr.copy(self)

    def astype(self, dtype, **kw):
        if _np.dtype(dtype) != self._dtype and self._opaque():
            raise Unsupported("astype of opaque elements")
        dt = _np.dtype(dtype)
        f = self._fn()
        if self._dtype == _np.dtype(bool) and dt.kind in "iu":
            def g(idx):
                v = f(idx)
                return Ite(v, 1, 0) if isinstance(v, SBool) else int(v)
        elif self._dtype.kind == "f" and dt.kind in "iu":
            raise Unsupported("float to int astype")
        else:
            g = f
        arr = SArr._make(g, self._shape, dt)
        return self._derive(arr._store, arr._map, arr._shape, dt)

    def _opaque(self):
        return False

    def fill(self, v):
        self[...] = v

    def squeeze(self, axis=None):
        raise Unsupported("squeeze")

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self[:]
        raise Unsupported("ravel of a symbolic array of rank > 1")

    def reshape(self, *shape, **kw):
        """Row-major reshape; element semantics through the flat index."""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        tot = self.size
        neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        if neg:
            rest = prod([s for i, s in enumerate(shape) if i != neg[0]])
            if same(rest, 0):
                raise ValueError("cannot reshape array")
            q, r = divmod(SInt(zi(tot)), rest) if is_sym(tot) or is_sym(rest) else divmod(tot, rest)
            if not same(r, 0):
                raise ValueError("cannot reshape array")
            shape[neg[0]] = cint(q)
        elif not same(prod(shape), tot):
            raise ValueError("cannot reshape array of this size into shape")
        f, old = self._fn(), self._shape

        def fn(idx):
            flat = ravel_index(idx, shape)
            return f(unravel_index(flat, old))

        arr = SArr._make(fn, shape, self._dtype)
        return self._derive(arr._store, arr._map, arr._shape)

    # -- arithmetic ---------------------------------------------------------------------
    def _bin(self, o, name, rev=False):
        if not (isinstance(o, (SArr, _np.ndarray)) or _numlike(o) or isinstance(o, SVal)):
            return NotImplemented
        args = (o, self) if rev else (self, o)
        if overrides(self) or overrides(o):
            return UFunc(getattr(_np, name))(*args)
        return elementwise(name, args)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "subtract")
    def __rsub__(self, o): return self._bin(o, "subtract", True)
    def __mul__(self, o): return self._bin(o, "multiply")
    def __rmul__(self, o): return self._bin(o, "multiply", True)
    def __truediv__(self, o): return self._bin(o, "true_divide")
    def __rtruediv__(self, o): return self._bin(o, "true_divide", True)
    def __floordiv__(self, o): return self._bin(o, "floor_divide")
    def __mod__(self, o): return self._bin(o, "remainder")
    def __lt__(self, o): return self._bin(o, "less")
    def __le__(self, o): return self._bin(o, "less_equal")
    def __gt__(self, o): return self._bin(o, "greater")
    def __ge__(self, o): return self._bin(o, "greater_equal")
    def __eq__(self, o): return self._bin(o, "equal")
    def __ne__(self, o): return self._bin(o, "not_equal")
    def __neg__(self): return elementwise("negative", (self,))
    def __pow__(self, o): return elementwise("power", (self, o))

    def _ibin(self, o, name):
        if overrides(self) or overrides(o):
            return UFunc(getattr(_np, name))(self, o, out=(self,))
        r = elementwise(name, (self, o))
        self[...] = r
        return self

    def __iadd__(self, o): return self._ibin(o, "add")
    def __isub__(self, o): return self._ibin(o, "subtract")
    def __imul__(self, o): return self._ibin(o, "multiply")

    def cumsum(self, axis=None, **kw):
        if axis is not None and (self.ndim > 1 or overrides(self)):
            return UFunc(_np.add).accumulate(self, axis=axis, **kw)
        return cumsum(self)

    def sum(self, axis=None, **kw):
        return UFunc(_np.add).reduce(self, axis=axis, **kw)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        """ndarray's own implementation."""
        inputs = tuple(x.view(SArr) if overrides(x) else x for x in inputs)
        out = kw.pop("out", None)
        name = {"divide": "true_divide"}.get(ufunc.__name__, ufunc.__name__)
        kw.pop("where", None)
        if method == "__call__":
            if kw:
                raise Unsupported(f"ufunc keywords {sorted(kw)}")
            r = elementwise(name, inputs)
        elif method == "reduce":
            r = _reduce(name, inputs[0], kw.pop("axis", 0), kw.pop("keepdims", False))
        elif method == "accumulate":
            r = _accumulate(name, inputs[0], kw.pop("axis", 0))
        else:
            raise Unsupported(f"ufunc method {method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                o[...] = r
                return o
        return r

    def max(self, axis=None, **k):
        if self.ndim != 1 or axis not in (None, 0):
            raise Unsupported("max of a symbolic array")
        return s_max_array(self.__pv_iter__(), 1)

    def min(self, axis=None, **k):
        if self.ndim != 1 or axis not in (None, 0):
            raise Unsupported("min of a symbolic array")
        return s_max_array(self.__pv_iter__(), -1)

    def __repr__(self):
        return f"<{type(self).__name__} shape={self._shape}>"

    def tolist(self):
        if self.ndim == 1:
            return [x for x in self]
        raise Unsupported("tolist")


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return SBool(z3.BoolVal(a == b))
    return SInt(zi(a)) == b


def merge(c, a, b):
    x, y = a(), b()
    try:
        return Ite(c, x, y)
    except Unsupported:
        if bool(c):
            return x
        return y


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(cint(x) for x in s)
    if isinstance(s, SSeq):
        raise Unsupported("shape of symbolic rank")
    return (cint(s),)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return cint(r) if is_sym(r) else r


def ravel_index(idx, shape):
    f = 0
    for i, n in zip(idx, shape):
        f = f * n + i
    return f


def unravel_index(flat, shape):
    """Inverse of ravel_index: the (unique) index tuple, by definition."""
    out = []
    e = eng()
    if len(shape) == 1:
        return (flat,)
    idx = [SInt(e.fresh("u")) for _ in shape]
    for i, n in zip(idx, shape):
        e.add(z3.Implies(z3.And([zi(s) > 0 for s in shape]), z3.And(i.z >= 0, i.z < zi(n))))
    e.add(zi(ravel_index(idx, shape)) == zi(flat))
    return tuple(idx)


def broadcast(value, shape):
    """Function view-index -> value after numpy broadcasting to ``shape``."""
    if isinstance(value, (list, tuple)):
        value = array(value)
    if isinstance(value, _np.ndarray):
        value = from_np(value)
    if isinstance(value, SSeq):
        value = from_seq(value)
    if not isinstance(value, SArr):
        return lambda idx: value
    vs = list(value._shape)
    f = value._fn()
    off = len(shape) - len(vs)
    if off < 0:
        for s in vs[: -off]:
            if not same(s, 1):
                raise ValueError("could not broadcast input array")
    pick = []
    for i, s in enumerate(vs):
        t = i + off
        if t < 0:
            pick.append(None)
            continue
        if isinstance(s, int) and s == 1:
            pick.append(None)
        elif same(s, shape[t]):
            pick.append(t)
        elif same(s, 1):
            pick.append(None)
        else:
            raise ValueError("could not broadcast input array into shape")

    return lambda idx: f(tuple(0 if p is None else idx[p] for p in pick))


def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            v = s[j]
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = v
            elif same(d, v):
                pass
            elif same(v, 1):
                pass
            elif same(d, 1):
                d = v
            else:
                raise ValueError("operands could not be broadcast together")
        out.append(d)
    return out


_INTOPS = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "negative": lambda a: -a,
    "maximum": lambda a, b: Ite(a >= b, a, b),
    "minimum": lambda a, b: Ite(a <= b, a, b),
}
_BOOLRES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def overrides(x):
    return type.__instancecheck__(SArr, x) and type(x).__array_ufunc__ is not SArr.__array_ufunc__


def _fold(kind, name, f, n, at):
    """Uninterpreted fold of the values f(0..n-1) (kind 'reduce') or prefix up to ``at``."""
    e = eng()
    t = z3.Int(f"fold_t")
    v = f(SInt(t))
    v = v.z if isinstance(v, SVal) else z3.Function("lift", z3.RealSort(), U)(zr(v))
    arr = z3.Lambda([t], v)
    g = z3.Function(f"{kind}_{name}", arr.sort(), z3.IntSort(), U)
    return SVal(g(arr, zi(n if at is None else at)))


def _norm_axis(ax, nd):
    axs = ax if isinstance(ax, (tuple, list)) else (ax,)
    return sorted(x + nd if x < 0 else x for x in axs)


def _reduce(name, a, axis, keepdims):
    axs = list(range(a.ndim)) if axis is None else _norm_axis(axis, a.ndim)
    shape = list(a.shape)
    fn = a._fn()
    for ax in reversed(axs):
        n = shape[ax]

        def step(idx, fn=fn, ax=ax, n=n):
            if name == "add" and isinstance(n, int) and 0 < n <= 6:
                vs = [fn((*idx[:ax], t, *idx[ax:])) for t in range(n)]
                if not any(isinstance(v, SVal) for v in vs):
                    tot = vs[0]
                    for v in vs[1:]:
                        tot = tot + v
                    return tot
            return _fold("reduce", name, lambda t: fn((*idx[:ax], t, *idx[ax:])), n, None)

        fn = step
        del shape[ax]
    if keepdims:
        full = [1 if d in axs else a.shape[d] for d in range(a.ndim)]
        g = fn
        return SArr._make(lambda idx: g(tuple(x for d, x in enumerate(idx) if d not in axs)), full, a._dtype)
    return SArr._make(fn, shape, a._dtype)


def _accumulate(name, a, axis):
    ax = _norm_axis(axis, a.ndim)[0]
    fn = a._fn()

    def step(idx):
        return _fold("accumulate", name, lambda t: fn((*idx[:ax], t, *idx[ax + 1 :])), a.shape[ax], idx[ax])

    return SArr._make(step, a.shape, a._dtype)


def scalar_op(name, args):
    if any(isinstance(a, SVal) for a in args):
        zs = []
        for a in args:
            if isinstance(a, SVal):
                zs.append(a.z)
            else:
                lift = z3.Function("lift", z3.RealSort(), U)
                zs.append(lift(zr(a)))
        f = z3.Function(f"ufunc_{name}", *([U] * len(zs)), U)
        return SVal(f(*zs))
    if name in _INTOPS:
        return _INTOPS[name](*args)
    from . import trig

    if name in trig.FUNCS:
        return trig.FUNCS[name](*args)
    if name == "power":
        return args[0] ** args[1]
    raise Unsupported(f"elementwise {name} on numbers")


def elementwise(name, args):
    args = [from_np(a) if isinstance(a, _np.ndarray) else a for a in args]
    arrs = [a for a in args if isinstance(a, SArr)]
    shape = bshape([a._shape for a in arrs])
    fs = [broadcast(a, shape) for a in args]
    dts = [a._dtype for a in arrs]
    if name in _BOOLRES:
        dt = _np.dtype(bool)
    elif name in ("true_divide", "sin", "cos", "sqrt", "hypot", "arctan2", "arccos", "arcsin"):
        dt = _np.dtype(float)
    else:
        dt = _np.result_type(*dts)
        if any(isinstance(a, (float, SReal)) for a in args):
            dt = _np.result_type(dt, float)
    r = SArr._make(lambda idx: scalar_op(name, [f(idx) for f in fs]), shape, dt)
    big = max(arrs, key=lambda a: a.ndim)
    if type(big) is not SArr:
        return big._derive(r._store, r._map, r._shape, dt)
    return r


def from_np(a):
    lst = a
    if a.ndim == 0:
        v = a.item()
        return SArr._make(lambda idx: v, (), a.dtype)

    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            v = lst[idx]
            return v.item() if hasattr(v, "item") else v
        r = None
        for pos in _np.ndindex(*lst.shape):
            v = lst[pos].item()
            c = And(*[eq(i, p) for i, p in zip(idx, pos)])
            r = v if r is None else Ite(c, v, r)
        if r is None:
            raise Unsupported("element of an empty array")
        return r

    return SArr._make(fn, a.shape, a.dtype)


def from_seq(s):
    return SArr._make(lambda idx: s.get(idx[0]), (s.n,), int)


def as_index(k):
    if isinstance(k, SArr):
        if k._dtype == _np.dtype(bool):
            raise Unsupported("boolean mask index")
        return k
    if isinstance(k, _np.ndarray):
        if k.dtype == bool:
            k = _np.nonzero(k)[0]
        return from_np(k)
    if isinstance(k, SSeq):
        return from_seq(k)
    k = list(k)
    if all(isinstance(x, (bool, _np.bool_)) for x in k) and k:
        k = [i for i, x in enumerate(k) if x]
    return array(k, dtype=int)


def array(x, dtype=None, **kw):
    if isinstance(x, SArr):
        r = SArr._make(x._fn(), x._shape, dtype or x._dtype)
        return r
    if isinstance(x, SSeq):
        return from_seq(x)
    if is_sym(x):
        return SArr._make(lambda idx: x, (), dtype or int)
    if isinstance(x, (list, tuple)):
        lst = list(x)
        if any(isinstance(y, (list, tuple, SArr)) for y in lst):
            subs = [array(y, dtype) for y in lst]
            f = [s._fn() for s in subs]
            shp = subs[0]._shape
            for s in subs[1:]:
                if len(s._shape) != len(shp) or not all(same(p, q) for p, q in zip(s._shape, shp)):
                    raise Unsupported("ragged array")

            def fn2(idx):
                if isinstance(idx[0], int):
                    return f[idx[0]](idx[1:])
                r = f[-1](idx[1:])
                for i in range(len(f) - 2, -1, -1):
                    r = Ite(idx[0] == i, f[i](idx[1:]), r)
                return r

            return SArr._make(fn2, (len(lst), *shp), dtype or subs[0]._dtype)

        def fn(idx):
            i = idx[0]
            i = cint(i)
            if isinstance(i, int):
                return lst[i]
            if not lst:
                return 0  # no element of an empty array is looked at
            r = lst[-1]
            for j in range(len(lst) - 2, -1, -1):
                r = Ite(i == j, lst[j], r)
            return r

        dt = dtype or (_np.dtype(float) if any(isinstance(y, (float, SReal)) for y in lst) else _np.dtype(int))
        return SArr._make(fn, (len(lst),), dt)
    raise Unsupported(f"np.array of {type(x).__name__}")


def cumsum(a, axis=None, **kw):
    """Prefix sums, by their recurrence (assumed contract of numpy.cumsum)."""
    if isinstance(a, (list, tuple, SSeq)):
        a = array(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of rank > 1")
    e = eng()
    f, n = a._fn(), a._shape[0]
    e.assumed.add("numpy.cumsum: S[0]=a[0], S[j+1]=S[j]+a[j+1]")
    lemma = e.ghost.get("cumsum_lemma")
    if lemma is not None:
        closed = lemma(f, n)
        if closed is not None:
            return SArr._make(lambda idx: closed(SInt(zi(idx[0]))), (n,), a._dtype)
    S = z3.Function(f"cumsum!{e.fresh_n}", z3.IntSort(), z3.IntSort())
    e.fresh_n += 1
    j = e.fresh("j")
    e.add(S(0) == zi(f((0,))))
    e.add(
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < zi(n)), S(j + 1) == S(j) + zi(f((SInt(j + 1),)))),
                  patterns=[S(j + 1)])
    )
    e.assumed.add("numpy.cumsum: S[0]=a[0], S[j+1]=S[j]+a[j+1]")
    r = SArr._make(lambda idx: SInt(S(zi(idx[0]))), (n,), a._dtype)
    e.ghost.setdefault("cumsums", []).append((S, f, n))
    return r


def _concrete(*args):
    def ok(x):
        if isinstance(x, (list, tuple)):
            return all(ok(y) for y in x)
        if isinstance(x, dict):
            return all(ok(y) for y in x.values())
        return not is_sym(x)

    return all(ok(a) for a in args)


class Facade:
    """numpy, with symbolic versions of what the contracts exercise."""

    def __init__(self, mod, table):
        self.__dict__["_mod"] = mod
        self.__dict__["_table"] = table

    def __getattr__(self, name):
        t = self.__dict__["_table"]
        if name in t:
            return t[name]
        v = getattr(self.__dict__["_mod"], name)
        if isinstance(v, _np.ufunc):
            return UFunc(v)
        if callable(v) and not isinstance(v, type):
            def call(*a, **k):
                if not _concrete(a, k):
                    raise Unsupported(f"numpy.{name} on symbolic arguments")
                return v(*a, **k)

            call.__name__ = name
            call.__pv_wrapped__ = v
            return call
        return v

    def __setattr__(self, n, v):
        self.__dict__["_table"][n] = v


class UFunc:
    """A ufunc that dispatches to __array_ufunc__ for symbolic arrays."""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __getattr__(self, n):
        return getattr(self._u, n)

    def __call__(self, *a, **k):
        if _concrete(a, k):
            return self._u(*a, **k)
        outs = k.get("out", ())
        outs = outs if isinstance(outs, tuple) else (outs,)
        for x in (*a, *outs):
            m = getattr(type(x), "__array_ufunc__", None)
            if m is not None and overrides(x):
                kk = dict(k)
                if "out" in kk and not isinstance(kk["out"], tuple):
                    kk["out"] = (kk["out"],)
                return m(x, self, "__call__", *a, **kk)
        if k and any(isinstance(x, SArr) for x in a):
            return SArr.__array_ufunc__(None, self, "__call__", *a, **k)
        if k:
            raise Unsupported("ufunc keywords")
        if not any(isinstance(x, (SArr, _np.ndarray)) for x in a):
            return scalar_op({"divide": "true_divide"}.get(self.__name__, self.__name__), a)
        return elementwise({"divide": "true_divide"}.get(self.__name__, self.__name__), a)

    def _method(self, method, a, args, k):
        if _concrete((a, *args), k):
            return getattr(self._u, method)(a, *args, **k)
        if args:
            raise Unsupported("positional ufunc method arguments")
        if overrides(a):
            return type(a).__array_ufunc__(a, self, method, a, **k)
        return SArr.__array_ufunc__(a, self, method, a, **k)

    def reduce(self, a, *args, **k):
        return self._method("reduce", a, args, k)

    def accumulate(self, a, *args, **k):
        return self._method("accumulate", a, args, k)

    def __eq__(self, o):
        return (o._u if isinstance(o, UFunc) else o) is self._u

    def __hash__(self):
        return hash(self._u)


def _wrap(name, sym):
    real = getattr(_np, name)

    def f(*a, **k):
        if _concrete(a, k):
            return real(*a, **k)
        return sym(*a, **k)

    f.__name__ = name
    return f


def s_zeros(shape, dtype=float, **kw):
    v = 0 if _np.dtype(dtype).kind in "iub" else 0.0
    return SArr._make(lambda idx: v, _shape(shape), dtype)


def s_ones(shape, dtype=float, **kw):
    v = 1 if _np.dtype(dtype).kind in "iub" else 1.0
    return SArr._make(lambda idx: v, _shape(shape), dtype)


def s_full(shape, v, dtype=None, **kw):
    return SArr._make(lambda idx: v, _shape(shape), dtype or float)


def s_empty(shape, dtype=float, **kw):
    return SArr(_shape(shape), dtype=dtype)


def s_arange(*a, dtype=None, **k):
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 2:
        a = (*a, 1)
    if not all(_intlike(x) for x in a):
        raise Unsupported("arange of reals")
    start, stop, step = a
    n = range_len(start, stop, step)
    return SArr._make(lambda idx: start + idx[0] * step, (n,), dtype or int)


def s_insert(a, pos, v, axis=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if a.ndim != 1 or not _intlike(pos) or isinstance(v, (SArr, list)):
        raise Unsupported("np.insert")
    f = a._fn()
    n = a._shape[0]

    def fn(idx):
        i = SInt(zi(idx[0]))
        c = z3.simplify((i == pos).z)
        if z3.is_true(c):
            return v
        if z3.is_true(z3.simplify((i < pos).z)):
            return f((i,))
        if z3.is_true(z3.simplify((i > pos).z)):
            return f((i - 1,))
        return Ite(i == pos, v, Ite(i < pos, f((i,)), f((i - 1,))))

    return SArr._make(fn, (n + 1,), a._dtype)


def s_concatenate(arrs, axis=0, **kw):
    arrs = [from_np(a) if isinstance(a, _np.ndarray) else (array(a) if isinstance(a, (list, tuple)) else a) for a in arrs]
    nd = arrs[0].ndim
    axis = axis + nd if axis < 0 else axis
    for a in arrs[1:]:
        for d in range(nd):
            if d != axis and not same(a._shape[d], arrs[0]._shape[d]):
                raise ValueError("all the input array dimensions must match exactly")
    offs = [0]
    for a in arrs:
        offs.append(offs[-1] + a._shape[axis])
    fs = [a._fn() for a in arrs]

    def fn(idx):
        i = idx[axis]

        def sub(j):
            return fs[j]((*idx[:axis], i - offs[j], *idx[axis + 1:]))

        r = sub(len(fs) - 1)
        for j in range(len(fs) - 2, -1, -1):
            r = Ite(SInt(zi(i)) < offs[j + 1], sub(j), r)
        return r

    shape = list(arrs[0]._shape)
    shape[axis] = offs[-1]
    return SArr._make(fn, shape, arrs[0]._dtype)


def s_array_split(a, ind, axis=0):
    """numpy.array_split: with indices, consecutive slices [:i0], [i0:i1], ..., [ik:]."""
    if _intlike(ind):
        raise Unsupported("array_split into equal sections")
    if isinstance(ind, (list, tuple)):
        ind = array(ind)
    elif isinstance(ind, _np.ndarray):
        ind = from_np(ind)
    n = ind._shape[0]
    g = ind._fn()
    tot = a._shape[axis]

    def get(j):
        jj = SInt(zi(j))
        lo = 0 if bool(jj == 0) else g((jj - 1,))
        hi = tot if bool(jj == n) else g((jj,))
        key = [slice(None)] * a.ndim
        key[axis] = slice(lo, hi)
        return a[tuple(key)]

    return SSeq(n + 1, get)


def s_max_array(x, sign):
    """Largest (smallest) element of a 1-d symbolic array (assumed contract)."""
    f, n = x.get, SInt(zi(x.n))
    e = eng()
    if bool(n <= 0):
        raise ValueError("max() arg is an empty sequence")
    first = f(SInt(z3.IntVal(0)))
    j = SInt(e.fresh("mx"))
    hyp = z3.And(j.z >= 0, j.z < n.z)
    e.add(hyp)  # j is any of the elements
    fj = f(j)
    worse = zi(fj) > zi(first) if sign > 0 else zi(fj) < zi(first)
    if e._check(hyp, worse) == z3.unsat:
        return first  # element 0 attains it
    m = SInt(e.fresh("max"))
    w = SInt(e.fresh("w"))
    e.add(z3.And(w.z >= 0, w.z < n.z))
    e.add(zi(f(w)) == m.z)
    q = e.fresh("mq")
    e.add(z3.And(q >= 0, q < n.z))  # the free q only serves to build the body
    body = zi(f(SInt(q))) <= m.z if sign > 0 else zi(f(SInt(q))) >= m.z
    e.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.z), body)))
    return m


def s_ceil(x):
    if isinstance(x, SReal):
        return SReal(z3.ToReal(-z3.ToInt(-x.z)))
    if isinstance(x, (SInt, SBool)):
        return SReal(zr(x))
    raise Unsupported("ceil of array")


def s_floor(x):
    if isinstance(x, SReal):
        return SReal(z3.ToReal(z3.ToInt(x.z)))
    if isinstance(x, (SInt, SBool)):
        return SReal(zr(x))
    raise Unsupported("floor of array")


def s_prod(x, axis=None, **kw):
    if isinstance(x, SInt):
        return x
    if isinstance(x, (list, tuple)):
        return prod(x)
    if isinstance(x, SArr) and x.ndim == 1 and isinstance(x._shape[0], int):
        return prod([x.at(i) for i in range(x._shape[0])])
    raise Unsupported("prod of symbolic-length array")


def s_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        if type(x) is SArr:
            return x
        new = object.__new__(SArr)
        new._init(x._store, list(x._map), x._shape, x._dtype)
        return new
    return array(x, dtype)


def s_ascontiguousarray(x, dtype=None):
    r = s_asarray(x)
    return SArr._make(r._fn(), r._shape, r._dtype)


def s_result_type(*a):
    return _np.result_type(*[x._dtype if isinstance(x, SArr) else (_np.dtype(int) if isinstance(x, SInt) else x) for x in a])


def s_shape(x):
    return x._shape if isinstance(x, SArr) else array(x)._shape


def s_ndim(x):
    return x.ndim if isinstance(x, SArr) else array(x).ndim


def s_where(c, x=None, y=None):
    if x is None or not isinstance(c, SArr):
        raise Unsupported("where")
    shape = bshape([a._shape for a in (c, x, y) if isinstance(a, SArr)])
    fc, fx, fy = broadcast(c, shape), broadcast(x, shape), broadcast(y, shape)
    dt = next((a._dtype for a in (x, y) if isinstance(a, SArr)), _np.dtype(float))
    return SArr._make(lambda i: Ite(fc(i), fx(i), fy(i)), shape, dt)


def s_zeros_like(x, **k):
    return s_zeros(x._shape, dtype=k.get("dtype", None) or x._dtype)


def s_empty_like(x, **k):
    return s_empty(x._shape, dtype=k.get("dtype", None) or x._dtype)


def s_isscalar(x):
    return isinstance(x, (SInt, SReal, SBool, SVal))


def s_abs(x):
    return abs(x)


def s_array_equal(a, b):
    raise Unsupported("array_equal")


def s_take(a, indices, axis=None, **kw):
    if kw or axis is None or not isinstance(a, SArr) or _intlike(indices):
        raise Unsupported("take")
    ax = axis + a.ndim if axis < 0 else axis
    ix = indices if isinstance(indices, SArr) else array(list(indices), dtype=int) if not isinstance(indices, _np.ndarray) else from_np(indices)
    if not isinstance(indices, SArr) and len(indices) == 0:
        ix = SArr._make(lambda i: 0, (0,), int)
    return s_asarray(a[(slice(None),) * ax + (ix,)])


def _unbox(r):
    return r.item() if type(r) is SArr and r.ndim == 0 else r


def s_inner(a, b):
    if not (isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == 1 and b.ndim == 1 and isinstance(a.shape[0], int)):
        raise Unsupported("inner product")
    r = (a * b).sum(axis=0)
    return r.item() if isinstance(r, SArr) else r


_TABLE = {
    "ndarray": SArr,
    "take": _wrap("take", s_take),
    "array": _wrap("array", array),
    "asarray": _wrap("asarray", s_asarray),
    "asanyarray": _wrap("asanyarray", lambda x, **k: x if isinstance(x, SArr) else s_asarray(x)),
    "ascontiguousarray": _wrap("ascontiguousarray", s_ascontiguousarray),
    "zeros": _wrap("zeros", s_zeros),
    "ones": _wrap("ones", s_ones),
    "full": _wrap("full", s_full),
    "empty": _wrap("empty", s_empty),
    "zeros_like": _wrap("zeros_like", s_zeros_like),
    "empty_like": _wrap("empty_like", s_empty_like),
    "arange": _wrap("arange", s_arange),
    "insert": _wrap("insert", s_insert),
    "concatenate": _wrap("concatenate", s_concatenate),
    "cumsum": _wrap("cumsum", cumsum),
    "array_split": _wrap("array_split", s_array_split),
    "ceil": _wrap("ceil", s_ceil),
    "floor": _wrap("floor", s_floor),
    "prod": _wrap("prod", s_prod),
    "result_type": _wrap("result_type", s_result_type),
    "shape": _wrap("shape", s_shape),
    "ndim": _wrap("ndim", s_ndim),
    "where": _wrap("where", s_where),
    "max": _wrap("max", lambda x, **k: x.max(**k)),
    "amax": _wrap("amax", lambda x, **k: x.max(**k)),
    "min": _wrap("min", lambda x, **k: x.min(**k)),
    "isscalar": _wrap("isscalar", s_isscalar),
    "size": _wrap("size", lambda x, axis=None: x.size if axis is None else x.shape[axis]),
    "transpose": _wrap("transpose", lambda x, axes=None: x.transpose(axes)),
    "sum": _wrap("sum", lambda x, axis=None, **k: _unbox(x.sum(axis=axis, **k))),
    "dot": _wrap("dot", lambda a, b: s_inner(a, b)),
    "inner": _wrap("inner", lambda a, b: s_inner(a, b)),
    "linspace": _wrap("linspace", lambda a, b, n: SArr._make(lambda i: SReal(zr(a) + z3.If(zi(n) > 1, (zr(b) - zr(a)) * z3.ToReal(zi(i[0])) / z3.ToReal(zi(n) - 1), 0)), (n,))),
    "swapaxes": _wrap("swapaxes", lambda x, a, b: x.swapaxes(a, b)),
}
facade = Facade(_np, _TABLE)


def _mwrap(name, sym):
    real = getattr(_math, name)

    def f(*a, **k):
        if _concrete(a, k):
            return real(*a, **k)
        return sym(*a, **k)

    return f


def _m_ceil(x):
    r = s_ceil(x)
    return SInt(z3.ToInt(r.z))


def _m_floor(x):
    r = s_floor(x)
    return SInt(z3.ToInt(r.z))


math_facade = Facade(
    _math, {"ceil": _mwrap("ceil", _m_ceil), "floor": _mwrap("floor", _m_floor), "prod": _mwrap("prod", prod)}
)

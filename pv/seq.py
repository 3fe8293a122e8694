"""Sequences of symbolic length."""

from __future__ import annotations

import z3

from .sym import (
    SBool, SInt, Unsupported, _intlike, eng, zi, Ite, And, Or, SVal, U,
)


class SymIterable:
    """Something with a symbolic length and an index function."""

    __pv_symbolic__ = True
    __hash__ = None

    def __init__(self, n, get, kind="iter"):
        self.n = n
        self.get = get
        self.kind = kind

    def __len__(self):
        raise Unsupported("native len() of a symbolic sequence")

    def __iter__(self):
        """Iteration outside a rewritten loop (e.g. inside C code)."""
        return iter_bounded(self)

    def __bool__(self):
        return bool(SInt(zi(self.n)) > 0)


def iter_bounded(it):
    """Unroll a symbolic iterable up to the engine's bound."""
    e = eng()
    k = 0
    while True:
        if not bool(SInt(zi(it.n)) > k):
            return
        if e.unroll is None:
            raise Unsupported("symbolic-length iteration without a loop contract")
        if k >= e.unroll:
            e.bounded = True
            from .sym import PathEnd

            raise PathEnd
        e.bounded = True
        yield it.get(SInt(z3.IntVal(k)) if False else k)
        k += 1


class SymRange(SymIterable):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        n = range_len(start, stop, step)
        super().__init__(n, lambda k: start + k * step, "range")

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        n = SInt(zi(self.n))
        if bool(Or(n <= i, i < -n)):
            raise IndexError("range object index out of range")
        i = Ite(i < 0, i + n, i) if not isinstance(i, int) else (i if i >= 0 else i + n)
        return self.get(i)

    def __contains__(self, x):
        if not _intlike(x):
            raise Unsupported("membership of a non-integer in a range")
        if isinstance(self.step, int) and self.step == 1:
            return bool(And(x >= self.start, x < self.stop))
        raise Unsupported("membership in a stepped symbolic range")


def range_len(start, stop, step):
    """len(range(start, stop, step)) as SInt (forks on the sign of step)."""
    step_ = SInt(zi(step))
    if bool(step_ == 0):
        raise ValueError("range() arg 3 must not be zero")
    if bool(step_ > 0):
        d = SInt(zi(stop)) - start
        if isinstance(step, int) and step == 1:
            return Ite(d > 0, d, 0)
        if bool(d <= 0):
            return SInt(z3.IntVal(0))
        return (d - 1) // step + 1
    d = SInt(zi(start)) - stop
    if bool(d <= 0):
        return SInt(z3.IntVal(0))
    return (d - 1) // (-step_) + 1


class SSeq(SymIterable):
    """A list/tuple of symbolic length (functional contents, mutable cell)."""

    def __init__(self, n, get, pytype=list):
        super().__init__(n, get, "seq")
        self.pytype = pytype

    @staticmethod
    def of(lst):
        lst = list(lst)

        def get(k):
            if isinstance(k, int):
                return lst[k]
            r = lst[-1]
            for i in range(len(lst) - 2, -1, -1):
                r = Ite(k == i, lst[i], r)
            return r

        return SSeq(len(lst), get)

    def append(self, x):
        n, g = self.n, self.get

        def get(k):
            c = SInt(zi(k)) == n
            z = z3.simplify(c.z)
            if z3.is_true(z):
                return x
            if z3.is_false(z):
                return g(k)
            return Ite(c, x, g(k))

        self.get = get
        self.n = n + 1

    def __getitem__(self, i):
        n = SInt(zi(self.n))
        if isinstance(i, slice):
            a, b, c = slice_indices(i, n)
            m = range_len(a, b, c)
            g = self.get
            return SSeq(m, lambda k: g(a + k * c), self.pytype)
        if not _intlike(i):
            raise TypeError("list indices must be integers or slices")
        i = SInt(zi(i))
        if bool(Or(i >= n, i < -n)):
            raise IndexError("list index out of range")
        j = i + n if bool(i < 0) else i
        return self.get(j)

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            raise Unsupported("slice assignment to symbolic list")
        n = SInt(zi(self.n))
        i = SInt(zi(i))
        if bool(Or(i >= n, i < -n)):
            raise IndexError("list assignment index out of range")
        j = i + n if bool(i < 0) else i
        g = self.get
        self.get = lambda k: Ite(SInt(zi(k)) == j, x, g(k))

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = SSeq.of(o) if o else None
            if o is None:
                return SSeq(self.n, self.get, self.pytype)
        n1, g1, g2 = SInt(zi(self.n)), self.get, o.get
        return SSeq(n1 + o.n, lambda k: Ite(SInt(zi(k)) < n1, g1(k), g2(k - n1)), self.pytype)

    def __radd__(self, o):
        return SSeq.of(o) + self if o else SSeq(self.n, self.get, self.pytype)

    def copy(self):
        return SSeq(self.n, self.get, self.pytype)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic lists")


def repeat(o, n):
    o = list(o)
    if len(o) != 1:
        raise Unsupported("repetition of a list by a symbolic count")
    return SSeq(Ite(n > 0, n, 0), lambda k: o[0])


def slice_indices(s, n):
    """slice.indices for possibly symbolic members (CPython's PySlice_AdjustIndices)."""
    if all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)) and isinstance(n, int):
        return s.indices(n)
    n = SInt(zi(n))
    step = 1 if s.step is None else s.step
    if bool(SInt(zi(step)) == 0):
        raise ValueError("slice step cannot be zero")
    if bool(SInt(zi(step)) > 0):
        lo, hi = SInt(z3.IntVal(0)), n
        d0, d1 = lo, n
    else:
        lo, hi = SInt(z3.IntVal(-1)), n - 1
        d0, d1 = n - 1, lo

    def adj(v, d):
        if v is None:
            return d
        v = SInt(zi(v))
        if bool(v < 0):
            v = v + n
            if bool(v < lo):
                return lo
            return v
        if bool(v > hi):
            return hi
        return v

    return adj(s.start, d0), adj(s.stop, d1), step

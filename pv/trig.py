"""Elementary real functions as uninterpreted functions with the identities the contracts use.

sin and cos of  u + k*pi/2  are reduced to those of u; every sin(u), cos(u) comes with Pythagoras.
The inverse functions return a fresh angle described by its definition and range.  A counterexample
may be an artefact of identities that are not listed, so proofs over these functions are declared
abstract: what they refute counts only when it is reproduced on the real code.
"""

from __future__ import annotations

import math
from fractions import Fraction

import z3

from .sym import SReal, eng, zr

R = z3.RealSort()
SIN, COS = z3.Function("sin", R, R), z3.Function("cos", R, R)
PI = z3.RealVal(str(Fraction(math.pi)))
HALF = Fraction(math.pi) / 2


def _resolve(t):
    """Without the case distinctions the path condition decides."""
    e = eng()
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if e._check(z3.Not(c)) == z3.unsat:
            return _resolve(a)
        if e._check(c) == z3.unsat:
            return _resolve(b)
        return t
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t) or z3.is_div(t):
        ch = [_resolve(x) for x in t.children()]
        return t.decl()(*ch) if len(ch) == 2 else z3.Sum(ch) if z3.is_add(t) else z3.Product(ch) if z3.is_mul(t) else t
    return t


def _shift(t):
    """t = u + k*pi/2 with the constant part taken out when it is a multiple of pi/2."""
    t = z3.simplify(_resolve(t), som=True)
    parts = list(t.children()) if z3.is_add(t) else [t]
    const, rest = Fraction(0), []
    for p in parts:
        if z3.is_rational_value(p):
            const += Fraction(p.numerator_as_long(), p.denominator_as_long())
        else:
            rest.append(p)
    k = round(const / HALF)
    if abs(const - k * HALF) > Fraction(1, 10**12):
        return t, 0
    return (z3.simplify(z3.Sum(rest), som=True) if rest else z3.RealVal(0)), k % 4


def _sc(u):
    e = eng()
    u = z3.simplify(u, som=True)
    if z3.is_rational_value(u) and u.numerator_as_long() == 0:
        return z3.RealVal(0), z3.RealVal(1)
    # an odd/even function of the sign: reduce  -v  to v
    neg = z3.simplify(-u, som=True)
    if (len(str(neg)), str(neg)) < (len(str(u)), str(u)):
        s, c = _sc(neg)
        return -s, c
    s, c = SIN(u), COS(u)
    e.add(s * s + c * c == 1)
    e.add(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
    return s, c


def sincos(x):
    u, k = _shift(zr(x))
    s, c = _sc(u)
    return [(s, c), (c, -s), (-s, -c), (-c, s)][k]


def sin(x):
    return SReal(sincos(x)[0])


def cos(x):
    return SReal(sincos(x)[1])


def sqrt(x):
    e = eng()
    z = z3.simplify(zr(x), som=True)
    e.prove("root-of-a-non-negative-number", z >= 0)
    e.add(z >= 0)
    key = ("sqrt", z.get_id())
    memo = _memo(e)
    if key not in memo:
        r = e.fresh("root", "real")
        e.add(z3.And(r >= 0, r * r == z))
        memo[key] = (r, z)
    return SReal(memo[key][0])


def _memo(e):
    m = getattr(e, "_trig", None)
    if m is None or m[0] != e.paths:
        m = e._trig = (e.paths, {})
    return m[1]


def hypot(x, y):
    return sqrt(SReal(zr(x) * zr(x) + zr(y) * zr(y)))


def _angle(name, key, lo, hi, facts, sign=None):
    e = eng()
    memo = _memo(e)
    k = (name, *[z3.simplify(t, som=True).get_id() for t in key])
    if k not in memo:
        for k2, (a, key2) in list(memo.items()):
            if k2[0] == name and e._check(z3.Or(*[p != q for p, q in zip(key, key2)])) == z3.unsat:
                memo[k] = (a, key)
                return SReal(a)
        a = e.fresh(name, "real")
        e.add(z3.And(lo <= a, a <= hi))
        s, c = _sc(a)
        e.add(facts(s, c))
        if sign is not None:
            e.add(z3.And((sign >= 0) == (a >= 0), (sign <= 0) == (a <= 0)))
        memo[k] = (a, key)
    return SReal(memo[k][0])


def arctan2(y, x):
    y, x = zr(y), zr(x)
    h = sqrt(SReal(x * x + y * y)).z
    return _angle("atan2", (y, x), -PI, PI, lambda s, c: z3.And(h * c == x, h * s == y))


def arccos(x):
    x = _resolve(zr(x))
    eng().prove("arccos-argument", z3.And(x >= -1, x <= 1))
    return _angle("acos", (x,), z3.RealVal(0), PI, lambda s, c: z3.And(c == x, s >= 0))


def arcsin(x):
    x = _resolve(zr(x))
    eng().prove("arcsin-argument", z3.And(x >= -1, x <= 1))
    return _angle("asin", (x,), -PI / 2, PI / 2, lambda s, c: z3.And(s == x, c >= 0), sign=x)


FUNCS = {"sin": sin, "cos": cos, "sqrt": sqrt, "hypot": hypot, "arctan2": arctan2, "arccos": arccos, "arcsin": arcsin,
         "square": lambda x: x * x}

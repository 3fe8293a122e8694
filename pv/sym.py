"""Symbolic values and path exploration.

The verifier runs the *real* functions of /repo under CPython.  Inputs are
symbolic proxies (SInt, SReal, SBool, SVal ...) that carry z3 terms; every
branch on a symbolic condition forks the execution; every obligation is a z3
validity query under the path condition.  Nothing here is specific to caput.
"""

from __future__ import annotations

import subprocess
import tempfile
import time
import os
import numbers as _numbers

import z3


class EngineSignal(BaseException):
    """Base of control-flow signals of the verifier (never caught by /repo code)."""


class PathEnd(EngineSignal):
    """The current path is finished (infeasible or cut at a loop back edge)."""


class Unsupported(EngineSignal):
    """The code uses a construct the verifier has no semantics for."""


class Budget(EngineSignal):
    """Time or path budget exhausted."""


class Engine:
    """One symbolic exploration."""

    def __init__(self, timeout_ms=20000, max_paths=4000, budget_s=300.0, unroll=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.unroll = unroll  # bound for unannotated symbolic loops (None: Unsupported)
        self.obligations = {}  # name -> dict(status, ...)
        self.assumed = set()
        self.functions = set()
        self.bounded = False
        self.solver_s = 0.0
        self.paths = 0
        self.backends = {}
        self.loop_contracts = {}
        self.covers = {}
        self.stopped = None
        self._reset_path()

    # -- paths --------------------------------------------------------------
    def _reset_path(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.pc = []
        self.trail = []
        self.prefix = []
        self.pos = 0
        self.fresh_n = 0
        self.ghost = {}
        self.inputs = {}
        self.known = {}

    def explore(self, fn):
        """Run ``fn()`` on every feasible path."""
        global ENGINE
        work = [[]]
        saved = ENGINE
        ENGINE = self
        try:
            while work:
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    raise Budget(f"{self.paths} paths")
                prefix = work.pop()
                self._reset_path()
                self.prefix = list(prefix)
                self.work = work
                self.paths += 1
                try:
                    fn()
                    self.cover("path-end")
                except PathEnd:
                    pass
        finally:
            ENGINE = saved

    def fresh(self, base, sort="int"):
        self.fresh_n += 1
        n = f"{base}!{self.fresh_n}"
        if sort == "int":
            return z3.Int(n)
        if sort == "bool":
            return z3.Bool(n)
        if sort == "real":
            return z3.Real(n)
        return z3.Const(n, sort)

    def add(self, c):
        self.pc.append(c)
        if not _has_quant(c):  # feasibility checks work on the quantifier-free part
            self.solver.add(c)

    def _check(self, *extra):
        if time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    def fork(self, cond):
        """Decide a symbolic condition, forking when both sides are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.known:
            return self.known[key][1]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self._check(cond) != z3.unsat
            f = self._check(z3.Not(cond)) != z3.unsat
            if not t and not f:
                raise PathEnd
            if t and f:
                d = True
                self.work.append([*self.trail, False])
                if len(self.trail) > 400:
                    raise Budget("path too deep")
            else:
                d = t
        self.pos += 1
        self.trail.append(d)
        c = cond if d else z3.Not(cond)
        self.known[key] = (cond, d)
        self.add(c)
        return d

    def choose(self, n, tag="choice"):
        """Nondeterministic choice among n alternatives (each explored)."""
        for i in range(n - 1):
            if self.fork(self.fresh(f"{tag}_{i}", "bool")):
                return i
        return n - 1

    def assume(self, cond, why=None):
        cond = zb(cond)
        if why:
            self.assumed.add(why)
        self.add(cond)
        if z3.is_false(z3.simplify(cond)):
            raise PathEnd

    def feasible(self):
        return self._check() != z3.unsat

    # -- obligations ----------------------------------------------------------
    def cover(self, name):
        """Reachability witness for vacuity control."""
        if self.covers.get(name):
            return
        self.covers[name] = self._check() == z3.sat

    def prove(self, name, cond, facts=None):
        """Discharge ``pc |- cond``; records the outcome under ``name``.

        facts: use only these hypotheses (each one a fact of the path, or none for a lemma).
        """
        ob = self.obligations.setdefault(
            name, {"status": "proved", "queries": 0, "backends": {}, "solver_s": 0.0}
        )
        ob["queries"] += 1
        cond = z3.simplify(zb(cond))
        t = time.time()
        if z3.is_true(cond):
            res, backend, model = "proved", "simplifier", None
        elif ob.get("misses", 0) >= 2:
            # undecided twice already: it will not count as proved, do not spend more time on it
            res, backend, model = "unknown", "skipped", None
        else:
            res, backend, model = self._discharge(cond, facts)
        dt = time.time() - t
        self.solver_s += dt
        ob["solver_s"] += dt
        ob["backends"][backend] = ob["backends"].get(backend, 0) + 1
        self.backends[backend] = self.backends.get(backend, 0) + 1
        if res == "proved":
            return True
        if res == "refuted":
            if ob["status"] != "refuted":
                ob["status"] = "refuted"
                ob["model"] = self._render(model)
                ob["formula"] = str(cond)[:1500]
        else:
            ob["misses"] = ob.get("misses", 0) + 1
            if ob["status"] == "proved":
                ob["status"] = "unknown"
                ob["formula"] = str(cond)[:1500]
        return False

    def fail(self, name, detail=""):
        """An obligation that is violated outright on this (feasible) path."""
        ob = self.obligations.setdefault(
            name, {"status": "proved", "queries": 0, "backends": {}, "solver_s": 0.0}
        )
        ob["queries"] += 1
        r = self._check()
        model = self.solver.model() if r == z3.sat else None
        if r == z3.sat and any(_has_quant(c) for c in self.pc):
            res, _, model = self._discharge(z3.BoolVal(False))
            r = {"proved": z3.unsat, "refuted": z3.sat}.get(res, z3.unknown)
        if r == z3.unsat:
            raise PathEnd
        if r == z3.sat:
            if ob["status"] != "refuted":
                ob["status"] = "refuted"
                ob["model"] = self._render(model)
                ob["formula"] = detail[:1500]
        elif ob["status"] == "proved":
            ob["status"] = "unknown"
            ob["formula"] = detail[:1500]
        raise PathEnd

    def _render(self, model):
        out = {}
        if model is None:
            return out
        for name, term in self.inputs.items():
            try:
                out[name] = _concrete(model, term)
            except Exception as e:  # noqa: BLE001
                out[name] = f"<{e}>"
        return out

    def _discharge(self, cond, facts=None):
        if facts is not None:
            facts = [zb(c) for c in facts]
        pc = self.pc if facts is None else facts
        neg = z3.Not(cond)
        left = max(1.0, self.deadline - time.time())
        tmo = int(min(self.timeout_ms, left * 1000))
        s = z3.Solver()
        s.set("timeout", max(1000, tmo // 3))
        for c in pc:
            s.add(c)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return ("refuted", "z3", s.model()) if facts is None else ("unknown", "z3", None)
        # non-linear problems: try the nlsat-flavoured configuration, then cvc5
        for tac in ("qfnia", "smt2"):
            try:
                if tac == "qfnia":
                    s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
                else:
                    s2 = z3.SimpleSolver()
                    s2.set("arith.solver", 2)
                s2.set("timeout", max(1000, tmo // 3))
                for c in pc:
                    s2.add(c)
                s2.add(neg)
                r = s2.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return "proved", "z3:" + tac, None
            if r == z3.sat:
                return ("refuted", "z3:" + tac, s2.model()) if facts is None else ("unknown", "z3:" + tac, None)
        r = _cvc5(s, max(2, tmo // 3000))
        if r == "unsat":
            return "proved", "cvc5", None
        if r == "sat":
            # cvc5 says there is a counterexample but we only use its verdict
            return "unknown", "cvc5", None
        return "unknown", "none", None


ENGINE: Engine | None = None


def eng() -> Engine:
    if ENGINE is None:
        raise RuntimeError("no active symbolic exploration")
    return ENGINE


def _has_quant(c):
    seen = set()
    todo = [c]
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            return True
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(t.children())
    return False


def _cvc5(solver, secs):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + solver.to_smt2())
            name = f.name
        try:
            p = subprocess.run(
                ["cvc5", f"--tlimit={secs * 1000}", "--nl-ext-tplanes", name],
                capture_output=True,
                text=True,
                timeout=secs + 5,
            )
            return p.stdout.strip().split("\n")[0]
        finally:
            os.unlink(name)
    except Exception:  # noqa: BLE001
        return "error"


def _concrete(model, term):
    if isinstance(term, (list, tuple)):
        return [_concrete(model, t) for t in term]
    if isinstance(term, dict):
        return {k: _concrete(model, t) for k, t in term.items()}
    if isinstance(term, (SInt, SBool, SReal, SVal, SStr)):
        term = term.z
    if isinstance(term, slice):
        return {"slice": [_concrete(model, t) for t in (term.start, term.stop, term.step)]}
    if not isinstance(term, z3.ExprRef):
        return term
    v = model.eval(term, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_string_value(v):
        return v.as_string()
    return str(v)


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
def zi(x):
    """z3 integer term of x."""
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, _numbers.Integral):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer term: {type(x).__name__}")


def zr(x):
    """z3 real term of x."""
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(zi(x))
    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, (int, _numbers.Integral)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        from fractions import Fraction

        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in real arithmetic")
        fr = Fraction(x)
        return z3.Q(fr.numerator, fr.denominator)
    raise Unsupported(f"not a real term: {type(x).__name__}")


def zb(x):
    """z3 boolean term of x."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool,)) or type(x).__name__ == "bool_":
        return z3.BoolVal(bool(x))
    raise Unsupported(f"not a boolean term: {type(x).__name__}")


def is_sym(x):
    return isinstance(x, (SInt, SBool, SReal, SVal, SStr)) or getattr(
        x, "__pv_symbolic__", False
    )


def _intlike(x):
    return isinstance(x, (int, SInt, SBool, _numbers.Integral))


def _numlike(x):
    return _intlike(x) or isinstance(x, (float, SReal))


class SBool:
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return eng().fork(self.z)

    def _b(self, o, f):
        if isinstance(o, (bool, SBool)) or type(o).__name__ == "bool_":
            return SBool(f(self.z, zb(o)))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z == zb(o))
        if _intlike(o):
            return SBool(zi(self) == zi(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __add__(self, o):
        return SInt(zi(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SInt(zi(self)) - o

    def __rsub__(self, o):
        return o - SInt(zi(self))

    def __mul__(self, o):
        return SInt(zi(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"<SBool {self.z}>"


def _divmod_terms(a, b):
    """Floor quotient and remainder of z3 ints, b != 0 known; introduces q, r."""
    e = eng()
    if z3.is_int_value(z3.simplify(b)):
        bv = z3.simplify(b)
        if bv.as_long() > 0:
            return a / bv, a % bv
        nb = z3.IntVal(-bv.as_long())
        q = (-a) / nb
        return q, a - q * bv
    cache = e.ghost.setdefault("__divmod", {})
    key = (z3.simplify(a).get_id(), z3.simplify(b).get_id())
    if key in cache:
        return cache[key][2:]
    for a2, b2, q2, r2 in list(cache.values()):
        if e._check(z3.Or(a != a2, b != b2)) == z3.unsat:
            cache[key] = (a, b, q2, r2)
            return q2, r2
    if e._check(z3.Not(z3.And(b > 0, a >= -b, a < 2 * b))) == z3.unsat:
        # the quotient is -1, 0 or 1: linear closed form
        q = z3.If(a < 0, z3.IntVal(-1), z3.If(a < b, z3.IntVal(0), z3.IntVal(1)))
        r = z3.If(a < 0, a + b, z3.If(a < b, a, a - b))
        cache[key] = (a, b, q, r)
        return q, r
    q, r = e.fresh("q"), e.fresh("r")
    e.add(a == q * b + r)
    if e.fork(b > 0):
        e.add(z3.And(r >= 0, r < b))
    else:
        e.add(z3.And(r <= 0, r > b))
    cache[key] = (a, b, q, r)
    return q, r


class SInt:
    __slots__ = ("z",)
    __hash__ = None
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    # arithmetic
    def _n(self, o, f, rev=False):
        if _intlike(o):
            a, b = (zi(o), self.z) if rev else (self.z, zi(o))
            return SInt(f(a, b))
        if isinstance(o, (float, SReal)):
            a, b = (zr(o), zr(self)) if rev else (zr(self), zr(o))
            return SReal(f(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._n(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._n(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._n(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._n(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            from . import seq

            return seq.repeat(o, self)
        return self._n(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            from . import seq

            return seq.repeat(o, self)
        return self._n(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return SReal(zr(self)).__truediv__(o)

    def __rtruediv__(self, o):
        return SReal(zr(o)).__truediv__(self)

    def _dm(self, o, rev):
        if not _intlike(o):
            return None
        a, b = (zi(o), self.z) if rev else (self.z, zi(o))
        if eng().fork(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return _divmod_terms(a, b)

    def __floordiv__(self, o):
        r = self._dm(o, False)
        return NotImplemented if r is None else SInt(r[0])

    def __rfloordiv__(self, o):
        r = self._dm(o, True)
        return NotImplemented if r is None else SInt(r[0])

    def __mod__(self, o):
        r = self._dm(o, False)
        return NotImplemented if r is None else SInt(r[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o.replace("%i", "{}").replace("%d", "{}").replace("%s", "{}").format(self)
        r = self._dm(o, True)
        return NotImplemented if r is None else SInt(r[1])

    def __divmod__(self, o):
        r = self._dm(o, False)
        return NotImplemented if r is None else (SInt(r[0]), SInt(r[1]))

    def __rdivmod__(self, o):
        r = self._dm(o, True)
        return NotImplemented if r is None else (SInt(r[0]), SInt(r[1]))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = SInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __neg__(self):
        return SInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.z >= 0, self.z, -self.z))

    # comparison
    def _c(self, o, f):
        if _intlike(o):
            return SBool(f(self.z, zi(o)))
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return f(0, 1) if o > 0 else f(1, 0)
        if isinstance(o, (float, SReal)):
            return SBool(f(zr(self), zr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().fork(self.z != 0)

    def __index__(self):
        v = z3.simplify(self.z)
        if z3.is_int_value(v):
            return v.as_long()
        c = concretise(self)
        if c is None:
            raise Unsupported("symbolic integer used where CPython needs a concrete one")
        return c

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f"<{self.z}>"

    def __format__(self, spec):
        return repr(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, dt):
        return self

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(int)

    real = property(lambda self: self)


def concretise(x):
    """The only value x can take on this path, or None."""
    e = eng()
    if e._check() != z3.sat:
        return None
    v = e.solver.model().eval(x.z, model_completion=True)
    if e._check(x.z != v) == z3.unsat:
        return v.as_long()
    return None


class SReal:
    """A mathematical real standing for a float (machine rounding not modelled)."""

    __slots__ = ("z",)
    __hash__ = None
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def _n(self, o, f, rev=False):
        if not _numlike(o):
            return NotImplemented
        a, b = (zr(o), self.z) if rev else (self.z, zr(o))
        return SReal(f(a, b))

    def __add__(self, o):
        return self._n(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._n(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._n(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._n(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._n(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._n(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        b = zr(o)
        if eng().fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SReal(self.z / b)

    def __rtruediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        if eng().fork(self.z == 0):
            raise ZeroDivisionError("division by zero")
        return SReal(zr(o) / self.z)

    def __floordiv__(self, o):
        return SReal(z3.ToReal(z3.ToInt((self / o).z)))

    def __mod__(self, o):
        q = z3.ToReal(z3.ToInt((self / o).z))
        return SReal(self.z - q * zr(o))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return SReal(zr(o)).__mod__(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = SReal(z3.RealVal(1))
            for _ in range(o):
                r = r * self
            return r
        if o == 0.5:
            from .trig import sqrt

            return sqrt(self)
        raise Unsupported("symbolic real power")

    def __neg__(self):
        return SReal(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.z >= 0, self.z, -self.z))

    def _c(self, o, f):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return f(0, 1) if o > 0 else f(1, 0)
        if not _numlike(o):
            return NotImplemented
        return SBool(f(self.z, zr(o)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().fork(self.z != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic real in C code")

    def __int__(self):
        raise Unsupported("int() of a symbolic real in C code")

    def __repr__(self):
        return f"<{self.z}>"

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def astype(self, dt):
        return self


U = z3.DeclareSort("U")


class SVal:
    """An uninterpreted value; only identity/equality is known about it."""

    __slots__ = ("z", "tag")

    def __init__(self, z, tag=None):
        self.z = z
        self.tag = tag

    def __eq__(self, o):
        if isinstance(o, SVal):
            return SBool(self.z == o.z)
        return False

    def __ne__(self, o):
        if isinstance(o, SVal):
            return SBool(self.z != o.z)
        return True

    def __hash__(self):
        return hash(str(self.z))

    def __repr__(self):
        return f"<val {self.z}>"

    def __format__(self, spec):
        return repr(self)


class SStr:
    """A symbolic string (z3 sequence of characters)."""

    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    @staticmethod
    def t(x):
        if isinstance(x, SStr):
            return x.z
        if isinstance(x, str):
            return z3.StringVal(x)
        raise Unsupported("not a string")

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr(z3.Concat(self.z, self.t(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr(z3.Concat(self.t(o), self.z))
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self.z == self.t(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else True

    def __contains__(self, o):
        return bool(SBool(z3.Contains(self.z, self.t(o))))

    def __bool__(self):
        return eng().fork(z3.Length(self.z) > 0)

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or([z3.PrefixOf(self.t(q), self.z) for q in ps]))

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or([z3.SuffixOf(self.t(q), self.z) for q in ps]))

    def __getitem__(self, i):
        n = z3.Length(self.z)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("string slice step")

            def norm(v, d):
                if v is None:
                    return d
                v = zi(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, 0, z3.If(v > n, n, v))

            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return SStr(z3.SubString(self.z, a, z3.If(b > a, b - a, 0)))
        i = zi(i)
        if eng().fork(z3.Or(i >= n, i < -n)):
            raise IndexError("string index out of range")
        return SStr(z3.SubString(self.z, z3.If(i < 0, i + n, i), 1))

    def __repr__(self):
        return f"<str {self.z}>"

    def __format__(self, spec):
        return repr(self)


# -- constructors used by contracts ---------------------------------------
def Int(name, lo=None, hi=None):
    z = z3.Int(name)
    e = eng()
    e.inputs[name] = z
    if lo is not None:
        e.add(z >= zi(lo))
    if hi is not None:
        e.add(z <= zi(hi))
    return SInt(z)


def Bool(name):
    z = z3.Bool(name)
    eng().inputs[name] = z
    return SBool(z)


def Real(name):
    z = z3.Real(name)
    eng().inputs[name] = z
    return SReal(z)


def Val(name):
    return SVal(z3.Const(name, U))


def Str(name):
    z = z3.String(name)
    eng().inputs[name] = z
    return SStr(z)


def OptInt(name, **kw):
    """None or an arbitrary integer."""
    e = eng()
    b = z3.Bool(name + "_is_none")
    e.inputs[name + "_is_none"] = b
    if e.fork(b):
        return None
    return Int(name, **kw)


def And(*a):
    return SBool(z3.And([zb(x) for x in a])) if a else SBool(z3.BoolVal(True))


def Or(*a):
    return SBool(z3.Or([zb(x) for x in a])) if a else SBool(z3.BoolVal(False))


def Not(a):
    return SBool(z3.Not(zb(a)))


def Implies(a, b):
    return SBool(z3.Implies(zb(a), zb(b)))


def Iff(a, b):
    return SBool(zb(a) == zb(b))


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = zb(c)
    if _intlike(a) and _intlike(b):
        return SInt(z3.If(c, zi(a), zi(b)))
    if _numlike(a) and _numlike(b):
        return SReal(z3.If(c, zr(a), zr(b)))
    if isinstance(a, SVal) and isinstance(b, SVal):
        return SVal(z3.If(c, a.z, b.z))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return SStr(z3.If(c, SStr.t(a), SStr.t(b)))
    if a is b:
        return a
    raise Unsupported(f"If over {type(a).__name__} and {type(b).__name__}")


def ForAllInt(f, name="j"):
    """Quantified formula over one integer; f maps SInt -> SBool."""
    e = eng()
    j = e.fresh(name)
    return SBool(z3.ForAll([j], zb(f(SInt(j)))))

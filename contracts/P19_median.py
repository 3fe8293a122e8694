"""Weighted medians and quantiles match their definition, in every window."""

from pv.api import *

EXTS = ("median",)
LEVEL = "proof"
PYX = "caput/algorithms/median/weighted.pyx"
M = "caput.algorithms.median.pv_weighted"
ASSUMPTIONS = [
    "C integers and doubles are read as mathematical integers and reals: sums of weights are exact, no overflow",
    "weights are not negative, data and weights are not NaN",
    "Tree<T> (MedianTree.hpp, C++ with shared_ptr) is assumed to be a multiset with insert/remove/size and the weighted median of its content; it is only evaluated at run time (exhaustively on small windows, randomly on large ones)",
    "an OpenMP loop is read as a sequential loop: iterations only share what the loop does not write",
]
RULE = "exact rational oracle; exhaustive small windows over few values and weights, random larger ones with many ties, duplicates and zero weights, in one and two dimensions; all element types, layouts and methods"


def code(e):
    import os
    import sys

    import caput
    from pv import pyx

    if M not in sys.modules:
        root = os.path.dirname(os.path.dirname(caput.__file__))
        pyx.module(root, PYX, "pv_weighted", cpp=("Tree", "deque", "shared_ptr", "Data", "_quickselect"), casts=("data_t",))
    return sys.modules[M]


# ---------------------------------------------------------------- quickselect, any length
class G:
    """Ghost state of one call: the arrays as they are now, the arrangement (a permutation with its
    inverse) that led from the original arrays to them, and the prefix sums of the weights."""

    cur = None

    def __init__(self, e, n):
        self.e, self.n = e, n
        R, I = z3.RealSort(), z3.IntSort()
        self.A0, self.W0 = z3.Function("A0", I, R), z3.Function("W0", I, R)
        self.fresh_n = 0
        self.logA, self.logW = [], []
        self.last, self.tie = {}, {}
        self.A, self.W = self.A0, self.W0
        self.pi = self.rho = lambda k: k
        P = self.fn("P", R)
        self.P = P
        e.add(P(0) == 0)
        if z3.is_int_value(n):
            for k in range(n.as_long()):
                e.add(z3.And(P(k + 1) == P(k) + self.W0(k), self.W0(k) >= 0))
        else:
            k = z3.Int("k")
            e.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), P(k + 1) == P(k) + self.W0(k)), patterns=[P(k + 1)]))
            e.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), self.W0(k) >= 0), patterns=[self.W0(k)]))
        self.T = P(n)
        self.lb, self.hb = z3.Real("lb"), z3.Real("hb")
        self.head = None

    def fn(self, name, sort):
        self.fresh_n += 1
        return z3.Function(f"{name}_{self.fresh_n}", z3.IntSort(), sort)

    def havoc(self):
        R, I = z3.RealSort(), z3.IntSort()
        self.A, self.W, self.P = self.fn("A", R), self.fn("W", R), self.fn("P", R)
        self.pi, self.rho = self.fn("pi", I), self.fn("rho", I)
        self.logA, self.logW = [], []

    def sync(self):
        """Ghost code: follow an exchange of two elements."""
        if not self.logA and not self.logW:
            return
        if len(self.logA) != 2 or len(self.logW) != 2:
            raise TypeError("stores that are not an exchange")
        (a, _), (b, _) = self.logA
        A, W, P, pi, rho = self.A, self.W, self.P, self.pi, self.rho
        la, lw = list(self.logA), list(self.logW)

        def upd(f, log):
            def g(k):
                r = f(k)
                for i, v in log:
                    r = z3.If(k == i, v, r)
                return r

            return g

        self.A, self.W = upd(A, la), upd(W, lw)
        pa, pb = pi(a), pi(b)
        self.pi = lambda k: z3.If(k == a, pb, z3.If(k == b, pa, pi(k)))
        self.rho = lambda k: z3.If(k == pb, a, z3.If(k == pa, b, rho(k)))
        d = W(b) - W(a)
        self.P = lambda k: P(k) + z3.If(z3.And(a < k, k <= b), d, 0) - z3.If(z3.And(b < k, k <= a), d, 0)
        self.logA, self.logW = [], []

    def read(self, which, k):
        f, log = (self.A, self.logA) if which == "A" else (self.W, self.logW)
        r = f(k)
        for i, v in log:
            r = z3.If(k == i, v, r)
        return SReal(r)

    # one-variable facts
    def all(self, lo, hi, f, pat=None):
        k = z3.Int("k")
        return SBool(z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), f(k))))

    def arrangement(self):
        n, A, W, P, pi, rho = self.n, self.A, self.W, self.P, self.pi, self.rho
        return [
            ("arrangement:indices", self.all(0, n, lambda k: z3.And(0 <= pi(k), pi(k) < n))),
            ("arrangement:injective", self.all(0, n, lambda k: rho(pi(k)) == k)),
            ("arrangement:data", self.all(0, n, lambda k: A(k) == self.A0(pi(k)))),
            ("arrangement:weights", self.all(0, n, lambda k: z3.And(W(k) == self.W0(pi(k)), W(k) >= 0))),
            ("prefix-sums", z3.And(P(z3.IntVal(0)) == 0, P(n) == self.T)),
            ("prefix-sums:step", self.all(0, n, lambda k: P(k + 1) == P(k) + W(k))),
        ]

    def outer(self, i, j, lb, hb):
        n, A = self.n, self.A
        return [
            ("range", z3.And(0 <= i, i < j, j < n)),
            ("weight-before", z3.Or(i == 0, self.P(i) < self.qs0)),
            ("weight-through", z3.Or(j == n - 1, self.qs0 < self.P(j + 1))),
            ("smaller-left", z3.Or(i == 0, zb(And(self.all(0, i, lambda k: A(k) <= lb), self.all(i, n, lambda k: A(k) >= lb))))),
            ("larger-right", z3.Or(j == n - 1, zb(And(self.all(0, j + 1, lambda k: A(k) <= hb), self.all(j + 1, n, lambda k: A(k) >= hb))))),
        ]


class View:
    __pv_symbolic__ = True

    def __init__(self, g, which):
        self.g, self.which = g, which

    def __pv_len__(self):
        return SInt(self.g.n)

    def __len__(self):
        raise TypeError

    @property
    def shape(self):
        return (SInt(self.g.n),)

    def at(self, k):
        k = zi(k)
        eng().prove("in-bounds", z3.And(0 <= k, k < self.g.n))
        return k

    def __getitem__(self, k):
        self.g.last[self.which] = zi(k)
        return self.g.read(self.which, self.at(k))

    def __setitem__(self, k, v):
        (self.g.logA if self.which == "A" else self.g.logW).append((self.at(k), zr(v)))


def L_(L, *names):
    """Terms of the named locals."""
    out = []
    for n in names:
        v = L[n]
        if n in ("i", "j", "ii", "jj"):
            out.append(zi(v))
        else:
            out.append(zr(v))
    return out


def hv(name, old, L):
    if name in ("i", "j", "ii", "jj"):
        return SInt(eng().fresh(name))
    if name in ("weights_left", "qs", "pivot"):
        return SReal(eng().fresh(name, "real"))
    return NotImplemented


def inv_outer(L):
    g = G.cur
    g.sync()
    i, j, qs = L_(L, "i", "j", "qs")
    lb, hb, out = g.lb, g.hb, []
    if L["__phase"] == "step":
        hi, hj = g.head
        piv = zr(L["pivot"])
        lb, hb = z3.If(i == hi, lb, piv), z3.If(j == hj, hb, piv)
        out.append(("progress", j - i < hj - hi))
    return g.arrangement() + g.outer(i, j, lb, hb) + [("target", qs + g.P(i) == g.qs0)] + out


def heap_outer(L):
    g = G.cur
    g.havoc()
    g.lb, g.hb = g.e.fresh("lb", "real"), g.e.fresh("hb", "real")
    g.head = tuple(L_(L, "i", "j"))


def inv_inner(level):
    def inv(L):
        g = G.cur
        g.sync()
        i, j, qs, ii, jj, piv, wl = L_(L, "i", "j", "qs", "ii", "jj", "pivot", "weights_left")
        if level == 2 and L["__phase"] == "entry":
            g.pidx = g.last["A"]  # where the pivot was read: it stops the first scans
        A, P, p = g.A, g.P, g.pidx
        out = g.arrangement() + g.outer(i, j, g.lb, g.hb) + [("target", qs + g.P(i) == g.qs0)]
        first = z3.And(i <= ii, ii <= p, p <= jj, jj <= j, i <= p, p < j, A(p) == piv)
        if level < 4:
            first = z3.And(first, jj == j)
        if level < 3:
            first = z3.And(first, ii == i)
        later = z3.And(ii > i, jj < j, jj >= ii - 1)
        out += [
            ("left-not-larger", g.all(i, ii, lambda k: A(k) <= piv)),
            ("right-not-smaller", g.all(jj + 1, j + 1, lambda k: A(k) >= piv)),
            ("weights-left", wl == P(ii) - P(i)),
            ("pointers", z3.Or(first, later)),
        ]
        if level == 4:
            out.append(("stopped-left", A(ii) >= piv))
        return out

    return inv


def heap_inner(L):
    G.cur.havoc()


def nz_spec(A, W, c, i, j, g, kind):
    """cur is the best of the elements with weight, or of all when none has weight."""
    better = (lambda k: A(k) <= A(c)) if kind == "max" else (lambda k: A(k) >= A(c))
    return z3.And(i <= c, c <= j, zb(g.all(i, j + 1, lambda k: z3.If(W(c) > 0, z3.Implies(W(k) > 0, better(k)), z3.And(W(k) == 0, better(k))))))


def nz_stub(kind):
    def stub(d, w, i, j):
        g = G.cur
        e = eng()
        g.sync()
        i, j = zi(i), zi(j)
        e.prove(f"{kind}:called-in-range", z3.And(0 <= i, i <= j, j < g.n))
        c = e.fresh("c")
        e.add(nz_spec(g.A, g.W, c, i, j, g, kind))
        g.tie[kind] = (c, i, j)
        return SInt(c)

    return stub


LOOPS = {
    f"{M}:_quickselect_weight#1": LoopContract(inv_outer, hv, heap_outer),
    f"{M}:_quickselect_weight#2": LoopContract(inv_inner(2), hv, heap_inner),
    f"{M}:_quickselect_weight#3": LoopContract(inv_inner(3), hv, None),
    f"{M}:_quickselect_weight#4": LoopContract(inv_inner(4), hv, None),
}


def small(e, m, g, n, qs, method):
    """Without loop invariants: a few elements, arbitrary values."""
    a0 = [SReal(g.A0(z3.IntVal(k))) for k in range(n)]
    w0 = [SReal(g.W0(z3.IntVal(k))) for k in range(n)]
    r = m._quickselect_weight(list(a0), list(w0), qs, method)
    e.cover("path-end")
    e.prove("definition", zr(r) == spec(a0, w0, qs.z, method))


def spec(a, w, qs, method):
    """The definition, for a list of elements."""
    n = len(a)
    upto = [z3.Sum([z3.If(zr(a[m]) <= zr(a[k]), zr(w[m]), 0) for m in range(n)]) for k in range(n)]
    below = [z3.Sum([z3.If(zr(a[m]) < zr(a[k]), zr(w[m]), 0) for m in range(n)]) for k in range(n)]
    T = z3.Sum([zr(x) for x in w])

    def pick(conds, better):
        has, v = z3.BoolVal(False), z3.RealVal(0)
        for k in range(n):
            take = z3.And(conds[k], z3.Or(z3.Not(has), better(zr(a[k]), v)))
            v = z3.If(take, zr(a[k]), v)
            has = z3.Or(has, conds[k])
        return v

    lo = pick([z3.And(zr(w[k]) > 0, z3.Or(upto[k] >= qs)) for k in range(n)], lambda x, y: x < y)
    hi = pick([z3.And(zr(w[k]) > 0, below[k] <= qs) for k in range(n)], lambda x, y: x > y)
    return {"l": lo, "h": hi, "s": (lo + hi) / 2}[method]


def p_select(method):
    def fn(e):
        m = code(e)
        if e.mode == "unroll":
            n = 1 + e.choose(3, "n")
            g = G(e, z3.IntVal(n))
            for k in range(n):
                e.inputs[f"a{k}"], e.inputs[f"w{k}"] = g.A0(z3.IntVal(k)), g.W0(z3.IntVal(k))
            qs = Real("qs")
            e.add(z3.And(g.T > 0, qs.z >= 0, qs.z <= g.T))
            return small(e, m, g, n, qs, method)
        n = Int("n", 2).z
        g = G.cur = G(e, n)
        qs = Real("qs")
        g.qs0 = qs.z
        e.add(z3.And(g.T > 0, qs.z >= 0, qs.z <= g.T))
        saved = m._max_non_zero, m._min_non_zero
        m._max_non_zero, m._min_non_zero = nz_stub("max"), nz_stub("min")
        try:
            r = zr(m._quickselect_weight(View(g, "A"), View(g, "W"), qs, method))
        finally:
            m._max_non_zero, m._min_non_zero = saved
        g.sync()
        e.cover("path-end")
        A, W, P = g.A, g.W, g.P
        for nm, f in g.arrangement():
            e.prove("result:" + nm, f)
        if not g.tie:
            k = g.last["A"]
            e.prove("element:value", r == A(k))
            e.prove("element:weight-before-is-less", z3.And(0 <= k, k < n, z3.Or(P(k) < g.qs0, z3.And(k == 0, g.qs0 == 0), z3.And(k == 0, P(k) <= g.qs0))))
            e.prove("element:weight-through-is-more", z3.Or(g.qs0 < P(k + 1), z3.And(k == n - 1, g.qs0 <= P(k + 1))))
            e.prove("element:has-weight", W(k) > 0)
            e.prove("element:in-order", And(g.all(0, k, lambda x: A(x) <= A(k)), g.all(k, n, lambda x: A(x) >= A(k))))
            return
        (cl, li, lj), (cr, ri, rj) = g.tie["max"], g.tie["min"]
        b = lj + 1
        e.prove("tie:all-elements", z3.And(li == 0, ri == b, rj == n - 1))
        e.prove("tie:target-on-the-boundary", P(b) == g.qs0)
        x, y = e.fresh("x"), e.fresh("y")
        e.prove("tie:in-order", z3.Implies(z3.And(0 <= x, x < b, b <= y, y < n), A(x) <= A(y)))
        # sums of zeros (lemmas zero-prefix and zero-suffix)
        e.add(z3.Implies(zb(g.all(0, b, lambda k: W(k) == 0)), P(b) == 0))
        e.add(z3.Implies(zb(g.all(b, n, lambda k: W(k) == 0)), P(n) == P(b)))
        e.prove("tie:some-weight", z3.Or(W(cl) > 0, W(cr) > 0))
        wl, wr = W(cl) > 0, W(cr) > 0
        both = {"l": A(cl), "h": A(cr), "s": (A(cl) + A(cr)) / 2}[method]
        e.prove("tie:value", r == z3.If(z3.And(wl, wr), both, z3.If(wl, A(cl), A(cr))))

    return fn


def p_single(method):
    def fn(e):
        m = code(e)
        g = G.cur = G(e, z3.IntVal(1))
        qs = Real("qs")
        g.qs0 = qs.z
        e.add(z3.And(g.T == g.W0(0), g.T > 0, qs.z >= 0, qs.z <= g.T))
        e.inputs["a0"], e.inputs["w0"] = g.A0(z3.IntVal(0)), g.W0(z3.IntVal(0))
        r = zr(m._quickselect_weight(View(g, "A"), View(g, "W"), qs, method))
        e.cover("path-end")
        e.prove("single-element", r == g.A0(0))

    return fn


def p_lemma(e):
    """(all W[k] = 0 for a <= k < m) implies P[m] = P[a], by induction on m."""
    W = z3.Function("W", z3.IntSort(), z3.RealSort())
    P = z3.Function("P", z3.IntSort(), z3.RealSort())
    k = z3.Int("k")
    a, m = Int("a", 0).z, Int("m", 0).z
    e.add(z3.ForAll([k], z3.Implies(k >= 0, P(k + 1) == P(k) + W(k))))
    zero = lambda m: z3.ForAll([k], z3.Implies(z3.And(a <= k, k < m), W(k) == 0))
    claim = lambda m: z3.Implies(zero(m), P(m) == P(a))
    e.cover("path-end")
    e.prove("zero-sum:base", claim(a))
    e.add(z3.And(m >= a, claim(m)))
    e.prove("zero-sum:step", claim(m + 1))


def p_nz(kind):
    key = f"{M}:_{kind}_non_zero#1"

    def fn(e):
        m = code(e)
        if e.mode == "unroll":
            n = 1 + e.choose(4, "n")
            g = G.cur = G(e, z3.IntVal(n))
            i, j = z3.IntVal(0), z3.IntVal(n - 1)
            for k in range(n):
                e.add(g.W0(k) >= 0)
        else:
            n = Int("n", 1).z
            g = G.cur = G(e, n)
            i, j = Int("i", 0).z, Int("j").z
            e.add(z3.And(i <= j, j < n))
        lo = i
        fn_ = getattr(m, f"_{kind}_non_zero")
        g.lo = lo
        c = zi(fn_(View(g, "A"), View(g, "W"), SInt(i), SInt(j)))
        e.cover("path-end")
        e.prove("best-of-those-with-weight", nz_spec(g.A0, g.W0, c, i, j, g, kind))

    def inv(L):
        g = G.cur
        c, i = zi(L["cur"]), g.lo
        return [("cur", nz_spec(g.A0, g.W0, c, i, i + zi(L["__k"]), g, kind))]

    return fn, {key: LoopContract(inv, lambda n, o, L: SInt(eng().fresh(n)) if n == "cur" else NotImplemented)}


def to_quant(method):
    def f(name, model):
        from fractions import Fraction as F

        a, w = [], []
        for k in range(3):
            if f"a{k}" in model:
                a.append(str(model[f"a{k}"]))
                w.append(str(model[f"w{k}"]))
        T = sum(F(x) for x in w)
        if not a or T == 0:
            return []
        q = F(str(model["qs"])) / T
        return [("quantile", {"a": a, "w": w, "q": str(q), "m": {"s": "split", "l": "lower", "h": "higher"}[method], "dt": "float64", "wt": "float64", "lay": "C"})]

    return f


# ---------------------------------------------------------------- the moving windows, any length and size
class Win:
    """Ghost state: which elements are in the queue (first in, first out) and, of those with weight,
    in the tree.  front/back are positions (row, column); back is the next one to enter."""

    cur = None

    def __init__(self, e, dims):
        self.e, self.dims = e, dims
        I, R = z3.IntSort(), z3.RealSort()
        self.D = z3.Function("D", I, I, R)
        self.W = z3.Function("W", I, I, R)
        self.empty = z3.Function("no_weight_between", I, I, I, I, z3.BoolSort())
        self.done = self.u = self.l = None
        self.tree_empty = self.queue_empty = False
        self.front = self.back = (z3.IntVal(0), z3.IntVal(0))
        self.pend_in = self.pend_out = False

    def reset(self):
        c = (z3.IntVal(0), self.first_col())
        self.front, self.back = c, c
        self.pend_in = self.pend_out = False
        self.queue_empty = True

    def first_col(self):
        return self.u if self.dims == 2 and self.u is not None else z3.IntVal(0)

    def advance(self, pos):
        if self.dims == 1:
            return (pos[0] + 1, pos[1])
        wrap = pos[1] + 1 == self.l
        return (z3.If(wrap, pos[0] + 1, pos[0]), z3.If(wrap, self.u, pos[1] + 1))

    def rows(self, r0, r1):
        """The queue holds exactly the rows r0 .. r1 - 1."""
        c = self.first_col()
        return z3.And(self.front[0] == r0, self.back[0] == r1, self.front[1] == c, self.back[1] == c)


class Arr2:
    __pv_symbolic__ = True

    def __init__(self, w, fn, name):
        self.w, self.fn, self.name = w, fn, name

    @property
    def shape(self):
        return tuple(SInt(x) for x in self.w.shape)

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        k = tuple(zi(x) for x in k)
        eng().prove("in-bounds", z3.And([z3.And(0 <= x, x < n) for x, n in zip(k, self.w.shape)]))
        return SReal(self.fn(k[0], k[1] if len(k) > 1 else z3.IntVal(0)))


class Handle:
    def __init__(self, pos, weight):
        self.pos, self.weight = pos, weight

    def get(self):
        return [self]


class MTree:
    """Assumed contract of Tree<double>."""

    def __init__(self):
        Win.cur.tree_empty = True

    def insert(self, d, w):
        g = Win.cur
        y, x = g.back
        g.e.prove("enters:the-next-element", z3.And(zr(d) == g.D(y, x), zr(w) == g.W(y, x)))
        if g.pend_in:
            raise Unsupported("two insertions in a row")
        g.pend_in = True
        return Handle(g.back, SReal(g.W(y, x)))

    def remove(self, node):
        g = Win.cur
        if node.pos is None or g.pend_out:
            raise Unsupported("removal out of step with the queue")
        g.e.prove("leaves:the-oldest-element", z3.And(node.pos[0] == g.front[0], node.pos[1] == g.front[1]))
        g.e.prove("leaves:was-in-the-tree", g.W(*g.front) != 0)
        g.pend_out = True
        return True

    def window(self):
        g = Win.cur
        if g.pend_in or g.pend_out:
            raise Unsupported("tree and queue out of step")
        if g.dims == 1:
            return g.front[0], g.back[0], z3.IntVal(0), z3.IntVal(1)
        g.e.prove("window:whole-rows", z3.And(g.front[1] == g.u, g.back[1] == g.u))
        return g.front[0], g.back[0], g.u, g.l

    def size(self):
        g = Win.cur
        n = SInt(g.e.fresh("size"))
        g.e.add(z3.And(n.z >= 0, (n.z == 0) == g.empty(*self.window())))
        return n

    def weighted_median(self, method):
        g = Win.cur
        w = self.window()
        g.e.prove("median:of-a-tree-with-elements", z3.Not(g.empty(*w)))
        return ("median", w, method)


class MQueue:
    def __init__(self):
        Win.cur.reset()

    def push_back(self, node):
        g = Win.cur
        if node.pos is None:  # the dummy
            g.e.prove("enters:without-weight", z3.And(g.W(*g.back) == 0, not g.pend_in))
        else:
            g.e.prove("enters:in-order", z3.And(node.pos[0] == g.back[0], node.pos[1] == g.back[1], g.pend_in))
        g.pend_in = False
        g.back = g.advance(g.back)

    def front(self):
        g = Win.cur
        return Handle(g.front, SReal(g.W(*g.front)))

    def pop_front(self):
        g = Win.cur
        g.e.prove("leaves:weight-removed", z3.Or(g.W(*g.front) == 0, g.pend_out))
        g.pend_out = False
        g.front = g.advance(g.front)

    def clear(self):
        Win.cur.reset()


class Medians:
    """Receives the results; each must be the median of exactly the window around its place."""

    __pv_symbolic__ = True

    def __init__(self, shape, dtype=None):
        self.g = Win.cur
        shape = shape if isinstance(shape, tuple) else (shape,)
        self.g.e.prove("result:shape", z3.And([zi(a) == b for a, b in zip(shape, self.g.shape)]))

    def __setitem__(self, k, v):
        g = self.g
        k = tuple(zi(x) for x in (k if isinstance(k, tuple) else (k,)))
        e = g.e
        e.prove("result:in-order", z3.And(k[0] == g.done, k[1] == g.col if g.dims == 2 else True))
        want = []
        for x, n, r in zip(k, g.shape, g.rad):
            want += [z3.If(x - r > 0, x - r, 0), z3.If(x + r + 1 < n, x + r + 1, n)]
        if g.dims == 1:
            want += [z3.IntVal(0), z3.IntVal(1)]
        if isinstance(v, tuple):
            e.prove("result:window", z3.And([a == b for a, b in zip(v[1], want)]))
            e.prove("result:method", v[2] is g.method)
        elif isinstance(v, float) and v != v:
            e.prove("result:nan-only-without-weight", g.empty(*want))
        else:
            e.fail("result:median-or-nan", repr(v))
        g.done = g.done + 1


class NP:
    ndarray = Medians
    float64 = float
    nan = float("nan")

    def __getattr__(self, n):
        raise Unsupported(f"np.{n} in the window routines")


def win_start(e, dims):
    m = code(e)
    g = Win.cur = Win(e, dims)
    ny = Int("n", 1, 3 if e.mode == "unroll" else None).z
    ry = Int("r", 0, 2 if e.mode == "unroll" else None).z
    g.shape, g.rad = (ny,), (ry,)
    if dims == 2:
        nx = Int("nx", 1, 2 if e.mode == "unroll" else None).z
        rx = Int("rx", 0, 2 if e.mode == "unroll" else None).z
        g.shape, g.rad = (ny, nx), (ry, rx)
    g.done = z3.IntVal(0)
    g.method = object()
    m.Tree, m.deque, m.shared_ptr, m.Data = MTree, MQueue, (lambda h: h), (lambda v, w: Handle(None, w))
    m.np, m.NAN = NP(), float("nan")
    return m, g


def havoc_win(L):
    g = Win.cur
    f = g.e.fresh
    g.front, g.back, g.done = (f("fy"), f("fx")), (f("by"), f("bx")), f("done")
    g.pend_in = g.pend_out = False


def keep_local(name, old, L):
    """Objects keep their identity; numbers and window nodes assigned in the loop become arbitrary."""
    if isinstance(old, (MTree, MQueue, Medians)):
        return old
    return NotImplemented


def zmin(a, b):
    return z3.If(a < b, a, b)


def zmax(a, b):
    return z3.If(a > b, a, b)


def start(L):
    g = Win.cur
    return [("starts-empty", g.tree_empty and g.queue_empty)] if L["__phase"] == "entry" else []


def inv_fill1(L):
    g = Win.cur
    k = zi(L["__k"])
    return start(L) + [("queue", z3.And(g.rows(0, k), g.done == 0))]


def inv_move1(L):
    g = Win.cur
    i = zi(L["__k"])  # rows done besides the first
    n, r = g.shape[0], g.rad[0]
    return [("queue", g.rows(zmax(i - r, 0), zmin(i + r + 1, n))), ("results", g.done == i + 1)]


WL1 = {
    f"{M}:_mwm_1D#1": LoopContract(inv_fill1, keep_local, havoc_win),
    f"{M}:_mwm_1D#2": LoopContract(inv_move1, keep_local, havoc_win),
}


def p_win1(e):
    m, g = win_start(e, 1)
    r = m._mwm_1D(Arr2(g, g.D, "data"), Arr2(g, g.W, "weights"), SInt(2 * g.rad[0] + 1), g.method)
    e.cover("path-end")
    e.prove("returns-the-medians", isinstance(r, Medians))
    e.prove("every-element-has-a-result", g.done == g.shape[0])


# 2-D: one column of windows at a time
def inv_cols(L):
    g = Win.cur
    if L["__phase"] == "assume":
        g.col = zi(L["__k"])
        r, n = g.rad[1], g.shape[1]
        g.u, g.l = zmax(g.col - r, 0), zmin(g.col + r + 1, n)
        g.done = z3.IntVal(0)
        g.tree_empty = g.queue_empty = False  # what the previous column left
        return []
    if L["__phase"] == "step":
        return [("column-complete", g.done == g.shape[0])]
    return []


def inv_fill_y(L):
    g = Win.cur
    k = zi(L["__k"])
    return start(L) + [("queue", z3.And(g.rows(0, k), g.done == 0))]


def inv_move_y(L):
    g = Win.cur
    i = zi(L["__k"])
    n, r = g.shape[0], g.rad[0]
    g.row = i + 1
    return [("queue", g.rows(zmax(i - r, 0), zmin(i + r + 1, n))), ("results", g.done == i + 1)]


def inv_pop_x(L):
    g = Win.cur
    k = zi(L["__k"])
    if L["__phase"] == "entry":
        g.base = (g.front, g.back, g.done)
    f0, b0, d0 = g.base
    y = f0[0]
    at = z3.If(g.u + k == g.l, z3.And(g.front[0] == y + 1, g.front[1] == g.u), z3.And(g.front[0] == y, g.front[1] == g.u + k))
    return [("queue", z3.And(at, g.back[0] == b0[0], g.back[1] == b0[1], g.done == d0))]


def inv_push_x(L):
    g = Win.cur
    k = zi(L["__k"])
    if L["__phase"] == "entry":
        g.base = (g.front, g.back, g.done)
    f0, b0, d0 = g.base
    y = b0[0]
    at = z3.If(g.u + k == g.l, z3.And(g.back[0] == y + 1, g.back[1] == g.u), z3.And(g.back[0] == y, g.back[1] == g.u + k))
    return [("queue", z3.And(at, g.front[0] == f0[0], g.front[1] == f0[1], g.done == d0))]


WL2 = {
    f"{M}:_mwm_2D#1": LoopContract(inv_cols, keep_local, havoc_win),
    f"{M}:_mwm_2D#2": LoopContract(inv_fill_y, keep_local, havoc_win),
    f"{M}:_mwm_2D#3": LoopContract(inv_push_x, keep_local, havoc_win),
    f"{M}:_mwm_2D#4": LoopContract(inv_move_y, keep_local, havoc_win),
    f"{M}:_mwm_2D#5": LoopContract(inv_pop_x, keep_local, havoc_win),
    f"{M}:_mwm_2D#6": LoopContract(inv_push_x, keep_local, havoc_win),
}


def p_win2(e):
    m, g = win_start(e, 2)
    if e.mode == "unroll":
        raise Unsupported("two dimensions are not unrolled")
    r = m._mwm_2D(Arr2(g, g.D, "data"), Arr2(g, g.W, "weights"), (SInt(2 * g.rad[0] + 1), SInt(2 * g.rad[1] + 1)), g.method)
    e.cover("path-end")
    e.prove("returns-the-medians", isinstance(r, Medians))


MED = "caput/algorithms/median/weighted.pyx"
PROOFS = []
for _m in "slh":
    PROOFS.append(Proof(f"quickselect-{_m}", p_select(_m), [f"{MED}:_quickselect_weight"], loops=LOOPS, to_cases=to_quant(_m), budget=150, timeout_ms=15000,
                        assumes=["C integers and doubles are mathematical", "a C char is read as a one-character string"]))
    PROOFS.append(Proof(f"quickselect-single-{_m}", p_single(_m), [f"{MED}:_quickselect_weight", f"{MED}:_max_non_zero", f"{MED}:_min_non_zero"], to_cases=to_quant(_m)))
PROOFS.append(Proof("zero-sum", p_lemma, []))
for _k in ("max", "min"):
    _fn, _lc = p_nz(_k)
    PROOFS.append(Proof(f"{_k}-non-zero", _fn, [f"{MED}:_{_k}_non_zero"], loops=_lc))
TREE = "Tree<double> is a multiset with the weighted median of its elements (assumed contract; evaluated at run time)"
PROOFS.append(Proof("window-1d", p_win1, [f"{MED}:_mwm_1D"], loops=WL1, assumes=[TREE]))
PROOFS.append(Proof("window-2d", p_win2, [f"{MED}:_mwm_2D"], loops=WL2, assumes=[TREE, "each OpenMP iteration has its own tree and queue"]))


# ---------------------------------------------------------------- the worker over rows
class Buf:
    """A one-dimensional buffer as a function of the index."""

    __pv_symbolic__ = True

    def __init__(self, name, n, sort=None):
        self.name, self.n = name, n
        self.f = z3.Function(name, z3.IntSort(), z3.RealSort())

    def __setitem__(self, k, v):
        k, v, f = zi(k), zr(v), self.f
        eng().prove("in-bounds", z3.And(0 <= k, k < self.n))
        self.f = lambda x: z3.If(x == k, v, f(x))

    def __getitem__(self, k):
        k = zi(k)
        eng().prove("in-bounds", z3.And(0 <= k, k < self.n))
        return SReal(self.f(k))

    def havoc(self):
        self.f = z3.Function(f"{self.name}!{eng().fresh('f')}", z3.IntSort(), z3.RealSort())


class Rows:
    cur = None


def all_k(lo, hi, f):
    k = z3.Int("k")
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(k)))


def inv_rows(L):
    g = Rows.cur
    if L["__phase"] == "assume":
        g.row = zi(L["__k"])
    k = zi(L["__k"])
    return [("rows-done", all_k(z3.IntVal(0), k, lambda x: g.out.f(x) == g.Q(x)))]


def heap_rows(L):
    g = Rows.cur
    for b in (g.At, g.Wt, g.out):
        b.havoc()


def inv_copy(L):
    g = Rows.cur
    k, i = zi(L["__k"]), g.row
    return [("copied", all_k(z3.IntVal(0), k, lambda x: z3.And(g.At.f(x) == g.D(i, x), g.Wt.f(x) == g.W(i, x)))), ("sum", zr(L["wt"]) == g.S(i, k))]


def heap_copy(L):
    g = Rows.cur
    g.At.havoc()
    g.Wt.havoc()


def inv_ones(L):
    g = Rows.cur
    return [("ones", all_k(z3.IntVal(0), zi(L["__k"]), lambda x: g.Wt.f(x) == 1))]


def heap_ones(L):
    Rows.cur.Wt.havoc()


def hv_rows(name, old, L):
    return SReal(eng().fresh(name, "real")) if name in ("wt", "qs") else NotImplemented


WLR = {
    f"{M}:_quickselect#1": LoopContract(inv_rows, hv_rows, heap_rows),
    f"{M}:_quickselect#2": LoopContract(inv_copy, hv_rows, heap_copy),
    f"{M}:_quickselect#3": LoopContract(inv_ones, hv_rows, heap_ones),
}


def p_rows(e):
    m = code(e)
    g = Rows.cur = Win(e, 2)
    un = e.mode == "unroll"
    ny, n = Int("ny", 0, 2 if un else None).z, Int("n", 1, 2 if un else None).z
    g.shape = (ny, n)
    I, R = z3.IntSort(), z3.RealSort()
    g.S = z3.Function("S", I, I, R)
    g.Q = z3.Function("Q", I, R)
    r, k = z3.Ints("r k")
    if not un:
        e.add(z3.ForAll([r], g.S(r, 0) == 0))
        e.add(z3.ForAll([r, k], z3.Implies(k >= 0, g.S(r, k + 1) == g.S(r, k) + g.W(r, k)), patterns=[g.S(r, k + 1)]))
    else:
        for a in range(2):
            e.add(g.S(a, 0) == 0)
            for b in range(2):
                e.add(g.S(a, b + 1) == g.S(a, b) + g.W(a, b))
    g.At, g.Wt, g.out = Buf("At", n), Buf("Wt", n), Buf("out", ny)
    q = Real("q")
    method = object()
    g.calls = 0

    def stub(A, W, qs, meth):
        i = g.row if not un else z3.IntVal(g.calls)
        g.calls += 1
        e.prove("row:buffers", A is g.At and W is g.Wt and meth is method)
        e.prove("row:data", all_k(z3.IntVal(0), n, lambda x: A.f(x) == g.D(i, x)))
        zero = g.S(i, n) == 0
        e.prove("row:weights", all_k(z3.IntVal(0), n, lambda x: W.f(x) == z3.If(zero, 1, g.W(i, x))))
        e.prove("row:target", zr(qs) == zr(q) * z3.If(zero, z3.ToReal(n), g.S(i, n)))
        return SReal(g.Q(i))

    saved = m._quickselect_weight
    m._quickselect_weight = stub
    try:
        m._quickselect(Arr2(g, g.D, "A"), Arr2(g, g.W, "W"), q, method, g.out, g.At, g.Wt)
    finally:
        m._quickselect_weight = saved
    e.cover("path-end")
    e.prove("every-row-has-its-result", all_k(z3.IntVal(0), ny, lambda x: g.out.f(x) == g.Q(x)))


PROOFS.append(Proof("rows", p_rows, [f"{MED}:_quickselect"], loops=WLR))

# ---------------------------------------------------------------- run-time evaluation
def F_(x):
    from fractions import Fraction

    return Fraction(x)


def cand(a, w, q, slack=0):
    """(lower, higher) by the definition, on the elements with weight; None without weight."""
    p = sorted((x, y) for x, y in zip(a, w) if y != 0)
    if not p:
        return None
    T = sum(y for _, y in p)
    T = min(max(T * q + T * slack, 0), T)
    c = 0
    for k, (x, y) in enumerate(p):
        c += y
        if c > T or k == len(p) - 1:
            return x, x
        if c == T:
            return x, p[k + 1][0]


def accepts(a, w, q, m, r, exact, integer=False):
    """Message when r is not the quantile."""
    import math

    ulp = F_(1) / 2 ** (22 if getattr(r, "dtype", None) == "float32" else 51)
    cs = [cand(a, w, q)]
    if not exact:
        eps = F_(1) / 10**6
        cs += [cand(a, w, q, eps), cand(a, w, q, -eps)]
        lo, hi = min(c[0] for c in cs), max(c[1] for c in cs)
        cs.append((lo, hi))
    for lo, hi in cs:
        v = {"lower": lo, "higher": hi, "split": (lo + hi) / 2}[m]
        if r != r:
            continue
        if F_(float(r)) == v or (m == "split" and lo != hi and abs(F_(float(r)) - v) <= (abs(lo) + abs(hi)) * ulp):
            return None
        if integer and int(r) in (math.floor(v), math.ceil(v)):
            return None
    return f"is {r!r}, should be {[(float(x), float(y)) for x, y in cs]} ({m})"


def lay_out(x, lay, np):
    if lay == "F":
        return np.asfortranarray(x)
    if lay == "step":
        y = np.zeros((*x.shape[:-1], 2 * x.shape[-1]), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if lay == "neg":
        return x[..., ::-1].copy()[..., ::-1]
    if lay == "ro":
        x = x.copy()
        x.flags.writeable = False
        return x
    if lay == "list":
        return x.tolist()
    return x


def num(rng, kind):
    if kind == "few":
        return str(rng.randint(-2, 2))
    if kind == "int":
        return str(rng.randint(-50, 50))
    if kind == "half":
        return f"{rng.randint(-40, 40)}/2"
    return str(F_(float(rng.uniform(-1, 1))))


def wnum(rng, kind):
    if rng.random() < 0.2:
        return "0"
    if kind in ("few", "int"):
        return str(rng.choice([1, 1, 1, 2, 3, 4]))
    if kind == "half":
        return f"{rng.randint(1, 12)}/4"
    return str(F_(float(rng.random())))


DTS = ["int32", "int64", "float32", "float64"]


def gen_q(rng, i):
    k = rng.choice(["few", "few", "int", "half", "any"])
    dt, wt = rng.choice(DTS[2:]) if k == "any" or k == "half" else rng.choice(DTS), "float64"
    wt = rng.choice(DTS) if k in ("few", "int") else rng.choice(DTS[2:])
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12, 20, 60])
    w = [wnum(rng, k) for _ in range(n)]
    if rng.random() < 0.1:
        w = ["0"] * n
    if rng.random() < 0.1:
        w = ["0"] * n
        w[rng.randrange(n)] = "2"
    return {"a": [num(rng, k) for _ in range(n)], "w": w, "q": rng.choice(["1/2", "1/2", "0", "1", "1/4", "3/4", "1/8", str(F_(float(rng.random())))]),
            "m": rng.choice(["split", "lower", "higher"]), "dt": dt, "wt": wt, "lay": rng.choice(["C", "C", "step", "neg", "ro", "list"])}


def chk_q(c):
    import numpy as np
    from caput.algorithms.median import quantile, weighted_median

    a = np.array([float(F_(x)) for x in c["a"]]).astype(c["dt"])
    w = np.array([float(F_(x)) for x in c["w"]]).astype(c["wt"])
    q = float(F_(c["q"]))
    A, W = lay_out(a, c["lay"], np), lay_out(w, c["lay"], np)
    r = quantile(A, W, q, c["m"])
    if q == 0.5:
        r2 = weighted_median(A, W, c["m"])
        if not r2 == r:
            return f"weighted_median {r2} and quantile {r} differ"
    if np.shape(r) != ():
        return f"a scalar was expected, not {r!r}"
    if c["lay"] != "list" and not (np.array_equal(np.asarray(A), a) and np.array_equal(np.asarray(W), w)):
        return "the arguments were modified"
    fa, fw = [F_(float(x)) for x in a], [F_(float(x)) for x in w]
    if not any(fw):
        fw = [F_(1)] * len(fw)
    integer = np.asarray(r).dtype.kind == "i"
    exact = all((x * 4).denominator == 1 and x < 1000 for x in fw) and F_(q).denominator <= 8
    if integer and float(r) != r:
        return f"{r!r}"
    m = accepts(fa, fw, F_(q), c["m"], r, exact, integer)
    return None if m is None else f"quantile({a.tolist()}, {w.tolist()}, {q}) " + m


def gen_nd(rng, i):
    shp = rng.choice([[2, 3], [3, 1], [1, 4], [2, 2, 3], [0, 3], [2, 3, 1, 2]])
    n = 1
    for x in shp:
        n *= x
    return {"shape": shp, "a": [num(rng, "int") for _ in range(n)], "w": [wnum(rng, "few") for _ in range(n)], "q": rng.choice(["1/2", "1/4", "0", "1"]),
            "m": rng.choice(["split", "lower", "higher"]), "dt": rng.choice(DTS), "wt": rng.choice(DTS), "lay": rng.choice(["C", "F", "step", "neg", "ro"])}


def chk_nd(c):
    import numpy as np
    from caput.algorithms.median import quantile

    a = np.array([float(F_(x)) for x in c["a"]]).astype(c["dt"]).reshape(c["shape"])
    w = np.array([float(F_(x)) for x in c["w"]]).astype(c["wt"]).reshape(c["shape"])
    q = float(F_(c["q"]))
    r = quantile(lay_out(a, c["lay"], np), lay_out(w, c["lay"], np), q, c["m"])
    if r.shape != tuple(c["shape"][:-1]):
        return f"shape {r.shape} for {c['shape']}"
    for ix in np.ndindex(*c["shape"][:-1]):
        fa, fw = [F_(float(x)) for x in a[ix]], [F_(float(x)) for x in w[ix]]
        if not any(fw):
            fw = [F_(1)] * len(fw)
        m = accepts(fa, fw, F_(q), c["m"], r[ix], True, r.dtype.kind == "i")
        if m:
            return f"row {ix} of {a.tolist()}, {w.tolist()}, {q} " + m
    bad = np.ones(tuple(c["shape"][:-1]) + (c["shape"][-1] + 1,), dtype=w.dtype)
    try:
        quantile(a, bad, q, c["m"])
    except ValueError:
        return None
    return "weights of another shape were accepted"


def window_msg(a, w, size, m, r, exact=True):
    import itertools
    import math

    shp = r.shape
    for ix in itertools.product(*(range(n) for n in shp)):
        sl = tuple(slice(max(0, i - s // 2), i + s // 2 + 1) for i, s in zip(ix, size))
        fa, fw = [F_(float(x)) for x in a[sl].ravel()], [F_(float(x)) for x in w[sl].ravel()]
        if not any(fw):
            if not math.isnan(r[ix]):
                return f"element {ix} has no weight in its window but is {r[ix]}"
            continue
        msg = accepts(fa, fw, F_(1) / 2, m, r[ix], exact)
        if msg:
            return f"element {ix} " + msg
    return None


def gen_win(rng, i):
    k = rng.choice(["few", "few", "few", "int", "half", "any"])
    d = rng.choice([1, 1, 2])
    if d == 1:
        n = [rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 70])]
    else:
        n = [rng.randint(1, 8), rng.randint(1, 8)]
    size = [rng.choice([3, 3, 5, 7, 9, 15, 31, 101]) for _ in n]
    if d == 2:
        size = [rng.choice([1, 3, 5, 7, 17]) for _ in n]
    t = 1
    for x in n:
        t *= x
    a = [num(rng, k) for _ in range(t)]
    w = [wnum(rng, k) for _ in range(t)]
    if rng.random() < 0.25:  # a stretch without weight
        s = rng.randrange(t)
        for x in range(s, min(t, s + rng.randint(1, 12))):
            w[x] = "0"
    if rng.random() < 0.2:
        a = sorted(a, key=F_, reverse=rng.random() < 0.5)
    dts = DTS + ["int16", "float16", "uint8", "bool"] if k == "few" else (DTS if k == "int" else ["float64"])
    return {"n": n, "size": size, "a": a, "w": w, "m": rng.choice(["split", "lower", "higher"]), "dt": rng.choice(dts), "wt": rng.choice(DTS if k in ("few", "int") else ["float64"]),
            "lay": rng.choice(["C", "C", "F", "step", "neg", "ro"]), "exact": k != "any", "one": rng.random() < 0.3}


def chk_win(c):
    import numpy as np
    from caput.algorithms.median import moving_weighted_median as mwm

    a = np.array([abs(float(F_(x))) if c["dt"] in ("uint8", "bool") else float(F_(x)) for x in c["a"]]).astype(c["dt"]).reshape(c["n"])
    w = np.array([float(F_(x)) for x in c["w"]]).astype(c["wt"]).reshape(c["n"])
    size = tuple(c["size"]) if len(c["n"]) == 2 or c["one"] else c["size"][0]
    if c["dt"] == "bool":
        return None
    A, W = lay_out(a, c["lay"], np), lay_out(w, c["lay"], np)
    r = mwm(A, W, size, c["m"])
    if r.shape != a.shape:
        return f"shape {r.shape}"
    if not (np.array_equal(A, a) and np.array_equal(W, w)):
        return "the arguments were modified"
    msg = window_msg(a, w, c["size"], c["m"], r, c["exact"])
    return None if msg is None else f"moving median of {a.tolist()}, {w.tolist()}, size {size}: {msg}"


def gen_small(rng, i):
    return {"n": rng.choice([4, 5]), "seed": rng.getrandbits(30)}


def chk_small(c):
    """Every array over few values and weights (n <= 3), or a slice of those of length 4 and 5."""
    import itertools
    import random

    import numpy as np
    from caput.algorithms.median import moving_weighted_median as mwm

    n = c["n"]
    el = [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)]
    if "seed" in c:
        r = random.Random(c["seed"])
        it = [[r.choice(el) for _ in range(n)] for _ in range(60)]
    else:
        it = itertools.product(el, repeat=n)
    for t in it:
        a = np.array([float(x) for x, _ in t])
        w = np.array([float(y) for _, y in t])
        for size in (3, 5):
            for m in ("split", "lower", "higher"):
                msg = window_msg(a, w, [size], m, mwm(a, w, size, m))
                if msg:
                    return f"moving median of {a.tolist()}, {w.tolist()}, size {size}: {msg}"
    return None


def gen_reject(rng, i):
    return {"k": rng.choice(["even", "zero", "negative", "shape", "shape2", "method", "3d", "even2", "q", "empty", "empty2", "one"])}


def chk_reject(c):
    import numpy as np
    from caput.algorithms.median import moving_weighted_median as mwm, quantile

    x, y = np.arange(6.0), np.ones(6)
    X, Y = x.reshape(2, 3), y.reshape(2, 3)
    k = c["k"]
    if k in ("empty", "empty2"):
        shp = (0,) if k == "empty" else (0, 3)
        r = mwm(np.zeros(shp), np.zeros(shp), 3 if k == "empty" else (3, 3))
        return None if r.shape == shp else f"shape {r.shape}"
    if k == "one":
        r = mwm(x, y, 1)
        return None if np.array_equal(r, x) else f"{r}"
    f = {
        "even": lambda: mwm(x, y, 4), "zero": lambda: mwm(x, y, 0), "negative": lambda: mwm(x, y, -3), "shape": lambda: mwm(x, y[:4], 3),
        "shape2": lambda: mwm(X, Y[:1], (3, 3)), "method": lambda: mwm(x, y, 3, "middle"), "3d": lambda: mwm(x.reshape(1, 2, 3), y.reshape(1, 2, 3), (3, 3, 3)),
        "even2": lambda: mwm(X, Y, (3, 2)), "q": lambda: quantile(x, y, 1.5),
    }[k]
    try:
        f()
    except (ValueError, NotImplementedError):
        return None
    return f"{k} was accepted"


FALSIFIERS = [
    Falsifier("quantile", gen_q, chk_q, n=3000, thorough=60000, fixed=[
        {"a": ["3"], "w": ["1"], "q": "1", "m": m, "dt": "float64", "wt": "float64", "lay": "C"} for m in ("split", "lower", "higher")] + [
        {"a": ["1", "2", "3"], "w": ["0", "0", "1"], "q": "0", "m": "lower", "dt": "float64", "wt": "float64", "lay": "C"}]),
    Falsifier("rows", gen_nd, chk_nd, n=400, thorough=6000),
    Falsifier("window", gen_win, chk_win, n=1500, thorough=30000),
    Falsifier("exhaustive", gen_small, chk_small, n=30, thorough=1500, fixed=[{"n": 1}, {"n": 2}, {"n": 3}], bound="all arrays of up to 3 elements over 3 values and 3 weights"),
    Falsifier("reject", gen_reject, chk_reject, n=40, thorough=60, fixed=[{"k": k} for k in ("even", "zero", "negative", "shape", "shape2", "method", "3d", "even2", "q", "empty", "empty2", "one")]),
]

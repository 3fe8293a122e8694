"""Spherical coordinate transforms are mutually inverse and preserve geometry."""

from pv.api import *

EXTS = ("spherical",)
LEVEL = "proof"
PYX = "caput/astro/coordinates/_spherical.pyx"
M = "caput.astro.coordinates.pv_spherical"
S = "caput.astro.coordinates.spherical."
ASSUMPTIONS = [
    "C doubles are read as real numbers and the double nearest to pi as pi: rounding is only evaluated at run time, against tolerances",
    "sin, cos, arccos, arcsin, arctan2, sqrt and hypot satisfy their definitions (Pythagoras, quarter-turn shifts, addition formulas, ranges)",
    "an OpenMP loop is read as a sequential loop: iterations write disjoint rows",
    "the zero vector (which has no direction), squares that overflow or underflow, and positions on or below the horizon for ground_to_sph are excluded",
]
RULE = "random and special directions (poles, seams, equator, antipodes, nearly equal points), every shape, memory layout, byte order and real element type, against elementary formulas"

# ---------------------------------------------------------------- proofs
def code(e):
    import os
    import sys

    import caput
    from pv import pyx, trig

    if M not in sys.modules:
        root = os.path.dirname(os.path.dirname(caput.__file__))
        m = pyx.module(root, PYX, "pv_spherical")
        m.sin, m.cos, m.hypot, m.pv_ptr = trig.sin, trig.cos, trig.hypot, Ptr
        m.M_PI_2 = 1.5707963267948966
        m.np = Np(m.np)
    return sys.modules[M]


class _Any(type):
    def __instancecheck__(cls, x):
        return type(x) is RowArr or isinstance(x, SArr)


class ND(metaclass=_Any):
    pass


class Np:
    """numpy as the kernels use it: rows of numbers under any leading axes."""

    def __init__(self, np):
        self.__np = np
        self.ndarray = ND

    def __getattr__(self, n):
        return getattr(self.__np, n)

    def ascontiguousarray(self, x, dtype=None):
        return x.contiguous() if type(x) is RowArr else self.__np.ascontiguousarray(x, dtype=dtype) if dtype else self.__np.ascontiguousarray(x)

    def _alloc(self, shape, fill):
        g = Ghost.cur
        if g is None:
            return NotImplemented
        shape = tuple(shape)
        for pre in (0, 1):
            lead = shape[pre:-1]
            if lead == g.lead:
                r = RowArr(g, "out", shape[-1], pre=shape[0] if pre else None, fill=fill)
                g.outs.append(r)
                return r
        if g.grid and len(shape) == 3:
            r = RowArr(g, "out", None, fill=fill, grid=shape)
            g.outs.append(r)
            return r
        return NotImplemented

    def empty(self, shape, dtype=None):
        r = self._alloc(shape, None)
        return self.__np.empty(shape, dtype=dtype) if r is NotImplemented else r

    def zeros(self, shape, dtype=None):
        r = self._alloc(shape, 0)
        return self.__np.zeros(shape, dtype=dtype) if r is NotImplemented else r

    def shares_memory(self, a, b):
        return a.cells is b.cells


class Lead:
    """Some leading axes: their number and lengths do not matter, only that there are N rows."""

    __pv_symbolic__ = True

    def __init__(self, e):
        self.n = Int("rows", lo=0)


class Ghost:
    cur = None
    grid = False

    def __init__(self, e):
        Ghost.cur = self
        self.e, self.N = e, Int("rows", lo=0)
        self.lead = ("leading axes",)
        self.row = Int("watched", lo=0)
        e.assume(self.row < self.N)
        self.outs = []


class Cells:
    def __init__(self, name, arity, const=False, fill=None):
        self.name, self.arity, self.const = name, arity, const
        self.fresh()
        if fill is not None:
            self.f = lambda *k: z3.RealVal(fill)

    def fresh(self):
        e = eng()
        e.fresh_n += 1
        f = z3.Function(f"{self.name}!{e.fresh_n}", *[z3.IntSort()] * self.arity, z3.RealSort())
        self.f = lambda *k: f(*k)


class RowArr:
    """A float array of any leading shape with the given last axis, seen as rows."""

    __pv_symbolic__ = True

    def __init__(self, g, name, last, pre=None, const=False, cells=None, flat=False, fill=None, grid=None, contig=True):
        self.g, self.last, self.pre, self.flat, self.grid, self.contig = g, last, pre, flat, grid, contig
        self.cells = cells or Cells(name, 3 if pre is not None or grid else 2, const, fill)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def shape(self):
        if self.grid:
            return self.grid
        if self.flat:
            return (self.pre, self.g.N, self.last) if self.pre is not None else (self.g.N, self.last)
        return ((self.pre,) if self.pre is not None else ()) + self.g.lead + (self.last,)

    def __pv_len__(self):
        return self.shape[0]

    def contiguous(self):
        if self.contig:
            return self
        r = RowArr(self.g, "copy", self.last, self.pre)
        r.cells.f = self.cells.f
        return r

    def astype(self, dt, copy=True):
        if not copy:
            return self
        r = RowArr(self.g, "copy", self.last, self.pre, flat=self.flat)
        r.cells.f = self.cells.f
        return r

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        want = (self.pre, -1, self.last) if self.pre is not None else (-1, self.last)
        flat = tuple(shape) == want
        if not flat and tuple(shape) != (((self.pre,) if self.pre is not None else ()) + self.g.lead + (self.last,)):
            raise Unsupported(f"reshape {shape}")
        src = self.contiguous() if flat else self
        return RowArr(self.g, "view", self.last, self.pre, cells=src.cells, flat=flat)

    def _key(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if len(key) != len(self.shape) or not (self.flat or self.grid):
            raise Unsupported("indexing of rows")
        for k, n in zip(key, self.shape):
            eng().prove("in-bounds", z3.And(zi(k) >= 0, zi(k) < zi(n)))
        return tuple(zi(k) for k in key)

    def __getitem__(self, key):
        return SReal(self.cells.f(*self._key(key)))

    def __setitem__(self, key, v):
        if key is Ellipsis:
            if self.cells.const:
                eng().fail("argument-unchanged")
            self.cells.f = v.cells.f
            return
        if self.cells.const:
            eng().fail("argument-unchanged")
        k, v, f = self._key(key), zr(v), self.cells.f
        self.cells.f = lambda *x: z3.If(z3.And(*[a == b for a, b in zip(x, k)]), v, f(*x))


class Ptr:
    """&a[i, j]: the address of an element; p[k] is the k-th one after it in its row."""

    __pv_symbolic__ = True

    def __init__(self, a, key):
        self.a, self.key = a, key if isinstance(key, tuple) else (key,)

    def __getitem__(self, k):
        return self.a[(*self.key[:-1], self.key[-1] + k)]

    def __setitem__(self, k, v):
        self.a[(*self.key[:-1], self.key[-1] + k)] = v


def unit(t, p):
    from pv import trig

    st, ct = trig.sincos(SReal(t))
    sp_, cp = trig.sincos(SReal(p))
    return [st * cp, st * sp_, ct]


def rows_contract(spec):
    """Loop contract: when row k is done, the watched row is right if it is among the first k."""

    def inv(L):
        g = Ghost.cur
        return [("watched-row", z3.Implies(zi(g.row) < zi(L["__k"]), z3.And(*spec(g))))]

    def heap(L):
        g = Ghost.cur
        for o in g.outs:
            o.cells.fresh()

    return LoopContract(inv, lambda n, o, L: NotImplemented, heap)


def spec_s2c(g):
    o, x, w = g.outs[0].cells.f, g.inp.cells.f, zi(g.row)
    if g.inp.last == 2:
        e = unit(x(w, z3.IntVal(0)), x(w, z3.IntVal(1)))
    else:
        r = x(w, z3.IntVal(0))
        e = [c * r for c in unit(x(w, z3.IntVal(1)), x(w, z3.IntVal(2)))]
    return [o(w, z3.IntVal(k)) == e[k] for k in range(3)]


def pf_s2c(nd):
    def fn(e):
        m = code(e)
        g = Ghost(e)
        g.inp = RowArr(g, "sph", nd, const=True, contig=bool(e.choose(2, "contiguous")))
        r = m.sph_to_cart(g.inp)
        e.prove("a-new-array-of-the-same-leading-shape", type(r) is RowArr and r.cells is not g.inp.cells and r.shape == (*g.lead, 3))
        for k, c in enumerate(spec_s2c(g)):
            e.prove(f"component-{'xyz'[k]}", c)
        e.cover("path-end")

    return fn


def pf_plane_cart(e):
    m = code(e)
    g = Ghost(e)
    g.inp = RowArr(g, "sph", 2, const=True, contig=bool(e.choose(2, "contiguous")))
    r = m.thetaphi_plane_cart(g.inp)
    e.prove("shape", type(r) is RowArr and r.shape == (2, *g.lead, 3))
    for k, c in enumerate(spec_plane(g)):
        e.prove(f"{'theta' if k < 3 else 'phi'}-{'xyz'[k % 3]}", c)
    # the basis they make with the direction itself
    x, w = g.inp.cells.f, zi(g.row)
    n = unit(x(w, z3.IntVal(0)), x(w, z3.IntVal(1)))
    o = r.cells.f
    t, p = ([o(z3.IntVal(a), w, z3.IntVal(k)) for k in range(3)] for a in (0, 1))
    dot = lambda a, b: sum(u * v for u, v in zip(a, b))  # noqa: E731
    for nm, c in (("theta-unit", dot(t, t) == 1), ("phi-unit", dot(p, p) == 1), ("theta-phi-orthogonal", dot(t, p) == 0), ("theta-radial-orthogonal", dot(t, n) == 0), ("phi-radial-orthogonal", dot(p, n) == 0)):
        e.prove(nm, c)
    cross = [n[1] * t[2] - n[2] * t[1], n[2] * t[0] - n[0] * t[2], n[0] * t[1] - n[1] * t[0]]
    for k in range(3):
        e.prove(f"right-handed-{'xyz'[k]}", cross[k] == p[k])
    e.cover("path-end")


def spec_plane(g):
    from pv import trig

    o, x, w = g.outs[0].cells.f, g.inp.cells.f, zi(g.row)
    st, ct = trig.sincos(SReal(x(w, z3.IntVal(0))))
    sp_, cp = trig.sincos(SReal(x(w, z3.IntVal(1))))
    e = [ct * cp, ct * sp_, -st, -sp_, cp, z3.RealVal(0)]
    return [o(z3.IntVal(k // 3), w, z3.IntVal(k % 3)) == e[k] for k in range(6)]


def spec_norm(g):
    o, x, w = g.work().f, g.x0, zi(g.row)
    a, b = x(w, z3.IntVal(0)), x(w, z3.IntVal(1))
    oa, ob = o(w, z3.IntVal(0)), o(w, z3.IntVal(1))
    return [oa * oa + ob * ob == 1, oa * b == ob * a, oa * a >= 0, ob * b >= 0]


def pf_norm(e):
    m = code(e)
    g = Ghost(e)
    contig = bool(e.choose(2, "contiguous"))
    a = RowArr(g, "vec", 2, contig=contig)
    g.x0 = a.cells.f
    w = zi(g.row)
    # no zero vectors
    e.add(z3.ForAll([z3.Int("k")], z3.Or(g.x0(z3.Int("k"), z3.IntVal(0)) != 0, g.x0(z3.Int("k"), z3.IntVal(1)) != 0)))
    g.watch = [a]
    made = []
    orig = RowArr.contiguous

    def contiguous(self):
        r = orig(self)
        if r is not self:
            made.append(r)
        return r

    RowArr.contiguous = contiguous
    try:
        g.work = lambda: (made[-1] if made else a).cells
        r = m.norm_vec2(a)
    finally:
        RowArr.contiguous = orig
    g.work = lambda: a.cells
    e.prove("returns-nothing", r is None)
    for n, c in zip(("unit-length", "parallel", "same-sense-x", "same-sense-y"), spec_norm(g)):
        e.prove(n, c)
    e.cover("path-end")


def norm_loop():
    def inv(L):
        g = Ghost.cur
        k, w = zi(L["__k"]), zi(g.row)
        f = g.work().f
        j = z3.Int("j")
        return [("watched-row", z3.Implies(w < k, z3.And(*spec_norm(g)))),
                ("rows-to-come", z3.ForAll([j], z3.Implies(j >= k, z3.And(*[f(j, z3.IntVal(q)) == g.x0(j, z3.IntVal(q)) for q in range(2)]))))]

    def heap(L):
        Ghost.cur.work().fresh()

    return LoopContract(inv, lambda n, o, L: NotImplemented, heap)


def pf_cosine(e):
    m = code(e)
    g = Ghost(e)
    g.grid = True
    n = [Int(k, lo=0) for k in ("nm", "n1", "n2")]
    fs = [z3.Function(k, z3.IntSort(), z3.RealSort()) for k in ("mu", "x1", "x2")]
    k = z3.Int("k")
    e.add(z3.ForAll([k], z3.And(fs[0](k) <= 1, fs[0](k) >= -1)))
    for f in fs[1:]:
        e.add(z3.ForAll([k], f(k) >= 0))
    g.fs, g.n = fs, n
    g.at = [Int("w" + k, lo=0) for k in ("m", "1", "2")]
    for a, b in zip(g.at, n):
        e.assume(a < b)
    args = [Vec(f, q) for f, q in zip(fs, n)]
    r = m.cosine_rule(*args)
    e.prove("shape", And(*[SInt(zi(a)) == b for a, b in zip(r.shape, n)]))
    m_, x, y = (f(zi(a)) for f, a in zip(fs, g.at))
    v = r.cells.f(*[zi(a) for a in g.at])
    e.prove("cosine-rule", v * v == x * x + y * y - 2 * x * y * m_)
    e.prove("not-negative", v >= 0)
    e.cover("path-end")


class Vec:
    __pv_symbolic__ = True

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __pv_len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __getitem__(self, k):
        eng().prove("in-bounds", z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        return SReal(self.f(zi(k)))

    def __setitem__(self, k, v):
        eng().fail("argument-unchanged")


def grid_loop(depth):
    """The watched cell is right when the loops have passed it."""

    def inv(L):
        g = Ghost.cur
        w = [zi(a) for a in g.at]
        if L["__phase"] == "assume":
            g.pos = getattr(g, "pos", {})
            g.pos[depth] = zi(L["__k"])
        pos = [g.pos[d] for d in range(depth)] + [zi(L["__k"])]
        # passed: lexicographically before
        passed = z3.BoolVal(False)
        for d in reversed(range(depth + 1)):
            passed = z3.Or(w[d] < pos[d], z3.And(w[d] == pos[d], passed)) if d < depth else w[d] < pos[d]
        o = g.outs[0].cells.f(*w)
        m_, x, y = (f(a) for f, a in zip(g.fs, w))
        return [("watched-cell", z3.Implies(passed, z3.And(o >= 0, o * o == x * x + y * y - 2 * x * y * m_)))]

    def heap(L):
        for o in Ghost.cur.outs:
            o.cells.fresh()

    return LoopContract(inv, lambda n, o, L: NotImplemented, heap)


class Dot:
    pass


def table(e, name, n, last):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return f, SArr._make(lambda i: SReal(f(zi(i[0]), zi(i[1]))), (n, last), float)


def pf_c2s(e):
    from pv import trig

    m = code(e)
    Ghost.cur = None
    n = Int("n", lo=1)
    f, a = table(e, "cart", n, 3)
    j = Int("j", lo=0)
    e.assume(j < n)
    x, y, z = (f(zi(j), z3.IntVal(k)) for k in range(3))
    rr = x * x + y * y + z * z
    e.add(rr > 0)
    s = m.cart_to_sph(a)
    r, t, p = (s.at(j, k) for k in range(3))
    e.prove("shape", And(len(s.shape) == 2, SInt(zi(s.shape[0])) == n, s.shape[1] == 3))
    e.prove("radius", And(SReal(zr(r)) >= 0, SBool(zr(r) * zr(r) == rr)))
    e.prove("theta-range", z3.And(zr(t) >= 0, zr(t) <= trig.PI))
    e.prove("phi-range", z3.And(zr(p) >= -trig.PI, zr(p) <= trig.PI))
    st, ct = trig.sincos(t)
    sp_, cp = trig.sincos(p)
    e.prove("leads-back-z", zr(r) * ct == z)
    h = trig.sqrt(SReal(x * x + y * y)).z
    e.prove("distance-from-axis", zr(r) * st == h)
    e.add(zr(r) * st == h)
    e.prove("leads-back-x", h * cp == x)
    e.prove("leads-back-y", h * sp_ == y)
    for k in range(3):
        e.prove("argument-unchanged", zr(a.at(j, k)) == f(zi(j), z3.IntVal(k)))
    e.cover("path-end")


def pf_plane(nd):
    def fn(e):
        m = code(e)
        Ghost.cur = None
        from pv import trig

        n = Int("n", lo=1)
        f, a = table(e, "sph", n, nd)
        j = Int("j", lo=0)
        e.assume(j < n)
        th, ph = m.thetaphi_plane(a)
        t, p = (f(zi(j), z3.IntVal(k)) for k in (nd - 2, nd - 1))
        st, ct = trig.sincos(SReal(t))
        sp_, cp = trig.sincos(SReal(p))
        for nm, v, ex in (("theta", th, [ct * cp, ct * sp_, -st]), ("phi", ph, [-sp_, cp, z3.RealVal(0)])):
            got = unit(zr(v.at(j, nd - 2)), zr(v.at(j, nd - 1)))
            if nd == 3:
                e.prove(nm + "-unit-length", zr(v.at(j, 0)) == 1)
            for k in range(3):
                e.prove(f"{nm}-{'xyz'[k]}", got[k] == ex[k])
        for k in range(nd):
            e.prove("argument-unchanged", zr(a.at(j, k)) == f(zi(j), z3.IntVal(k)))
        e.cover("path-end")

    return fn


def pf_dot(e):
    m = code(e)
    Ghost.cur = None
    old = m.sph_to_cart
    n = Int("n", lo=1)
    one = e.choose(2, "broadcast")
    fa, a = table(e, "A", n, 3)
    fb, b = table(e, "B", 1 if one else n, 3)
    j = Int("j", lo=0)
    e.assume(j < n)
    A, B = object(), object()
    m.sph_to_cart = lambda x: {A: a, B: b}[x]
    try:
        r = m.sph_dot(A, B)
    finally:
        m.sph_to_cart = old
    e.prove("shape", And(len(r.shape) == 1, SInt(zi(r.shape[0])) == n))
    i = z3.IntVal(0) if one else zi(j)
    e.prove("scalar-product", zr(r.at(j)) == sum(fa(zi(j), z3.IntVal(k)) * fb(i, z3.IntVal(k)) for k in range(3)))
    e.cover("path-end")


def pf_ground(e):
    from caput.astro.coordinates import spherical as sp
    from pv import trig

    h, l, d = Real("ha"), Real("lat"), Real("dec")
    x, y, z = (zr(v) for v in sp.sph_to_ground(h, l, d))
    (sh, ch), (sl, cl), (sd, cd) = (trig.sincos(v) for v in (h, l, d))
    # the source in the equatorial frame, turned about the east axis by the latitude
    e.prove("east", x == -cd * sh)
    e.prove("north", y == cl * sd - sl * cd * ch)
    e.prove("up", z == sl * sd + cl * cd * ch)
    e.prove("unit-vector", x * x + y * y + z * z == 1)
    bx, by, bz = Real("bx"), Real("by"), Real("bz")
    e.prove("projection", zr(sp.projected_distance(h, l, d, bx, by, bz)) == zr(bx) * x + zr(by) * y + zr(bz) * z)
    e.prove("projection-without-height", zr(sp.projected_distance(h, l, d, bx, by)) == zr(bx) * x + zr(by) * y)
    e.cover("path-end")


def pf_gback(e):
    from caput.astro.coordinates import spherical as sp
    from pv import trig

    x, y, l = Real("x"), Real("y"), Real("lat")
    e.assume(x * x + y * y < 1)
    e.cover("path-end")
    h, d = sp.ground_to_sph(x, y, l)
    z = trig.sqrt(1 - x**2 - y**2).z
    (sh, ch), (sl, cl), (sd, cd) = (trig.sincos(v) for v in (h, l, d))
    e.prove("hour-angle-range", z3.And(zr(h) >= -trig.PI, zr(h) <= trig.PI))
    xe, ye, ze = z * cl - zr(y) * sl, zr(x), zr(y) * cl + z * sl
    e.prove("unit", xe * xe + ye * ye + ze * ze == 1)
    e.add(xe * xe + ye * ye + ze * ze == 1)
    q = trig.sqrt(SReal(xe * xe + ye * ye)).z
    e.prove("declination-range", z3.And(cd >= 0, zr(d) >= -trig.PI, zr(d) <= trig.PI))
    e.prove("sin-dec", sd == ze)
    e.prove("cos-dec", cd == q)
    e.add(z3.And(sd == ze, cd == q))
    e.prove("cos-ha", q * ch == xe)
    e.prove("sin-ha", q * sh == -ye)
    e.add(z3.And(q * ch == xe, q * sh == -ye))
    # with these the position itself is recovered
    gx, gy, gz = -ye * -1, cl * ze - sl * xe, sl * ze + cl * xe
    e.prove("east-recovered", gx == zr(x))
    e.prove("north-recovered", gy == zr(y))
    e.prove("up-recovered", gz == z)


def pf_rot(e):
    from caput.astro.coordinates import spherical as sp
    from pv import trig

    a, b, c = Real("yaw"), Real("pitch"), Real("roll")
    v = [Real(k) for k in "xyz"]
    o = [zr(t) for t in sp.rotate_ypr((a, b, c), *v)]
    (sa, ca), (sb, cb), (sc, cc) = (trig.sincos(t) for t in (a, b, c))
    x, y, z = (zr(t) for t in v)
    x1, y1, z1 = ca * x - sa * y, sa * x + ca * y, z
    x2, y2, z2 = x1, cb * y1 + sb * z1, cb * z1 - sb * y1
    e.prove("length-after-yaw", x1 * x1 + y1 * y1 + z1 * z1 == x * x + y * y + z * z)
    e.prove("x", o[0] == cc * x2 - sc * z2)
    e.prove("y", o[1] == y2)
    e.prove("z", o[2] == sc * x2 + cc * z2)
    e.prove("length-after-pitch", x2 * x2 + y2 * y2 + z2 * z2 == x1 * x1 + y1 * y1 + z1 * z1)
    X, Z = z3.Reals("X Z")
    e.prove("length-after-roll", z3.Implies(z3.And(sc * sc + cc * cc == 1), (cc * X - sc * Z) * (cc * X - sc * Z) + (sc * X + cc * Z) * (sc * X + cc * Z) == X * X + Z * Z))
    e.cover("path-end")


class Ang:
    __pv_symbolic__ = True

    def __init__(self, radians=None, **k):
        self.radians = radians


def pf_dist(e):
    from caput.astro.coordinates import spherical as sp
    from pv import trig

    sp.Angle = Ang
    lo1, la1, lo2, la2 = (Ang(Real(k)) for k in ("long1", "lat1", "long2", "lat2"))
    a1, a2, b1, b2 = (zr(q.radians) for q in (lo1, lo2, la1, la2))
    (sa1, ca1), (sa2, ca2), (sb1, cb1), (sb2, cb2) = (trig.sincos(SReal(q)) for q in (a1, a2, b1, b2))
    # addition theorems and half angles for the two differences
    for p, q, (sp1, cp1), (sq, cq) in ((a1, a2, (sa1, ca1), (sa2, ca2)), (b1, b2, (sb1, cb1), (sb2, cb2))):
        hs, hc = trig.sincos(SReal((p - q) / 2))
        e.add(1 - 2 * hs * hs == cp1 * cq + sp1 * sq)
        e.add(2 * hs * hc == sp1 * cq - cp1 * sq)
    dot = cb1 * cb2 * (ca1 * ca2 + sa1 * sa2) + sb1 * sb2
    # Cauchy: the scalar product of two unit vectors
    u, v = [cb1 * ca1, cb1 * sa1, sb1], [cb2 * ca2, cb2 * sa2, sb2]
    e.prove("unit-1", sum(t * t for t in u) == 1)
    e.prove("unit-2", sum(t * t for t in v) == 1)
    U_, V_ = z3.Reals("u1 u2 u3"), z3.Reals("v1 v2 v3")
    dd = sum(p * q for p, q in zip(U_, V_))
    e.prove("lagrange", dd * dd + sum((U_[i] * V_[j] - U_[j] * V_[i]) * (U_[i] * V_[j] - U_[j] * V_[i]) for i, j in ((0, 1), (1, 2), (2, 0)))
            == sum(p * p for p in U_) * sum(p * p for p in V_))
    e.add(z3.And(dot <= 1, dot >= -1))
    # the haversine formula
    ha, hb = trig.sincos(SReal((a1 - a2) / 2))[0], trig.sincos(SReal((b1 - b2) / 2))[0]
    w, h_, q_ = z3.Reals("w h q")
    e.prove("half-angle-times-a-factor", z3.Implies(1 - 2 * h_ == q_, w * h_ == w * (1 - q_) / 2))
    e.add(cb1 * cb2 * ha * ha == cb1 * cb2 * (1 - ca1 * ca2 - sa1 * sa2) / 2)
    e.prove("haversine", cb1 * cb2 * ha * ha + hb * hb == (1 - dot) / 2)
    e.add(cb1 * cb2 * ha * ha + hb * hb == (1 - dot) / 2)
    r = zr(sp.sphdist(lo1, la1, lo2, la2).radians)
    h = z3.simplify(r / 2, som=True)
    hs, hc = trig.sincos(SReal(h))
    e.prove("range", z3.And(r >= -trig.PI, r <= trig.PI, hs >= 0, hc >= 0))
    e.prove("cosine-of-the-distance", 1 - 2 * hs * hs == dot)
    e.cover("path-end")


def pf_circle(e):
    from pv import trig

    m = code(e)
    Ghost.cur = None
    n = Int("npoints", lo=2)
    j = Int("j", lo=0)
    e.assume(j < n)
    c = [[e.fresh(f"c{q}{k}", "real") for k in "xyz"] for q in (1, 2)]
    for v in c:
        e.add(sum(t * t for t in v) == 1)
    dot = sum(a * b for a, b in zip(*c))
    e.add(z3.And(dot > -1, dot <= 1))
    vecs = [SArr._make((lambda v: lambda i: SReal(z3.If(zi(i[0]) == 0, v[0], z3.If(zi(i[0]) == 1, v[1], v[2]))))(v), (3,), float) for v in c]
    dd = sum((b - a) * (b - a) for a, b in zip(*c))
    e.prove("chord", dd == 2 - 2 * dot)
    s = trig.sqrt(SReal(dd)).z
    e.prove("chord-at-most-2", s <= 2)
    e.add(s <= 2)
    P, Q = object(), object()
    got = []

    class Stop(Exception):
        pass

    old = m.sph_to_cart, m.cart_to_sph
    m.sph_to_cart = lambda x: vecs[0] if x is P else vecs[1]

    def c2s(x):
        got.append(x)
        raise Stop

    m.cart_to_sph = c2s
    try:
        m.great_circle_points(P, Q, n)
    except Stop:
        pass
    finally:
        m.sph_to_cart, m.cart_to_sph = old
    cv = got[0]
    e.prove("shape", And(SInt(zi(cv.shape[0])) == n, cv.shape[1] == 3))
    f = z3.ToReal(zi(j)) / z3.ToReal(zi(n) - 1)
    # the angle between the endpoints, from its definition
    th = trig.arcsin(SReal(s / 2)).z * 2
    A = f * th
    e.prove("fraction", z3.And(0 <= f, f <= 1))
    e.add(th / 2 < trig.PI / 2)  # arcsin is strictly increasing and the points are not antipodal
    e.prove("step-range", z3.And(A - th / 2 < trig.PI / 2, A - th / 2 > -trig.PI / 2))
    sA, sB = trig.sincos(SReal(A))[0], trig.sincos(SReal(th - A))[0]
    C = trig.sincos(SReal(A - th / 2))[1]
    e.add(C > 0)  # the cosine is positive in that range
    e.add(2 * trig.sincos(SReal(th / 2))[0] * C == sA + sB)  # sum to product
    e.prove("chord-times-cosine", s * C == sA + sB)
    D, C_, SA, SB, P_, Q_ = z3.Reals("D C SA SB P Q")
    e.prove("equal-steps", z3.Implies(z3.And(D * C_ == SA + SB, D > 0, C_ > 0), (P_ + ((Q_ - P_) / D) * (SA / C_)) * (SA + SB) == SB * P_ + SA * Q_), facts=[])
    for t in (C, s):  # both are positive (or the points are equal): no case distinction in the divisions
        for q in (t == 0, 0 == t):
            q = z3.simplify(q)
            if t is C:
                e.known[q.get_id()] = (q, False)
    if e.fork(s == 0):
        for k in range(3):
            e.prove(f"equal-points-{'xyz'[k]}", zr(cv.at(j, k)) == c[0][k])
    else:
        for k in range(3):
            e.prove(f"along-the-chord-{'xyz'[k]}", zr(cv.at(j, k)) == c[0][k] + ((c[1][k] - c[0][k]) / s) * (sA / C))
    e.cover("path-end")


KS = M + ":"
PROOFS = [
    Proof(f"sph_to_cart_{nd}", pf_s2c(nd), [S + "sph_to_cart", S + "_s2c"], abstract=True, covers=["path-end"],
          loops={f"{KS}sph_to_cart#{1 if nd == 2 else 2}": rows_contract(spec_s2c)}) for nd in (2, 3)
] + [
    Proof("thetaphi_plane_cart", pf_plane_cart, [S + "thetaphi_plane_cart", S + "_s2c"], abstract=True, covers=["path-end"], loops={f"{KS}thetaphi_plane_cart#1": rows_contract(spec_plane)}),
    Proof("norm_vec2", pf_norm, [S + "norm_vec2"], abstract=True, covers=["path-end"], loops={f"{KS}norm_vec2#1": norm_loop()}),
    Proof("cosine_rule", pf_cosine, [S + "cosine_rule"], abstract=True, covers=["path-end"], loops={f"{KS}cosine_rule#{d + 1}": grid_loop(d) for d in range(3)}),
    Proof("cart_to_sph", pf_c2s, [S + "cart_to_sph"], abstract=True, covers=["path-end"]),
    Proof("thetaphi_plane_2", pf_plane(2), [S + "thetaphi_plane"], abstract=True, covers=["path-end"]),
    Proof("thetaphi_plane_3", pf_plane(3), [S + "thetaphi_plane"], abstract=True, covers=["path-end"]),
    Proof("sph_dot", pf_dot, [S + "sph_dot"], abstract=True, covers=["path-end"], assumes=["sph_to_cart at its contract"]),
    Proof("ground", pf_ground, [S + "sph_to_ground", S + "projected_distance"], abstract=True, covers=["path-end"]),
    Proof("ground_back", pf_gback, [S + "ground_to_sph"], abstract=True, covers=["path-end"]),
    Proof("rotation", pf_rot, [S + "rotate_ypr"], abstract=True, covers=["path-end"]),
    Proof("great_circle", pf_circle, [S + "great_circle_points"], abstract=True, covers=["path-end"], assumes=["sph_to_cart and cart_to_sph at their contracts"]),
    Proof("distance", pf_dist, [S + "sphdist"], abstract=True, covers=["path-end"]),
]

# ---------------------------------------------------------------- run time
DTS = ["float64", "float64", "float64", "float32", "int64", "int32", ">f8", "int8"]
LAYS = ["C", "F", "step", "rev", "T3", "ro"]


def angle(rng, lo, hi):
    import math

    k = rng.randrange(8)
    if k == 0:
        return lo
    if k == 1:
        return hi
    if k == 2:
        return rng.choice([x for x in (0.0, math.pi / 2, -math.pi / 2, math.pi / 4, -math.pi, math.pi) if lo <= x <= hi] or [lo])
    if k == 3:
        return min(hi, max(lo, rng.choice([lo, hi, 0.0]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -2)))
    return rng.uniform(lo, hi)


def shape_of(rng):
    return [rng.choice([0, 1, 2, 3, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def build(vals, shape, dt, lay):
    import numpy as np

    a = np.array(vals, dtype=float).reshape(shape)
    if np.dtype(dt).kind in "iu":
        a = np.round(a * 3)
    a = a.astype(dt)
    return relay(a, lay)


def relay(a, lay):
    import numpy as np

    if lay == "F":
        return np.asfortranarray(a)
    if lay == "step":
        b = np.zeros([2 * s + 1 for s in a.shape], dtype=a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if lay == "rev":
        k = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[k])[k]
    if lay == "T3":
        p = list(range(a.ndim))
        p = p[1:] + p[:1]
        return np.ascontiguousarray(a.transpose(p)).transpose([p.index(k) for k in range(a.ndim)])
    if lay == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def gen_conv(rng, i):
    import math

    nd = rng.choice([2, 3])
    shape = shape_of(rng)
    n = count(shape)
    vals = []
    for _ in range(n):
        v = [angle(rng, 0.0, math.pi), angle(rng, -math.pi, math.pi)]
        vals.append(([rng.choice([1.0, 2.0, 0.25, 1e-6, 3e5])] if nd == 3 else []) + v)
    return {"vals": vals, "shape": [*shape, nd], "dt": rng.choice(DTS), "lay": rng.choice(LAYS)}


def cart(r, t, p):
    import math

    return (r * math.sin(t) * math.cos(p), r * math.sin(t) * math.sin(p), r * math.cos(t))


def rows(a):
    """(index, the numbers along the last axis) of every row."""
    import numpy as np

    for i in np.ndindex(a.shape[:-1]):
        yield i, [float(x) for x in a[i]]


def near(x, y, tol, scale=1.0):
    return abs(float(x) - float(y)) <= tol * max(scale, 1e-300)


def rtp(row):
    return (1.0, *row) if len(row) == 2 else tuple(row)


def prec(a):
    import numpy as np

    return 1e-6 if np.dtype(a.dtype) == np.float32 else 1e-12


def chk_conv(c):
    """sph_to_cart is the definition; cart_to_sph undoes it, in the documented ranges."""
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    a = build(c["vals"], c["shape"], c["dt"], c["lay"])
    before = a.copy()
    x = sp.sph_to_cart(a)
    if not np.array_equal(a, before):
        return "sph_to_cart changed its argument"
    if x.shape != (*a.shape[:-1], 3) or x.dtype != np.float64:
        return f"sph_to_cart of shape {a.shape} gives shape {x.shape}, {x.dtype}"
    for i, row in rows(a):
        r, t, p = rtp(row)
        e = cart(r, t, p)
        if not all(near(u, v, 1e-13, abs(r)) for u, v in zip(x[i], e)):
            return f"sph_to_cart{tuple(row)} = {x[i]}, not {e}"
    y = relay(x.astype("f8" if np.dtype(c["dt"]).kind != "f" else c["dt"]), c["lay"])
    s = sp.cart_to_sph(y)
    return inverse(y, s, np, math)


def inverse(y, s, np, math):
    if s.shape != y.shape or np.dtype(s.dtype).kind != "f":
        return f"cart_to_sph of {y.dtype} {y.shape} gives {s.dtype} {s.shape}"
    tol = 2e-3 if np.dtype(y.dtype) == np.float32 else 1e-7
    for i, v in rows(y):
        n = math.sqrt(sum(u * u for u in v))
        if n == 0:
            continue
        r, t, p = (float(u) for u in s[i])
        eps = 1e-6 if np.dtype(s.dtype) == np.float32 else 0
        if not (r >= 0 and -eps <= t <= math.pi + eps and -math.pi - eps <= p <= math.pi + eps):
            return f"cart_to_sph{tuple(v)} = {(r, t, p)} is out of range"
        if not near(r, n, 1e-6 if eps else 1e-13, n):
            return f"cart_to_sph{tuple(v)} has radius {r}, not {n}"
        if not all(near(a, b, tol, n) for a, b in zip(cart(r, t, p), v)):
            return f"cart_to_sph{tuple(v)} = {(r, t, p)} does not lead back"
        h = math.hypot(v[0], v[1])
        if h > 1e-30 * n and not near(math.remainder(p - math.atan2(v[1], v[0]), 2 * math.pi), 0, 1e-6 if eps else 1e-13):
            return f"cart_to_sph{tuple(v)} has azimuth {p}"
    return None


def gen_back(rng, i):
    shape = shape_of(rng)
    sc = rng.choice([1.0, 1.0, 1e-5, 1e6])
    return {"vals": [[sc * rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)]) for _ in range(3)] for _ in range(count(shape))], "shape": [*shape, 3],
            "dt": rng.choice(DTS), "lay": rng.choice(LAYS)}


def chk_back(c):
    """cart_to_sph then sph_to_cart is the identity, also for integers."""
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    a = build(c["vals"], c["shape"], "f8" if c["dt"] == "int8" and max([abs(u) for v in c["vals"] for u in v] or [0]) > 30 else c["dt"], c["lay"])
    before = a.copy()
    with np.errstate(all="ignore"):
        s = sp.cart_to_sph(a)
    if not np.array_equal(a, before):
        return "cart_to_sph changed its argument"
    m = inverse(a, s, np, math)
    if m:
        return m
    x = sp.sph_to_cart(s)
    for i, v in rows(a):
        n = math.sqrt(sum(u * u for u in v))
        if n and not all(near(u, w, 2e-3 if np.dtype(s.dtype) == np.float32 else 1e-7, n) for u, w in zip(x[i], v)):
            return f"{tuple(v)} became {x[i]} after cart_to_sph and sph_to_cart"
    return None


def gen_dot(rng, i):
    import math

    full = shape_of(rng)[:3]

    def sub(k):
        cut = rng.randint(0, len(full))
        s = [1 if rng.random() < 0.3 else q for q in full[cut:]]
        nd = rng.choice([2, 3])
        return {"shape": [*s, nd], "vals": [([rng.choice([1.0, 2.0, 0.5])] if nd == 3 else []) + [angle(rng, 0, math.pi), angle(rng, -math.pi, math.pi)] for _ in range(count(s))],
                "dt": rng.choice(DTS), "lay": rng.choice(LAYS)}

    return {"a": sub(0), "b": sub(1)}


def chk_dot(c):
    import numpy as np
    from caput.astro.coordinates import spherical as sp

    a, b = (build(q["vals"], q["shape"], q["dt"], q["lay"]) for q in (c["a"], c["b"]))
    d = np.asarray(sp.sph_dot(a, b))
    shp = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    if d.shape != shp:
        return f"sph_dot of {a.shape} and {b.shape} has shape {d.shape}"
    A = np.broadcast_to(a, (*shp, a.shape[-1]))
    B = np.broadcast_to(b, (*shp, b.shape[-1]))
    for i in np.ndindex(shp):
        u, v = cart(*rtp([float(k) for k in A[i]])), cart(*rtp([float(k) for k in B[i]]))
        e = sum(p * q for p, q in zip(u, v))
        if not near(d[i], e, 1e-12, max(1.0, sum(p * p for p in u) ** 0.5 * sum(p * p for p in v) ** 0.5)):
            return f"sph_dot({A[i]}, {B[i]}) = {d[i]}, not {e}"
    return None


def chk_plane(c):
    """The unit vectors of increasing theta and phi, in both forms."""
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    a = build(c["vals"], c["shape"], c["dt"], c["lay"])
    before = a.copy()
    th, ph = sp.thetaphi_plane(a)
    if not np.array_equal(a, before):
        return "thetaphi_plane changed its argument"
    if th.shape != a.shape or ph.shape != a.shape:
        return f"thetaphi_plane of {a.shape} gives {th.shape}, {ph.shape}"
    if np.shares_memory(th, a) or np.shares_memory(ph, a) or np.shares_memory(th, ph):
        return "thetaphi_plane results share memory"
    pc = None
    if a.shape[-1] == 2:
        pc = sp.thetaphi_plane_cart(a)
        if pc.shape != (2, *a.shape[:-1], 3):
            return f"thetaphi_plane_cart of {a.shape} gives {pc.shape}"
    tol = 2e-6 if np.dtype(th.dtype) == np.float32 else 1e-13
    for i, row in rows(a):
        r, t, p = rtp(row)
        et = (math.cos(t) * math.cos(p), math.cos(t) * math.sin(p), -math.sin(t))
        ep = (-math.sin(p), math.cos(p), 0.0)
        got = [(cart(*rtp([float(k) for k in th[i]])), cart(*rtp([float(k) for k in ph[i]])), tol, "thetaphi_plane")]
        if pc is not None:
            got.append((pc[(0, *i)], pc[(1, *i)], 1e-13, "thetaphi_plane_cart"))
        for g, h, q, name in got:
            s = max(1.0, abs(t), abs(p))
            if not all(near(x, y, q * s) for x, y in zip(g, et)):
                return f"{name}: theta direction at {row} is {g}, not {et}"
            if not all(near(x, y, q * s) for x, y in zip(h, ep)):
                return f"{name}: phi direction at {row} is {h}, not {ep}"
    if pc is not None and not np.array_equal(a, before):
        return "thetaphi_plane_cart changed its argument"
    return None


def gen_norm(rng, i):
    shape = shape_of(rng)
    return {"vals": [rng.choice([[3, 4], [-1, 0], [0, 2], [rng.uniform(-9, 9), rng.uniform(0.1, 5)], [1e-5, -1e-5], [1e200, 1e200]]) for _ in range(count(shape))], "shape": [*shape, 2],
            "dt": rng.choice(["float64", "float64", "float32", ">f8"]), "lay": rng.choice(LAYS[:5])}


def chk_norm(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    vals = [[1.0, 2.0] if c["dt"] == "float32" and v[0] > 1e30 else v for v in c["vals"]]
    a = build(vals, c["shape"], c["dt"], c["lay"])
    before = a.copy()
    try:
        if sp.norm_vec2(a) is not None:
            return "norm_vec2 returned something"
    except (ValueError, TypeError):
        # refusing an argument is not a silent error, but then nothing may have changed
        if a.dtype == np.float64 and a.dtype.isnative:
            return "norm_vec2 refused an array of doubles"
        return None if np.array_equal(a, before) else "refused, but changed"
    for i, v in rows(before):
        n = math.hypot(*v)
        if not all(near(x, y / n, 2e-7 if a.dtype == np.float32 else 1e-15) for x, y in zip(a[i], v)):
            return f"norm_vec2 left {a[i]} for {v}"
    return None


def gen_circle(rng, i):
    import math

    p = [angle(rng, 0, math.pi), angle(rng, -math.pi, math.pi)]
    q = [angle(rng, 0, math.pi), angle(rng, -math.pi, math.pi)]
    if rng.random() < 0.3:
        q = [min(math.pi, max(0, p[0] + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-9, 0))), p[1] + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-9, 0)]
    return {"p": p, "q": q, "n": rng.choice([1, 2, 3, 7, 20])}


def chk_circle(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    p, q = np.array(c["p"]), np.array(c["q"])
    u, v = cart(1, *c["p"]), cart(1, *c["q"])
    d = math.dist(u, v)
    if d > 2 - 1e-6:
        return None
    ang = 2 * math.asin(min(1.0, d / 2))
    with np.errstate(all="ignore"):
        g = sp.great_circle_points(p, q, c["n"])
    if g.shape != (c["n"], 2):
        return f"{c['n']} points have shape {g.shape}"
    for k, row in enumerate(np.asarray(g)):
        f = k / (c["n"] - 1) if c["n"] > 1 else 0.0
        if ang < 1e-12:
            e = u
        else:
            s, w = math.sin((1 - f) * ang) / math.sin(ang), math.sin(f * ang) / math.sin(ang)
            e = [s * x + w * y for x, y in zip(u, v)]
        x = cart(1, float(row[0]), float(row[1]))
        if not all(near(a, b, 3e-7) for a, b in zip(x, e)):
            return f"point {k} of {c['n']} from {c['p']} to {c['q']} is {row} = {x}, not {tuple(e)}"
        if not (0 <= row[0] <= math.pi and -math.pi <= row[1] <= math.pi):
            return f"point {row} is out of range"
    return None


def gen_cosine(rng, i):
    def vec(lo, hi):
        return [rng.choice([lo, hi, rng.uniform(lo, hi)]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]

    return {"mu": vec(-1.0, 1.0), "x1": vec(0.0, 3.0), "x2": vec(0.0, 3.0), "ro": rng.random() < 0.2}


def chk_cosine(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    a = [np.array(c[k], dtype=float) for k in ("mu", "x1", "x2")]
    if c["ro"]:
        for x in a:
            x.flags.writeable = False
    r = sp.cosine_rule(*a)
    if r.shape != tuple(len(x) for x in a):
        return f"cosine_rule has shape {r.shape}"
    for i, m in enumerate(c["mu"]):
        for j, x in enumerate(c["x1"]):
            for k, y in enumerate(c["x2"]):
                s = math.sqrt(max(0.0, 1 - m * m))
                e = math.hypot(x - y * m, y * s)
                if not near(r[i, j, k], e, 1e-7, max(1.0, x, y)):
                    return f"cosine_rule({m}, {x}, {y}) = {r[i, j, k]}, not {e}"
    return None


def gen_ground(rng, i):
    import math

    full = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]

    def arr(lo, hi):
        cut = rng.randint(0, len(full))
        s = [1 if rng.random() < 0.3 else q for q in full[cut:]]
        return {"s": s, "v": [angle(rng, lo, hi) for _ in range(count(s))], "py": rng.random() < 0.5}

    h = math.pi / 2
    return {"ha": arr(-math.pi, math.pi), "lat": arr(-h, h), "dec": arr(-h, h), "x": arr(-50, 50), "y": arr(-50, 50), "z": arr(-5, 5), "noz": rng.random() < 0.3}


def num(q):
    import numpy as np

    a = np.array(q["v"]).reshape(q["s"])
    return float(a) if q["s"] == [] and q["py"] else a


def chk_ground(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    ha, lat, dec, bx, by, bz = (num(c[k]) for k in ("ha", "lat", "dec", "x", "y", "z"))
    args = (ha, lat, dec, bx, by, bz)
    before = [np.array(v, copy=True) for v in args]
    x, y, z = sp.sph_to_ground(ha, lat, dec)
    dist = sp.projected_distance(ha, lat, dec, bx, by, bz)
    dist0 = sp.projected_distance(ha, lat, dec, bx, by)
    if not all(np.array_equal(u, v) for u, v in zip(before, args)):
        return "an argument was changed"
    shp = np.broadcast_shapes(*(np.shape(v) for v in (ha, lat, dec)))
    for w in (y, z):
        if np.shape(w) != shp:
            return f"sph_to_ground gives shape {np.shape(w)}"
    X, Y, Z, H, L, D = np.broadcast_arrays(x, y, z, ha, lat, dec)
    for i in np.ndindex(X.shape):
        h, l, d = float(H[i]), float(L[i]), float(D[i])
        # direction of the source in the equatorial frame (x to the meridian, y to the west): turn about the east axis
        e, m, n = -math.cos(d) * math.sin(h), math.cos(d) * math.cos(h), math.sin(d)
        want = (e, n * math.cos(l) - m * math.sin(l), n * math.sin(l) + m * math.cos(l))
        if not all(near(u, v, 1e-14) for u, v in zip((X[i], Y[i], Z[i]), want)):
            return f"sph_to_ground{(h, l, d)} = {(X[i], Y[i], Z[i])}, not {want}"
        if Z[i] > 1e-3:
            h2, d2 = sp.ground_to_sph(float(X[i]), float(Y[i]), l)
            if not (-math.pi <= h2 <= math.pi and -math.pi / 2 <= d2 <= math.pi / 2):
                return f"ground_to_sph gives {(h2, d2)}"
            if not near(d2, d, 1e-9) and not near(abs(d), math.pi / 2, 1e-6):
                return f"declination {d} came back as {d2}"
            if abs(d) < math.pi / 2 - 1e-6 and not near(math.remainder(h2 - h, 2 * math.pi), 0, 1e-7 / math.cos(d)):
                return f"hour angle {h} came back as {h2}"
    full = np.broadcast_shapes(shp, *(np.shape(v) for v in (bx, by, bz)))
    if np.shape(dist) != full:
        return f"projected_distance has shape {np.shape(dist)}, not {full}"
    P, X, Y, Z, BX, BY, BZ = np.broadcast_arrays(dist, x, y, z, bx, by, bz)
    P0 = np.broadcast_to(dist0, P.shape)
    for i in np.ndindex(P.shape):
        e0 = float(BX[i] * X[i] + BY[i] * Y[i])
        if not near(P[i], e0 + float(BZ[i] * Z[i]), 1e-12, 100) or not near(P0[i], e0, 1e-12, 100):
            return f"projected_distance of {(BX[i], BY[i], BZ[i])} is {P[i]} (without height {P0[i]})"
    return None


def gen_gback(rng, i):
    import math

    r, a = math.sqrt(rng.uniform(0, 0.98)), rng.uniform(-math.pi, math.pi)
    if rng.random() < 0.3:
        return {"x": rng.choice([0.0, 0.5, -0.5]), "y": rng.choice([0.0, 0.5, -0.5, 0.8]), "lat": angle(rng, -math.pi / 2, math.pi / 2)}
    return {"x": r * math.cos(a), "y": r * math.sin(a), "lat": angle(rng, -math.pi / 2, math.pi / 2)}


def chk_gback(c):
    import math

    from caput.astro.coordinates import spherical as sp

    h, d = sp.ground_to_sph(c["x"], c["y"], c["lat"])
    x, y, z = sp.sph_to_ground(h, c["lat"], d)
    e = (c["x"], c["y"], math.sqrt(1 - c["x"] ** 2 - c["y"] ** 2))
    if not all(near(u, v, 1e-9) for u, v in zip((x, y, z), e)):
        return f"position {e} came back as {(x, y, z)} (latitude {c['lat']})"
    return None


def gen_rot(rng, i):
    import math

    a = [angle(rng, -math.pi, math.pi) if rng.random() < 0.8 else 0.0 for _ in range(3)]
    n = rng.choice([None, None, 1, 3])
    return {"rot": a, "v": [[rng.uniform(-2, 2) for _ in range(n or 1)] for _ in range(3)], "n": n}


def chk_rot(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp

    v = [np.array(q) if c["n"] else float(q[0]) for q in c["v"]]
    before = [np.array(q, copy=True) for q in v]
    rot = list(c["rot"])
    out = sp.rotate_ypr(rot, *v)
    if rot != c["rot"] or not all(np.array_equal(p, q) for p, q in zip(before, v)):
        return "rotate_ypr changed its argument"
    y, p, r = c["rot"]
    Y = np.array([[math.cos(y), -math.sin(y), 0], [math.sin(y), math.cos(y), 0], [0, 0, 1]])
    P = np.array([[1, 0, 0], [0, math.cos(p), math.sin(p)], [0, -math.sin(p), math.cos(p)]])
    R = np.array([[math.cos(r), 0, -math.sin(r)], [0, 1, 0], [math.sin(r), 0, math.cos(r)]])
    e = R @ P @ Y @ np.array(before)
    if not np.allclose(np.array(out), e, atol=1e-13, rtol=0):
        return f"rotate_ypr({c['rot']}) of {before} is {out}, not {e}"
    return None


def gen_dist(rng, i):
    import math

    h = math.pi / 2
    n = rng.choice([None, None, 1, 3])
    m = rng.choice([n, n, None])

    def pts(k):
        return [[angle(rng, -math.pi, math.pi), angle(rng, -h, h)] for _ in range(k or 1)]

    a, b = pts(n), pts(m)
    if rng.random() < 0.4:
        for k in range(len(b)):
            q = a[k % len(a)]
            b[k] = [q[0] + math.pi, -q[1]] if rng.random() < 0.5 else [q[0] + 10 ** rng.uniform(-12, 0), q[1]]
    return {"a": a, "b": b, "n": n, "m": m}


def chk_dist(c):
    import math

    import numpy as np
    from caput.astro.coordinates import spherical as sp
    from skyfield.units import Angle

    def ang(pts, k, scalar):
        v = [p[k] for p in pts]
        return Angle(radians=v[0] if scalar else np.array(v))

    lo1, la1, lo2, la2 = ang(c["a"], 0, not c["n"]), ang(c["a"], 1, not c["n"]), ang(c["b"], 0, not c["m"]), ang(c["b"], 1, not c["m"])
    with np.errstate(all="ignore"):
        d = np.atleast_1d(sp.sphdist(lo1, la1, lo2, la2).radians)
        back = np.atleast_1d(sp.sphdist(lo2, la2, lo1, la1).radians)
    n = max(len(c["a"]), len(c["b"]))
    if len(d) != n:
        return f"{len(d)} distances for {n} pairs"
    for k in range(n):
        p, q = c["a"][k % len(c["a"])], c["b"][k % len(c["b"])]
        u, v = cart(1, math.pi / 2 - p[1], p[0]), cart(1, math.pi / 2 - q[1], q[0])
        x = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        e = math.atan2(math.sqrt(sum(w * w for w in x)), sum(a * b for a, b in zip(u, v)))
        tol = 1e-7 if e > 3.0 else 1e-12
        if not near(d[k], e, tol) or not near(back[k], d[k], tol):
            return f"distance of {p} and {q} is {d[k]} (reversed {back[k]}), not {e}"
    return None


FALSIFIERS = [
    Falsifier("conversion", gen_conv, chk_conv, n=400, thorough=6000),
    Falsifier("inverse", gen_back, chk_back, n=300, thorough=6000, fixed=[{"vals": [[1, 1, 0]], "shape": [1, 3], "dt": "int64", "lay": "C"}]),
    Falsifier("dot", gen_dot, chk_dot, n=300, thorough=4000),
    Falsifier("plane", gen_conv, chk_plane, n=400, thorough=5000),
    Falsifier("normalise", gen_norm, chk_norm, n=200, thorough=2000),
    Falsifier("circle", gen_circle, chk_circle, n=400, thorough=6000),
    Falsifier("cosine_rule", gen_cosine, chk_cosine, n=150, thorough=2000),
    Falsifier("ground", gen_ground, chk_ground, n=300, thorough=4000),
    Falsifier("ground_back", gen_gback, chk_gback, n=300, thorough=4000),
    Falsifier("rotation", gen_rot, chk_rot, n=200, thorough=2000),
    Falsifier("distance", gen_dist, chk_dist, n=300, thorough=6000),
]

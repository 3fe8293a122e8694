"""numpy operations on distributed arrays equal the serial result, or are refused."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "element-wise kernels, folds and prefix folds of numpy are uninterpreted functions of their operands",
    "array rank 1 to 3, all axes; extents, communicator size and rank unbounded",
]
_FN = ["caput.mpiarray.MPIArray.__array_ufunc__", "caput.mpiarray.MPIArray._array_ufunc_call",
       "caput.mpiarray._check_dist_axis", "caput.mpiarray._get_common_comm", "caput.mpiarray._mpi_to_ndarray"]


def _setup(e, dims=(1, 2, 3)):
    from contracts import mpi_model as M

    M.install()
    comm = M.new_comm()
    nd = dims[e.choose(len(dims), "ndim")]
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    arr, G, part = M.make_mpiarray(e, shape, axis, comm)
    e.inputs["axis"], e.inputs["ndim"] = axis, nd
    e.assumed |= {M.A_SPLIT, M.A_NP}
    import numpy

    from pv import npsym

    return M, comm, nd, axis, shape, arr, G, part, npsym.facade


def _uf(name, *vals):
    f = z3.Function(f"ufunc_{name}", *([U] * len(vals)), U)
    return SVal(f(*[v.z for v in vals]))


def _result(e, M, r, gshape, axis, part, comm, want, pre):
    M.meta_ok(e, r, axis, gshape, part, comm, pre)
    x = M.local_index(e, r.shape)
    gi = [x[d] + part.start(comm.rank) if d == axis else x[d] for d in range(len(gshape))]
    e.prove(pre + "value", SBool(r.local_array[x].z == want(gi).z))


def p_scalar(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    v = Val("scalar")
    how = e.choose(3, "how")
    if how == 0:
        r = np.add(arr, v)
        w = lambda gi: _uf("add", G.at(*gi), v)  # noqa: E731
    elif how == 1:
        r = np.multiply(v, arr)
        w = lambda gi: _uf("multiply", v, G.at(*gi))  # noqa: E731
    else:
        r = np.negative(arr)
        w = lambda gi: _uf("negative", G.at(*gi))  # noqa: E731
    _result(e, M, r, shape, axis, part, comm, w, "scalar:")


def p_two(e):
    """Two distributed operands on the same axis, the second of any lower rank (aligned from the right)."""
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    lo = e.choose(axis + 1, "drop")
    sh = [shape[d] if d == axis or e.choose(2, f"one{d}") else 1 for d in range(lo, nd)]
    b, H, _ = M.make_mpiarray(e, tuple(sh), axis - lo, comm, "H")
    swap = e.choose(2, "swap")
    r = np.subtract(b, arr) if swap else np.subtract(arr, b)

    def w(gi):
        hi = [(0 if (isinstance(sh[d - lo], int)) else gi[d]) for d in range(lo, nd)]
        x, y = G.at(*gi), H.at(*hi)
        return _uf("subtract", y, x) if swap else _uf("subtract", x, y)

    _result(e, M, r, shape, axis, part, comm, w, "two:")


def p_inplace(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    b, H, _ = M.make_mpiarray(e, shape, axis, comm, "H")
    a0 = arr
    arr += b
    e.prove("inplace:same-object", SBool(z3.BoolVal(arr is a0)))
    _result(e, M, arr, shape, axis, part, comm, lambda gi: _uf("add", G.at(*gi), H.at(*gi)), "inplace:")


def p_numpy(e):
    """A plain array operand: combined when it has extent 1 (or no axis) at the distributed axis."""
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    k = e.choose(nd + 1, "rank")  # rank of the plain operand
    sh = []
    for d in range(nd - k, nd):
        sh.append(1 if d == axis or e.choose(2, f"one{d}") == 0 else shape[d])
    if k == 0:
        raise PathEnd_()
    F = M.GlobalArray(sh, "F")
    b = SArr._make(lambda idx: F.at(*idx), tuple(sh))
    r = np.add(arr, b)

    def w(gi):
        fi = [(0 if isinstance(sh[d - (nd - k)], int) else gi[d]) for d in range(nd - k, nd)]
        return _uf("add", G.at(*gi), F.at(*fi))

    _result(e, M, r, shape, axis, part, comm, w, "numpy:")


def PathEnd_():
    from pv.sym import PathEnd

    return PathEnd()


def _refused(e, name, f):
    try:
        f()
    except (ValueError, TypeError):
        e.prove(name, SBool(z3.BoolVal(True)))
        return
    e.fail(name, "accepted")


def p_refuse(e):
    """Operands whose distributed axes do not correspond are refused."""
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    which = e.choose(4, "which")
    if which == 0:  # another distributed axis
        if nd == 1:
            raise PathEnd_()
        ax2 = (axis + 1 + e.choose(nd - 1, "ax2")) % nd
        b, _, _ = M.make_mpiarray(e, shape, ax2, comm, "H")
        _refused(e, "refuse:other-axis", lambda: np.add(arr, b))
    elif which == 1:  # another global length
        sh = list(shape)
        sh[axis] = Int("other", lo=0)
        e.assume(Not(sh[axis] == shape[axis]))
        b, _, _ = M.make_mpiarray(e, tuple(sh), axis, comm, "H")
        _refused(e, "refuse:other-length", lambda: np.add(arr, b))
    elif which == 2:  # plain array with an extent that is neither 1 nor the local length
        sh = list(shape)
        sh[axis] = Int("other", lo=0)
        e.assume(Not(Or(sh[axis] == 1, sh[axis] == part.count(comm.rank))))
        F = M.GlobalArray(sh, "F")
        b = SArr._make(lambda idx: F.at(*idx), tuple(sh))
        _refused(e, "refuse:plain-array-of-other-extent", lambda: np.add(arr, b))
    else:  # two communicators
        comm2 = M.SymComm(comm.rank, comm.size)
        b, _, _ = M.make_mpiarray(e, shape, axis, comm2, "H")
        _refused(e, "refuse:other-communicator", lambda: np.add(arr, b))


def _red(kind, name, fn, n, at=None):
    from pv import npsym

    return npsym._fold(kind, name, fn, n, at)


def p_reduce(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e, (2, 3))
    ax = e.choose(nd, "ax")
    keep = bool(e.choose(2, "keep"))
    neg = e.choose(2, "neg")
    if nd == 3 and e.choose(2, "both"):
        # two axes at once
        axs = tuple(d for d in range(3) if d != ax)
    else:
        axs = (ax,)
    e.inputs["axs"] = list(axs)
    arg = tuple(a - nd if neg else a for a in axs)
    if len(arg) == 1 and e.choose(2, "bare"):
        arg = arg[0]
    if axis in axs:
        _refused(e, "reduce:over-distributed-axis-refused", lambda: np.add.reduce(arr, axis=arg, keepdims=keep))
        return
    r = np.add.reduce(arr, axis=arg, keepdims=keep)
    gs = [(1 if d in axs else shape[d]) for d in range(nd) if keep or d not in axs]
    na = axis if keep else axis - sum(1 for d in axs if d < axis)

    def w(gi):
        left = iter(gi)
        pos = {}
        for d in range(nd):
            if keep or d not in axs:
                v = next(left)
                if d not in axs:
                    pos[d] = v

        def go(todo, known):
            if not todo:
                return G.at(*[known[d] for d in range(nd)])
            d = todo[0]
            return _red("reduce", "add", lambda t: go(todo[1:], {**known, d: t}), shape[d])

        return go(sorted(axs), pos)

    _result(e, M, r, gs, na, part, comm, w, "reduce:")


def p_accumulate(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e, (1, 2, 3))
    ax = e.choose(nd, "ax")
    neg = e.choose(2, "neg")
    arg = ax - nd if neg else ax
    if ax == axis:
        _refused(e, "accumulate:over-distributed-axis-refused", lambda: np.add.accumulate(arr, axis=arg))
        return
    r = np.add.accumulate(arr, axis=arg)

    def w(gi):
        return _red("accumulate", "add", lambda t: G.at(*[t if d == ax else gi[d] for d in range(nd)]), shape[ax], gi[ax])

    _result(e, M, r, shape, axis, part, comm, w, "accumulate:")


def p_full_reduce(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e)
    r = np.add.reduce(arr, axis=None)
    from caput.mpiarray import MPIArray

    e.prove("reduce-all:distributed", SBool(z3.BoolVal(type(r) is MPIArray and r.axis == 0 and r.ndim == 1)))
    e.prove("reduce-all:one-per-rank", And(SInt(zi(r.shape[0])) == 1, SInt(zi(r.global_shape[0])) == comm.size,
                                           SInt(zi(r.local_offset[0])) == comm.rank))


def p_forbidden(e):
    M, comm, nd, axis, shape, arr, G, part, np = _setup(e, (1, 2))
    which = e.choose(2, "which")
    if which == 0:
        _refused(e, "refuse:where", lambda: np.add(arr, arr, where=SArr._make(lambda i: SBool(z3.BoolVal(True)), arr.shape, bool)))
    else:
        m = ["outer", "reduceat", "at"][e.choose(3, "m")]
        _refused(e, "refuse:ufunc-method", lambda: arr.__array_ufunc__(np.add, m, arr, arr))


PROOFS = [
    Proof("scalar", p_scalar, _FN),
    Proof("two", p_two, _FN),
    Proof("inplace", p_inplace, _FN),
    Proof("numpy", p_numpy, _FN),
    Proof("refuse", p_refuse, _FN),
    Proof("reduce", p_reduce, _FN[:1] + ["caput.mpiarray.MPIArray._array_ufunc_reduce"]),
    Proof("accumulate", p_accumulate, _FN[:1] + ["caput.mpiarray.MPIArray._array_ufunc_accumulate"]),
    Proof("full_reduce", p_full_reduce, _FN[:1] + ["caput.mpiarray.MPIArray._array_ufunc_reduce"]),
    Proof("forbidden", p_forbidden, _FN[:1]),
]

BIN = ["add", "subtract", "multiply", "maximum", "greater", "equal", "divmod"]
UN = ["negative", "sqrt", "absolute", "isnan", "modf"]
RED = ["add", "maximum", "multiply", "logical_and"]


def gen(rng, i):
    nd = rng.choice([1, 2, 2, 3, 3])
    shape = [rng.choice([1, 2, 3, 4, 5]) for _ in range(nd)]
    axis = rng.randrange(nd)
    kind = rng.choice(["binary", "binary", "binary", "unary", "reduce", "reduce", "accumulate", "inplace", "outarg", "method"])
    c = {"shape": shape, "axis": axis, "kind": kind}
    if kind in ("binary", "inplace"):
        c["ufunc"] = rng.choice(BIN[:-1] if kind == "binary" else BIN[:3])
        if kind == "binary" and rng.random() < 0.1:
            c["ufunc"] = "divmod"
        o = rng.choice(["scalar", "same", "mpi_low", "np_bcast", "np_low", "np_global", "mpi_otheraxis", "np_high", "mpi_bcast", "mpi_len"])
        c["other"] = o
        c["swap"] = rng.random() < 0.4
        c["low"] = rng.randrange(0, nd)
        c["ones"] = [rng.random() < 0.5 for _ in range(nd)]
    elif kind == "unary":
        c["ufunc"] = rng.choice(UN)
    elif kind in ("reduce", "method"):
        c["ufunc"] = rng.choice(RED)
        c["method"] = rng.choice(["sum", "max", "prod", "any", "mean"])
        r = rng.random()
        if r < 0.2:
            c["ax"] = None
        elif r < 0.75:
            c["ax"] = rng.randrange(-nd, nd)
        else:
            k = rng.randrange(1, nd + 1)
            c["ax"] = [x - nd if rng.random() < 0.4 else x for x in rng.sample(range(nd), k)]
        c["keep"] = rng.random() < 0.4
    elif kind == "accumulate":
        c["ufunc"] = rng.choice(["add", "multiply", "maximum"])
        c["ax"] = rng.randrange(-nd, nd)
        c["via"] = rng.choice(["ufunc", "cumsum"])
    elif kind == "outarg":
        c["ufunc"] = rng.choice(["add", "multiply"])
        c["out"] = rng.choice(["ok", "np", "axis"])
    return c


def close(got, G, axis, comm, what):
    import numpy as np

    from contracts.mpi_plain import meta, share

    from caput.mpiarray import MPIArray

    if type(got) is MPIArray and got.shape == share(G, axis, comm).shape and G.dtype.kind in "fc":
        if np.allclose(got.local_array, share(G, axis, comm), rtol=1e-12, atol=1e-12, equal_nan=True):
            got = got.copy()
            got.local_array[...] = share(G, axis, comm)
            if G.size and np.isnan(G).any():
                got.local_array[...] = np.nan_to_num(share(G, axis, comm))
                G = np.nan_to_num(G)
    return meta(got, G, axis, comm, what)


def check(c):
    import numpy as np

    from caput.mpiarray import MPIArray
    from contracts.mpi_plain import bounds, comm_world, dist, garray, meta, same, share

    np.seterr(all="ignore")
    comm = comm_world()
    G = garray(c["shape"]) + 0.25
    axis = c["axis"]
    nd = G.ndim
    a = dist(G, axis, comm)
    kind = c["kind"]
    L = share(G, axis, comm).shape[axis]
    alllens = [b - x for x, b in zip(bounds(G.shape[axis], comm.size), bounds(G.shape[axis], comm.size)[1:])]

    def attempt(f):
        """(result, None) or (None, exception): an exception counts as refusal only if all ranks refuse."""
        try:
            r, ex = f(), None
        except (ValueError, TypeError, NotImplementedError) as e:
            r, ex = None, e
        n = sum(comm.allgather(ex is not None))if False else sum(comm.allgather(1 if ex is not None else 0))
        return r, ex, n

    if kind in ("binary", "inplace"):
        uf = getattr(np, c["ufunc"])
        o = c["other"]
        must = "equal"
        if o == "scalar":
            og = 3.5
            ol = 3.5
        elif o == "same":
            og = garray(c["shape"], start=5) + 0.5
            ol = dist(og, axis, comm)
        elif o == "mpi_low":  # lower-dimensional distributed operand, aligned from the right
            lo = min(c["low"], axis)
            og = garray(c["shape"][lo:], start=5) + 0.5
            ol = dist(og, axis - lo, comm)
        elif o == "mpi_bcast":  # broadcast on other axes
            sh = [1 if (d != axis and c["ones"][d]) else n for d, n in enumerate(c["shape"])]
            og = garray(sh, start=5) + 0.5
            ol = dist(og, axis, comm)
        elif o == "np_bcast":
            sh = [1 if (d == axis or c["ones"][d]) else n for d, n in enumerate(c["shape"])]
            og = ol = garray(sh, start=5) + 0.5
        elif o == "np_low":  # plain array not reaching the distributed axis
            og = ol = garray(c["shape"][axis + 1 :], start=5) + 0.5
        elif o == "np_high":
            sh = [2] + [1 if d == axis else n for d, n in enumerate(c["shape"])]
            og = ol = garray(sh, start=5) + 0.5
        elif o == "np_global":  # plain array with the *global* length: must not be combined
            og = ol = garray(c["shape"], start=5) + 0.5
            must = "refuse" if G.shape[axis] != 1 else "equal"
            if any(x == G.shape[axis] for x in alllens):
                must = "any"  # one rank holds everything: local shapes match
        elif o == "mpi_otheraxis":
            if nd < 2:
                return None
            og = garray(c["shape"], start=5) + 0.5
            ol = dist(og, (axis + 1) % nd, comm)
            must = "refuse"
        elif o == "mpi_len":  # distributed operand with another global length
            sh = list(c["shape"])
            sh[axis] = sh[axis] + comm.size
            og = garray(sh, start=5) + 0.5
            ol = dist(og, axis, comm)
            must = "refuse"
        if kind == "inplace":
            def f():
                if c["ufunc"] == "add":
                    b = a
                    b += ol
                elif c["ufunc"] == "subtract":
                    b = a
                    b -= ol
                else:
                    b = a
                    b *= ol
                return b
            swap = False
        else:
            swap = c["swap"]
            f = (lambda: uf(ol, a)) if swap else (lambda: uf(a, ol))
        r, ex, nref = attempt(f)
        if must == "refuse":
            return None if nref == comm.size else f"{c['ufunc']} with {o} was accepted on {comm.size - nref} rank(s)"
        if must == "any":
            return None
        if ex is not None:
            if kind == "inplace":
                try:
                    H = G.copy()
                    H += og
                except ValueError:
                    return None  # numpy refuses it too
            return f"{c['ufunc']} with {o} refused: {ex!r}"
        want = uf(og, G) if swap else uf(G, og)
        wants = want if isinstance(want, tuple) else (want,)
        rs = r if isinstance(r, tuple) else (r,)
        if len(wants) != len(rs):
            return "wrong number of outputs"
        for w, g in zip(wants, rs):
            ax = axis + w.ndim - nd
            m = close(g, w, ax, comm, f"{c['ufunc']} with {o}")
            if m:
                return m
        return None
    if kind == "unary":
        uf = getattr(np, c["ufunc"])
        r, w = uf(a), uf(G)
        for g, x in zip(r if isinstance(r, tuple) else (r,), w if isinstance(w, tuple) else (w,)):
            m = close(g, x, axis, comm, c["ufunc"])
            if m:
                return m
        return meta(a, G, axis, comm, "operand after the operation")
    if kind in ("reduce", "method"):
        ax = c["ax"]
        ax = tuple(ax) if isinstance(ax, list) else ax
        if kind == "reduce":
            uf = getattr(np, c["ufunc"])
            f = lambda x: uf.reduce(x, axis=ax, keepdims=c["keep"])  # noqa: E731
        else:
            f = lambda x: getattr(x, c["method"])(axis=ax, keepdims=c["keep"])  # noqa: E731
        if ax is None:
            # documented: a local reduction, one element per rank
            if L == 0 and (c.get("method") if kind == "method" else c["ufunc"]) in ("max", "maximum", "mean"):
                return None
            if 0 in alllens and (c.get("method") if kind == "method" else c["ufunc"]) in ("max", "maximum", "mean"):
                return None
            r = f(a)
            w = np.asarray(f(share(G, axis, comm)))
            if type(r) is not MPIArray or r.axis != 0 or r.size != 1:
                return f"full reduction gives {type(r).__name__} of shape {np.shape(r)}"
            if r.global_shape[0] != comm.size or r.local_offset[0] != comm.rank:
                return f"full reduction metadata {r.global_shape} {r.local_offset}"
            return None if np.allclose(np.asarray(r).ravel(), w.ravel()) else f"full reduction {r} expected {w}"
        axs = {x % nd for x in (ax if isinstance(ax, tuple) else (ax,))}
        if axis in axs:
            r, ex, nref = attempt(lambda: f(a))
            return None if nref == comm.size else f"reduction over the distributed axis accepted: {r}"
        if L == 0 or 0 in alllens:
            pass
        want = f(G)
        na = axis if c["keep"] else axis - sum(1 for x in axs if x < axis)
        return close(f(a), want, na, comm, f"reduce over {ax}")
    if kind == "accumulate":
        uf = getattr(np, c["ufunc"])
        f = (lambda x: uf.accumulate(x, axis=c["ax"])) if c["via"] == "ufunc" else (lambda x: x.cumsum(axis=c["ax"]))  # noqa: E731
        if c["ax"] % nd == axis:
            r, ex, nref = attempt(lambda: f(a))
            return None if nref == comm.size else f"accumulation over the distributed axis accepted: {np.asarray(r).tolist()}"
        return close(f(a), f(G), axis, comm, f"accumulate over {c['ax']}")
    if kind == "outarg":
        uf = getattr(np, c["ufunc"])
        H = garray(c["shape"], start=9) + 0.5
        h = dist(H, axis, comm)
        if c["out"] == "ok":
            out = dist(np.zeros_like(G), axis, comm)
            r = uf(a, h, out=out)
            if r is not out:
                return "out argument not returned"
            return close(out, uf(G, H), axis, comm, "out argument")
        if c["out"] == "np":
            out = np.zeros(share(G, axis, comm).shape)
        else:
            if nd < 2 or G.shape[axis] != G.shape[(axis + 1) % nd]:
                return None
            out = dist(np.zeros_like(G), (axis + 1) % nd, comm)
        r, ex, nref = attempt(lambda: uf(a, h, out=out))
        return None if nref == comm.size else f"out={c['out']} accepted"
    raise ValueError(kind)


# refused outright: where=, outer, reduceat, at
def gen_ref(rng, i):
    nd = rng.choice([1, 2])
    return {"shape": [rng.choice([2, 3, 5]) for _ in range(nd)], "axis": rng.randrange(nd), "what": rng.choice(["where", "outer", "reduceat", "ravel"])}


def check_ref(c):
    import numpy as np

    from contracts.mpi_plain import comm_world, dist, garray

    comm = comm_world()
    G = garray(c["shape"])
    a = dist(G, c["axis"], comm)
    try:
        if c["what"] == "where":
            np.add(a, a, where=np.zeros(a.shape, dtype=bool))
        elif c["what"] == "outer":
            np.add.outer(a, a)
        elif c["what"] == "reduceat":
            np.add.reduceat(a, [0], axis=0)
        else:
            a.ravel()
    except Exception:
        return None
    return f"{c['what']} accepted"


FIXED = [
    {"shape": [3, 4], "axis": 1, "kind": "accumulate", "ufunc": "add", "ax": -1, "via": "ufunc"},
    {"shape": [3, 4], "axis": 1, "kind": "accumulate", "ufunc": "add", "ax": -1, "via": "cumsum"},
    {"shape": [3, 4, 2], "axis": 1, "kind": "reduce", "ufunc": "add", "method": "sum", "ax": [0, -1], "keep": False},
]
FALSIFIERS = [
    Falsifier("ops", gen, check, n=500, thorough=6000, ranks=(1, 2, 3, 4), fixed=FIXED),
    Falsifier("refused", gen_ref, check_ref, n=30, thorough=100, ranks=(1, 2)),
]

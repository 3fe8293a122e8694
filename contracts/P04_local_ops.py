"""Indexing, transposing, reshaping and copying a distributed array keep data and metadata consistent."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "array rank 1 to 3 (each axis and each permutation proved separately); extents, communicator size and rank unbounded",
    "machine integers treated as mathematical",
]


def _setup(e, dims):
    from contracts import mpi_model as M

    M.install()
    comm = M.new_comm()
    nd = dims[e.choose(len(dims), "ndim")]
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    arr, G, part = M.make_mpiarray(e, shape, axis, comm)
    e.inputs["axis"], e.inputs["ndim"] = axis, nd
    e.assumed |= {M.A_SPLIT, M.A_NP}
    return M, comm, nd, axis, shape, arr, G, part


def _content(e, M, r, gshape, axis, part, comm, want, name):
    """Arbitrary element of the result is want(global index)."""
    x = M.local_index(e, r.shape)
    gi = [x[d] + part.start(comm.rank) if d == axis else x[d] for d in range(len(gshape))]
    e.prove(name, SBool(r.local_array[x].z == want(gi).z))


def p_new(e):
    from caput.mpiarray import MPIArray

    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2, 3))
    which = e.choose(4, "how")
    if which == 0:
        r = MPIArray(shape, axis=axis, comm=comm)
    elif which == 1:
        r = MPIArray(shape, axis=axis - nd, comm=comm)
    elif which == 2:
        r = MPIArray.wrap(arr.local_array, axis, comm=comm)
    else:
        r = MPIArray.wrap(arr.local_array, axis - nd, comm=comm)
    M.meta_ok(e, r, axis, shape, part, comm, "new:")
    if which >= 2:
        _content(e, M, r, shape, axis, part, comm, lambda gi: G.at(*gi), "wrap:value")


def p_copy(e):
    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2, 3))
    r = arr.copy()
    M.meta_ok(e, r, axis, shape, part, comm, "copy:")
    _content(e, M, r, shape, axis, part, comm, lambda gi: G.at(*gi), "copy:value")
    # a later write to the copy does not reach the source
    r.local_array[...] = Val("v")
    _content(e, M, arr, shape, axis, part, comm, lambda gi: G.at(*gi), "copy:source-unchanged")


def p_transpose(e):
    import itertools

    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2, 3))
    perms = list(itertools.permutations(range(nd)))
    perm = perms[e.choose(len(perms), "perm")]
    e.inputs["perm"] = list(perm)
    how = ["tuple", "list", "args", "neg", "default", "None", "T"][e.choose(7, "how")]
    if how in ("default", "None", "T"):
        e.assume(perm == tuple(range(nd))[::-1])
    if how == "tuple":
        r = arr.transpose(perm)
    elif how == "list":
        r = arr.transpose(list(perm))
    elif how == "args":
        r = arr.transpose(*perm)
    elif how == "neg":
        r = arr.transpose(tuple(p - nd for p in perm))
    elif how == "default":
        r = arr.transpose()
    elif how == "None":
        r = arr.transpose(None)
    else:
        r = arr.T
    gs = [shape[p] for p in perm]
    ax = perm.index(axis)
    M.meta_ok(e, r, ax, gs, part, comm, "transpose:")

    def want(gi):
        src = [None] * nd
        for j, p in enumerate(perm):
            src[p] = gi[j]
        return G.at(*src)

    _content(e, M, r, gs, ax, part, comm, want, "transpose:value")
    M.meta_ok(e, arr, axis, shape, part, comm, "transpose-source:")


def p_index(e):
    """Basic indexing off the distributed axis: ints, slices, new axes, Ellipsis."""
    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2, 3))
    newpos = e.choose(nd + 2, "newaxis")  # nd+1: none
    ell = e.choose(3, "ellipsis")
    key, out = [], []  # out: (global extent, fn local->source) per output axis
    src = {}
    for d in range(nd):
        if newpos == d:
            key.append(None)
            out.append((1, None))
        if d == axis:
            key.append(slice(None))
            out.append((shape[d], (d, lambda x: x)))
            ax = len(out) - 1
        else:
            kind = e.choose(3, f"kind{d}")
            if kind == 0:
                key.append(slice(None))
                out.append((shape[d], (d, lambda x: x)))
            elif kind == 1:
                k = Int(f"k{d}")
                e.assume(And(k >= -shape[d], k < shape[d]))
                key.append(k)
                src[d] = Ite(k < 0, k + shape[d], k)
            else:
                a = Int(f"a{d}", lo=0)
                b = Int(f"b{d}")
                e.assume(And(a <= b, b <= shape[d]))
                key.append(slice(a, b))
                out.append((b - a, (d, lambda x, a=a: x + a)))
    if newpos == nd:
        key.append(None)
        out.append((1, None))
    if ell == 1:
        while key and isinstance(key[-1], slice) and key[-1] == slice(None) and len(key) > 1:
            key.pop()
    elif ell == 2:
        # replace one full slice by an Ellipsis
        j = next(i for i, k in enumerate(key) if isinstance(k, slice) and k.start is None)
        key[j] = Ellipsis
    e.inputs["key"] = [repr(k) for k in key]
    r = arr[tuple(key)]
    gs = [x[0] for x in out]
    M.meta_ok(e, r, ax, gs, part, comm, "index:")

    def want(gi):
        s = dict(src)
        for (n, f), x in zip(out, gi):
            if f is not None:
                s[f[0]] = f[1](x)
        return G.at(*[s[d] for d in range(nd)])

    _content(e, M, r, gs, ax, part, comm, want, "index:value")


def p_reshape(e):
    """Grouping/ungrouping of axes on either side of the distributed one."""
    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2, 3))
    n = shape
    forms = {
        (1, 0): [((None,), ()), ((1, None), ()), ((None, 1), ())],
        (2, 0): [((None, n[1] if nd > 1 else 0), ()), ((None, -1), ()), ((None, 1, -1), ()), ((1, None, -1), ())],
        (2, 1): [((n[0], None), ()), ((-1, None), ()), ((-1, None, 1), ()), ((1, -1, None), ())],
        (3, 0): [((None, -1), ()), ((None, -1, n[2] if nd > 2 else 0), ())],
        (3, 1): [((-1, None, -1), ()), ((-1, None, n[2] if nd > 2 else 0), ())],
        (3, 2): [((-1, None), ()), ((n[0], -1, None), ())],
    }[(nd, axis)]
    form = forms[e.choose(len(forms), "form")][0]
    for d in range(nd):
        if d != axis:
            e.assume(n[d] >= 1)
    r = arr.reshape(form) if e.choose(2, "how") else arr.reshape(*form)
    na = form.index(None)
    # resolved global shape
    import math

    def side(parts, old):
        tot = 1
        for o in old:
            tot = tot * o
        return [tot if (p == -1 if isinstance(p, int) else False) and len([q for q in parts if not (isinstance(q, int) and q == 1)]) == 1 else p for p in parts], tot

    pre, _ = side(form[:na], n[:axis])
    post, tot = side(form[na + 1 :], n[axis + 1 :])
    if nd == 3 and axis == 0 and len(form) == 3:
        post = [n[1], n[2]]
    if nd == 3 and axis == 2 and len(form) == 3:
        pre = [n[0], n[1]]
    gs = [*pre, n[axis], *post]
    M.meta_ok(e, r, na, gs, part, comm, "reshape:")


def p_reshape_refused(e):
    """A shape that would move elements across the distributed axis is refused on every rank, also empty ones."""
    M, comm, nd, axis, shape, arr, G, part = _setup(e, (2,))
    m = Int("m", lo=1)
    other = shape[1 - axis]
    e.assume(And(other >= 1, Not(m == other)))
    form = (None, m) if axis == 0 else (m, None)
    try:
        arr.reshape(form)
    except ValueError:
        e.prove("reshape:mismatch-refused", SBool(z3.BoolVal(True)))
        return
    e.fail("reshape:mismatch-refused", "accepted")


def p_enumerate(e):
    M, comm, nd, axis, shape, arr, G, part = _setup(e, (1, 2))
    ax = e.choose(nd, "ax")
    r = arr.enumerate(ax)
    n = SInt(zi(r.n))
    k = SInt(e.fresh("k"))
    lo, cnt = (part.start(comm.rank), part.count(comm.rank)) if ax == axis else (0, shape[ax])
    e.prove("enumerate:length", n == cnt)
    e.assume(And(k >= 0, k < n))
    i, g = r.get(k)
    e.prove("enumerate:pairs", And(SInt(zi(i)) == k, SInt(zi(g)) == k + lo))
    lb = arr.local_bounds
    e.prove("local_bounds", And(SInt(zi(lb.start)) == part.start(comm.rank), SInt(zi(lb.stop)) == part.end(comm.rank)))


PROOFS = [
    Proof("new", p_new, ["caput.mpiarray.MPIArray.__new__", "caput.mpiarray.MPIArray.wrap", "caput.mpiarray.MPIArray._view_from_data_and_params"]),
    Proof("copy", p_copy, ["caput.mpiarray.MPIArray.copy", "caput.mpiarray.MPIArray.wrap"]),
    Proof("transpose", p_transpose, ["caput.mpiarray.MPIArray.transpose", "caput.mpiarray.MPIArray.T", "caput.mpiarray.MPIArray.__array_finalize__"]),
    Proof("index", p_index, ["caput.mpiarray.MPIArray.__getitem__", "caput.mpiarray.sanitize_slice", "caput.mpiarray.MPIArray._view_from_data_and_params"]),
    Proof("reshape", p_reshape, ["caput.mpiarray.MPIArray.reshape"]),
    Proof("reshape_refused", p_reshape_refused, ["caput.mpiarray.MPIArray.reshape"]),
    Proof("enumerate", p_enumerate, ["caput.mpiarray.MPIArray.enumerate", "caput.mpiarray.MPIArray.local_bounds"]),
]


def gen(rng, i):
    from contracts.mpi_plain import DTYPES, rslice

    nd = rng.choice([1, 2, 2, 3, 3, 4])
    shape = [rng.choice([1, 2, 3, 4, 5, 6, 9]) if rng.random() < 0.9 else 0 for _ in range(nd)]
    axis = rng.randrange(nd)
    op = rng.choice(["index", "index", "index", "transpose", "T", "reshape", "reshape", "copy", "setitem", "enumerate", "new", "astype"])
    c = {"shape": shape, "axis": axis, "op": op, "dtype": rng.choice(DTYPES)}
    if op in ("index", "setitem"):
        key = []
        fancy = False
        for d in range(nd):
            n = shape[d]
            if rng.random() < 0.12:
                key.append("new")
            if d == axis:
                key.append({"s": [None, None, None]})
            else:
                r = rng.random()
                if r < 0.3 and n:
                    k = rng.randrange(-n, n)
                    key.append({"np": k} if rng.random() < 0.3 else k)
                elif r < 0.4 and n and not fancy and op == "index":
                    fancy = True
                    key.append({"l": [rng.randrange(-n, n) for _ in range(rng.randrange(1, 4))]})
                elif r < 0.7:
                    key.append(rslice(rng, n))
                else:
                    key.append({"s": [None, None, None]})
        if fancy:  # one list index and slices only: numpy keeps the position of the axis
            key = [({"s": [None, None, None]} if isinstance(k, int) or (isinstance(k, dict) and "np" in k) else k) for k in key]
        form = rng.choice(["full", "short", "ell"])
        if form == "short":
            while key and key[-1] == {"s": [None, None, None]}:
                key.pop()
            key = key or ["..."]
        elif form == "ell":
            full = [j for j, k in enumerate(key) if k == {"s": [None, None, None]}]
            if full:
                j = rng.choice(full)
                key = [*key[:j], "...", *key[j + 1 :]]
            else:
                key.insert(rng.randrange(len(key) + 1), "...")
        c["key"] = key
        c["bare"] = len(key) == 1 and rng.random() < 0.5
    elif op == "transpose":
        p = list(range(nd))
        rng.shuffle(p)
        if rng.random() < 0.4:
            p = [x - nd if rng.random() < 0.5 else x for x in p]
        c["perm"] = p
        c["how"] = rng.choice(["tuple", "list", "args", "default", "None", "np", "npperm"])
    elif op == "reshape":
        c["shape"] = shape = [max(1, s) if d != axis else s for d, s in enumerate(shape)]
        c["new"], c["newaxis"] = new_shape(rng, shape, axis)
        c["how"] = rng.choice(["tuple", "args", "list"])
        c["order"] = rng.choice(["C", "C", "F"])
    return c


def factor(rng, n):
    """A random ordered factorisation of n."""
    out = []
    while n > 1 and rng.random() < 0.75:
        d = [k for k in range(2, n + 1) if n % k == 0]
        k = rng.choice(d)
        out.append(k)
        n //= k
    if n > 1:
        out.append(n)
    if rng.random() < 0.2:
        out.insert(rng.randrange(len(out) + 1), 1)
    return out


def new_shape(rng, shape, axis):
    import math

    pre = factor(rng, math.prod(shape[:axis]))
    post = factor(rng, math.prod(shape[axis + 1 :]))
    for part in (pre, post):
        if part and rng.random() < 0.35:
            part[rng.randrange(len(part))] = -1
    if rng.random() < 0.5:
        # a wildcard on one side only
        pass
    return [*pre, None, *post], len(pre)


def check(c):
    import numpy as np

    from caput.mpiarray import MPIArray
    from contracts.mpi_plain import bounds, comm_world, dist, garray, meta, same, share, unkey

    comm = comm_world()
    G = garray(c["shape"], c["dtype"])
    axis = c["axis"]
    a = dist(G, axis, comm, "wrap" if sum(c["shape"]) % 2 else "new")
    op = c["op"]
    if op in ("index", "setitem"):
        key = tuple(unkey(k) for k in c["key"])
        if op == "setitem":
            E = G.copy()
            E[key] = 3
            a[key if not c["bare"] else key[0]] = 3
            return meta(a, E, axis, comm, "after assignment")
        # where the distributed axis lands
        tags = np.empty(c["shape"], dtype="i1")
        probe = np.zeros(c["shape"][:axis] + [c["shape"][axis]] + c["shape"][axis + 1 :], dtype="i1")
        marked = np.lib.stride_tricks.as_strided(probe, probe.shape, [1000003 if d == axis else 8 for d in range(G.ndim)], writeable=False)
        want = G[key]
        # position: count non-integer entries before it in the expanded key
        full = list(key)
        nreal = sum(1 for k in full if k is not None and k is not Ellipsis)
        if not any(k is Ellipsis for k in full):
            full.append(Ellipsis)
        out = []
        for k in full:
            if k is Ellipsis:
                out += [slice(None)] * (G.ndim - nreal)
            else:
                out.append(k)
        pos, real = 0, 0
        final = None
        for k in out:
            if k is None:
                pos += 1
                continue
            if real == axis:
                final = pos
            if not isinstance(k, (int, np.integer)):
                pos += 1
            real += 1
        got = a[key[0] if c["bare"] else key]
        m = meta(got, want, final, comm, "indexed array")
        return m or meta(a, G, axis, comm, "source after indexing")
    if op == "transpose":
        p = tuple(c["perm"])
        how = c["how"]
        if how == "tuple":
            got, want = a.transpose(p), G.transpose(p)
        elif how == "list":
            got, want = a.transpose(list(p)), G.transpose(p)
        elif how == "args":
            got, want = a.transpose(*p), G.transpose(p)
        elif how == "default":
            got, want = a.transpose(), G.transpose()
            p = tuple(range(G.ndim))[::-1]
        elif how == "None":
            got, want = a.transpose(None), G.transpose()
            p = tuple(range(G.ndim))[::-1]
        elif how == "np":
            got, want = np.transpose(a), G.transpose()
            p = tuple(range(G.ndim))[::-1]
        else:
            got, want = np.transpose(a, p), G.transpose(p)
        ax = [x % G.ndim for x in p].index(axis)
        return meta(got, want, ax, comm, f"transpose {how} {p}") or meta(a, G, axis, comm, "source after transpose")
    if op == "T":
        return meta(a.T, G.T, G.ndim - 1 - axis, comm, ".T")
    if op == "reshape":
        new = [G.shape[axis] if x is None else x for x in c["new"]]
        # resolve the wildcards from the two sides of the distributed axis
        na = c["newaxis"]
        import math

        for lo, hi, tot in ((0, na, math.prod(G.shape[:axis])), (na + 1, len(new), math.prod(G.shape[axis + 1 :]))):
            rest = math.prod(x for x in new[lo:hi] if x != -1)
            for j in range(lo, hi):
                if new[j] == -1:
                    new[j] = tot // rest
        want = G.reshape(new, order=c["order"])
        if c["how"] == "args":
            got = a.reshape(*c["new"], order=c["order"])
        else:
            got = a.reshape((tuple if c["how"] == "tuple" else list)(c["new"]), order=c["order"])
        return meta(got, want, na, comm, f"reshape {c['new']}")
    if op == "copy":
        b = a.copy()
        m = meta(b, G, axis, comm, "copy")
        if m:
            return m
        b.local_array[...] = 0
        return meta(a, G, axis, comm, "source after changing the copy")
    if op == "astype":
        return meta(a.astype("c16"), G.astype("c16"), axis, comm, "astype")
    if op == "enumerate":
        b = bounds(G.shape[axis], comm.size)
        for ax in range(G.ndim):
            got = list(a.enumerate(ax))
            want = list(enumerate(range(b[comm.rank], b[comm.rank + 1]))) if ax == axis else list(enumerate(range(G.shape[ax])))
            if got != want:
                return f"enumerate({ax}) = {got}, expected {want}"
        return None
    if op == "new":
        from caput import mpiarray

        z = mpiarray.zeros(tuple(c["shape"]), axis=axis, dtype=G.dtype, comm=comm)
        m = meta(z, np.zeros(c["shape"], dtype=G.dtype), axis, comm, "zeros")
        o = mpiarray.ones(tuple(c["shape"]), axis=axis - G.ndim, dtype=G.dtype, comm=comm)
        m = m or meta(o, np.ones(c["shape"], dtype=G.dtype), axis, comm, "ones")
        # a wrong layout is refused on every rank
        bad = list(share(G, axis, comm).shape)
        if comm.size > 1:
            if comm.rank == 0:
                bad[axis] += 2
            try:
                MPIArray.wrap(np.zeros(bad), axis, comm=comm)
            except Exception:
                pass
            else:
                return m or "wrap accepted blocks that are not the balanced partition"
        return m
    raise ValueError(op)


# wrong reshapes and index tuples are refused, the same way on every rank
def gen_bad(rng, i):
    nd = rng.choice([2, 3])
    shape = [rng.choice([2, 3, 4, 6]) for _ in range(nd)]
    axis = rng.randrange(nd)
    return {"shape": shape, "axis": axis, "mult": rng.choice([2, 3]), "kind": rng.choice(["prod", "move", "noaxis", "toolong"])}


def check_bad(c):
    import math

    from contracts.mpi_plain import comm_world, dist, garray

    comm = comm_world()
    G = garray(c["shape"])
    axis = c["axis"]
    a = dist(G, axis, comm)
    if c["kind"] == "toolong":
        f = lambda: a[(slice(None),) * (G.ndim + 1)]  # noqa: E731
    else:
        pre, post = math.prod(c["shape"][:axis]), math.prod(c["shape"][axis + 1 :])
        if c["kind"] == "prod":
            new = (pre * c["mult"], None, post)
        elif c["kind"] == "move":  # elements moved across the distributed axis
            if pre == 1 and post == 1:
                return None
            new = (pre * post, None) if post > 1 else (None, pre * post)
        else:
            new = (pre, G.shape[axis], post)
        f = lambda: a.reshape(new)  # noqa: E731
    try:
        r = f()
    except Exception:
        return None
    return f"{c['kind']} accepted, gives {r.shape}"


FIXED = [
    {"shape": [2, 6, 3], "axis": 1, "op": "T", "dtype": "f8"},
    {"shape": [2, 6, 3], "axis": 1, "op": "transpose", "perm": [-1, 0, 1], "how": "tuple", "dtype": "f8"},
    {"shape": [2, 6, 3], "axis": 1, "op": "transpose", "perm": [2, 0, 1], "how": "np", "dtype": "f8"},
    {"shape": [2, 4], "axis": 0, "op": "reshape", "new": [None, -1, 2], "newaxis": 0, "how": "tuple", "order": "C", "dtype": "f8"},
    {"shape": [4, 5, 6], "axis": 1, "op": "index", "key": [0], "bare": True, "dtype": "f8"},
    {"shape": [4, 5, 6], "axis": 1, "op": "index", "key": ["new", 1, "...", {"s": [1, None, 2]}], "bare": False, "dtype": "f8"},
]
FALSIFIERS = [
    Falsifier("local", gen, check, n=400, thorough=6000, ranks=(1, 2, 3, 4), fixed=FIXED),
    Falsifier("refused", gen_bad, check_bad, n=60, thorough=600, ranks=(1, 2, 3)),
]

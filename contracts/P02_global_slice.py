"""Global-index slicing of distributed arrays."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "rank of the array 1, 2 or 3 (each proved separately); extents, communicator size, rank and indices unbounded",
    "machine integers treated as mathematical",
]


def _setup(e, maxdim=2):
    from contracts import mpi_model as M

    M.install()
    comm = M.new_comm()
    nd = 1 + e.choose(maxdim, "ndim")
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    arr, G, part = M.make_mpiarray(e, shape, axis, comm)
    e.inputs["axis"], e.inputs["ndim"] = axis, nd
    e.assumed |= {M.A_SPLIT, M.A_NP}
    return M, comm, nd, axis, shape, arr, G, part


def _other(e, nd, axis, shape):
    """Keys on the other axes: full or one arbitrary valid integer."""
    key = []
    for d in range(nd):
        if d == axis:
            key.append(None)
        elif e.choose(2, f"other{d}") == 0:
            key.append(slice(None))
        else:
            k = Int(f"k{d}")
            e.assume(And(k >= -shape[d], k < shape[d]))
            key.append(k)
    return key


def _element(e, r, nd, axis, key, shape, gaxis, G, name, axk=None):
    """Arbitrary element of result r equals G at the global index gaxis(local k)."""
    idx, gi = [], []
    pos = 0
    for d in range(nd):
        if d == axis:
            if gaxis is not None and axk is not None:
                idx.append(axk)
                gi.append(gaxis)
                pos += 1
            else:
                gi.append(gaxis)
            continue
        k = key[d]
        if isinstance(k, slice):
            x = SInt(e.fresh("x"))
            e.assume(And(x >= 0, x < shape[d]))
            e.prove(name + ":other-extent", SInt(zi(r.shape[pos])) == shape[d])
            idx.append(x)
            gi.append(x)
            pos += 1
        else:
            gi.append(Ite(k < 0, k + shape[d], k))
    if not idx:
        v = r if isinstance(r, SVal) else r[()]
    else:
        v = r[tuple(idx)]
    e.prove(name, SBool(v.z == G.at(*gi).z))


def p_int(e):
    M, comm, nd, axis, shape, arr, G, part = _setup(e, 3)
    N = shape[axis]
    k = Int("k")
    e.assume(And(k >= -N, k < N))
    key = _other(e, nd, axis, shape)
    key[axis] = k
    e.cover("pre")
    r = arr.global_slice[tuple(key)]
    g = Ite(k < 0, k + N, k)
    held = And(g >= part.start(comm.rank), g < part.end(comm.rank))
    if r is None:
        e.prove("int:None-only-where-not-held", Not(held))
        return
    e.prove("int:data-only-where-held", held)
    _element(e, r, nd, axis, key, shape, g, G, "int:value")


def _spec_range(e, N, sl, lo, hi):
    """First/last position of the global selection inside [lo, hi): (a, c, glen, j0, j1)."""
    a, b, c = slice_indices(sl, N)
    a, b, c = SInt(zi(a)), SInt(zi(b)), SInt(zi(c))
    glen = range_len(a, b, c)
    if bool(c > 0):
        if bool(a >= lo):
            j0 = SInt(z3.IntVal(0))
        else:
            j0 = -((a - lo) // c)
        j1 = (hi - 1 - a) // c
    else:
        if bool(a < hi):
            j0 = SInt(z3.IntVal(0))
        else:
            j0 = -((hi - 1 - a) // (-c))
        j1 = (a - lo) // (-c)
    j1 = Ite(j1 < glen - 1, j1, glen - 1)
    return a, c, glen, j0, j1


def p_slice(e, symstep=False):
    M, comm, nd, axis, shape, arr, G, part = _setup(e, 2)
    N = shape[axis]
    if symstep:
        st = Int("step")
        e.assume(Not(st == 0))
    else:
        st = None
        e.inputs["step"] = st
    sl = slice(OptInt("a"), OptInt("b"), st)
    e.assume(SBool(z3.BoolVal(not (sl.start is None and sl.stop is None and sl.step is None))))
    key = [slice(None)] * nd
    key[axis] = sl
    e.cover("pre")
    r = arr.global_slice[tuple(key)]
    lo, hi = part.start(comm.rank), part.end(comm.rank)
    a, c, glen, j0, j1 = _spec_range(e, N, sl, lo, hi)
    if r is None:
        e.prove("slice:None-only-where-nothing-held", j1 < j0)
        return
    m = SInt(zi(r.shape[axis]))
    want = Ite(j1 >= j0, j1 - j0 + 1, 0)
    e.prove("slice:count", m == want)
    k = SInt(e.fresh("k"))
    e.assume(And(k >= 0, k < m))
    _element(e, r, nd, axis, key, shape, a + (j0 + k) * c, G, "slice:value", axk=k)


def p_slice_sym(e):
    p_slice(e, True)


def p_full(e):
    """A full slice gives back a distributed array with the right metadata."""
    M, comm, nd, axis, shape, arr, G, part = _setup(e, 3)
    key = _other(e, nd, axis, shape)
    key[axis] = slice(None)
    r = arr.global_slice[tuple(key)]
    gs = [shape[d] for d in range(nd) if isinstance(key[d], slice)]
    ax = sum(1 for d in range(axis) if isinstance(key[d], slice))
    M.meta_ok(e, r, ax, gs, part, comm, "full:")
    k = SInt(e.fresh("k"))
    e.assume(And(k >= 0, k < part.count(comm.rank)))
    _element(e, r, nd, axis, key, shape, part.start(comm.rank) + k, G, "full:value", axk=k)


def p_set(e):
    """Assignment through a global integer or unit-step slice changes exactly the selected elements held here."""
    M, comm, nd, axis, shape, arr, G, part = _setup(e, 2)
    N = shape[axis]
    lo = part.start(comm.rank)
    key = _other(e, nd, axis, shape)
    if e.choose(2, "kind") == 0:
        k = Int("k")
        e.assume(And(k >= -N, k < N))
        key[axis] = k
        sel = lambda g: g == Ite(k < 0, k + N, k)  # noqa: E731
    else:
        st = [None, 2, -2][e.choose(3, "step")]
        key[axis] = slice(OptInt("a"), OptInt("b"), st)
        e.inputs["step"] = st
        a, b, c = slice_indices(key[axis], N)
        a, b = SInt(zi(a)), SInt(zi(b))
        sel = (lambda g: And(g >= a, g < b, (g - a) % c == 0)) if c > 0 else (lambda g: And(g <= a, g > b, (a - g) % (-c) == 0))  # noqa: E731
    v = Val("value")
    arr.global_slice[tuple(key)] = v
    x = M.local_index(e, arr.shape)
    gi = [x[d] + lo if d == axis else x[d] for d in range(nd)]
    hit = [sel(gi[axis])]
    for d in range(nd):
        if d != axis and not isinstance(key[d], slice):
            hit.append(x[d] == Ite(key[d] < 0, key[d] + shape[d], key[d]))
    e.prove("set:exactly-the-selected-elements", SBool(arr.local_array[x].z == Ite(And(*hit), v, G.at(*gi)).z))


_FN = ["caput.mpiarray._global_resolver._resolve_slice", "caput.mpiarray._global_resolver.__getitem__"]


def _case(o, m):
    nd = m.get("ndim", 1)
    sh = [min(int(m.get(f"n{d}", 2)), 40) for d in range(nd)]
    ax = m.get("axis", 0)
    key = [({"s": [None, None, None]} if not isinstance(m.get(f"k{d}"), int) else m[f"k{d}"]) for d in range(nd)]
    if isinstance(m.get("k"), int):
        key[ax] = m["k"]
    else:
        key[ax] = {"s": [None if m.get("a_is_none", True) else m.get("a"), None if m.get("b_is_none", True) else m.get("b"), m.get("step")]}
    return [("slice", {"shape": sh, "axis": ax, "key": key, "bare": False, "op": op}) for op in ("get", "set")]


PROOFS = [
    Proof("int", p_int, _FN, covers=["pre"], to_cases=_case),
    Proof("slice", p_slice, _FN, covers=["pre"], to_cases=_case, budget=300),
    Proof("slice_anystep", p_slice_sym, _FN, covers=["pre"], to_cases=_case, budget=300),
    Proof("full", p_full, _FN, to_cases=_case),
    Proof("set", p_set, ["caput.mpiarray._global_resolver.__setitem__", "caput.mpiarray.MPIArray.__setitem__"], to_cases=_case),
]


def gen(rng, i):
    nd = rng.choice([1, 2, 2, 3])
    shape = [rng.choice([0, 1, 2, 3, 5, 8, 11]) if rng.random() < 0.8 else rng.randrange(0, 14) for _ in range(nd)]
    axis = rng.randrange(nd)
    key = []
    for d in range(nd):
        n = shape[d]
        if d == axis:
            r = rng.random()
            if r < 0.3 and n:
                k = rng.randrange(-n, n)
                key.append({"np": k} if rng.random() < 0.2 else k)
            else:
                from contracts.mpi_plain import rslice

                key.append(rslice(rng, n))
        else:
            r = rng.random()
            if r < 0.25 and n:
                key.append(rng.randrange(-n, n))
            elif r < 0.5:
                from contracts.mpi_plain import rslice

                key.append(rslice(rng, n))
            else:
                key.append({"s": [None, None, None]})
    # shortened forms: leading part, Ellipsis, bare object
    form = rng.choice(["tuple", "tuple", "short", "ell", "bare"])
    if form == "short":
        key = key[: rng.randrange(1, nd + 1)]
    elif form == "ell" and nd > 1:
        p = rng.randrange(nd)
        q = rng.randrange(p, nd + 1)
        key = [*key[:p], "...", *key[q:]]
    elif form == "bare":
        return {"shape": shape, "axis": axis, "key": [key[0]], "bare": True, "op": rng.choice(["get", "set", "seta"])}
    return {"shape": shape, "axis": axis, "key": key, "bare": False, "op": rng.choice(["get", "set", "seta"])}


def check(c):
    import numpy as np

    from contracts.mpi_plain import bounds, comm_world, dist, garray, meta, same, share, unkey

    comm = comm_world()
    G = garray(c["shape"])
    axis = c["axis"]
    a = dist(G, axis, comm)
    key = tuple(unkey(k) for k in c["key"])
    # numpy-normalised key, one entry per axis
    if Ellipsis in key:
        p = key.index(Ellipsis)
        full = key[:p] + (slice(None),) * (G.ndim - len(key) + 1) + key[p + 1 :]
    else:
        full = key + (slice(None),) * (G.ndim - len(key))
    if isinstance(full[axis], slice) and full[axis] == slice(None):
        isfull = True
    else:
        isfull = False
    b = bounds(G.shape[axis], comm.size)
    lo, hi = b[comm.rank], b[comm.rank + 1]
    sel = np.arange(G.shape[axis])[full[axis]]
    scalar = sel.ndim == 0
    mine = [int(x) for x in np.atleast_1d(sel) if lo <= x < hi]
    k2 = list(full)
    if scalar:
        k2[axis] = int(sel)
        want = G[tuple(k2)] if mine else None
    else:
        k2[axis] = slice(None)
        want = np.take(G, mine, axis=axis)[tuple(k2)] if mine else None
    k = key[0] if c["bare"] else key
    if c["op"] == "get":
        got = a.global_slice[k]
        if isfull:
            ax = axis - sum(1 for x in full[:axis] if not isinstance(x, slice))
            return meta(got, G[full], ax, comm, "full global slice")
        if want is None:
            if got is None or np.asarray(got).size == 0:
                return None
            return f"rank holds nothing of the selection but got {np.asarray(got).tolist()}"
        if got is None:
            return f"rank holds {np.asarray(want).tolist()} but got None"
        if np.asarray(want).size == 0:
            return None if np.asarray(got).size == 0 else f"selection is empty but got {np.asarray(got).tolist()}"
        return same(got, np.asarray(want), "global slice")
    V = -1 - garray(c["shape"])
    E = G.copy()
    if c["op"] == "set":
        E[full] = -5.0
        a.global_slice[k] = -5.0
    else:
        E[full] = V[full]
        if isfull:
            ax = axis - sum(1 for x in full[:axis] if not isinstance(x, slice))
            a.global_slice[k] = dist(V[full], ax, comm)
        elif want is None:
            a.global_slice[k] = 99.0
        else:
            k2v = np.take(V, mine, axis=axis)[tuple(k2)] if not scalar else V[tuple(k2)]
            a.global_slice[k] = k2v
    return meta(a, E, axis, comm, "array after global assignment")


FIXED = [
    {"shape": [7], "axis": 0, "key": [-1], "bare": True, "op": "get"},
    {"shape": [7, 2], "axis": 0, "key": [{"s": [None, None, 2]}], "bare": True, "op": "get"},
    {"shape": [7, 2], "axis": 0, "key": [{"s": [None, None, -1]}], "bare": True, "op": "get"},
    {"shape": [5, 2], "axis": 0, "key": [{"s": [1, 4, None]}, 1], "bare": False, "op": "get"},
    {"shape": [3, 4, 5], "axis": 1, "key": ["...", {"s": [-3, -1, None]}, 0], "bare": False, "op": "seta"},
    {"shape": [3, 4], "axis": 1, "key": [1], "bare": True, "op": "get"},
    {"shape": [9], "axis": 0, "key": [{"np": 4}], "bare": False, "op": "get"},
    {"shape": [9], "axis": 0, "key": [{"s": [8, 1, None]}], "bare": False, "op": "set"},
]
FALSIFIERS = [Falsifier("slice", gen, check, n=500, thorough=6000, ranks=(1, 2, 3, 4), fixed=FIXED)]

"""Distributed reads (with selections) and writes hand every rank exactly its share of the file."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "array rank 1 to 3; extents, communicator size and rank, slice bounds and index lists unbounded; slice steps 1 to 3 in whole reads, any step for the selection helpers",
    "h5py and zarr datasets are read and written like arrays: read_direct(dest, source_sel, dest_sel) is dest[dest_sel] = data[source_sel], get_orthogonal_selection(sel, out) applies sel axis by axis",
    "machine integers treated as mathematical",
]
MA = "caput.mpiarray:MPIArray."
A_CHUNKS = "callee contract of _partition_io (proved as P07): adjacent chunks of one axis other than the distributed one, covering it"
A_REDIST = "callee contract of redistribute (proved as P03)"


# ---------------------------------------------------------------- proofs
def _bound(e, n, tag):
    """None or any integer."""
    return None if e.choose(2, tag) else Int(tag)


def p_helpers(e):
    """_reslice and _len_slice: two selections in a row are the combined one, for any positive step."""
    from caput import mpiarray as A

    n = Int("n", lo=0)
    step = [None, Int("step", lo=1)][e.choose(2, "step?")]
    s = slice(_bound(e, n, "a"), _bound(e, n, "b"), step)
    u, v = Int("u", lo=0), Int("v", lo=0)
    e.assume(u <= v)
    e.cover("pre")
    m = A._len_slice(s, n)
    a, b, c = slice_indices(s, n)
    e.prove("len:is-the-number-selected", SInt(zi(m)) == range_len(a, b, c))
    e.assume(v <= m)  # a rank's share of what is selected
    r = A._reslice(s, n, slice(u, v))
    a2, b2, c2 = slice_indices(r, n)
    i = Int("i", lo=0)
    e.prove("reslice:length", SInt(zi(range_len(a2, b2, c2))) == v - u)
    e.assume(i < v - u)
    e.prove("reslice:element", SInt(zi(a2 + i * c2)) == a + (u + i) * c)


def p_helper_list(e):
    """Index lists of any length: a share of the list."""
    from caput import mpiarray as A

    n, k = Int("n", lo=0), Int("k", lo=0)
    f = z3.Function("index", z3.IntSort(), z3.IntSort())
    lst = SSeq(k, lambda j: SInt(f(zi(j))))
    u, v = Int("u", lo=0), Int("v", lo=0)
    e.assume((u <= v) & (v <= k))
    e.cover("pre")
    e.prove("len:list", SInt(zi(A._len_slice(lst, n))) == k)
    r = A._reslice(lst, n, slice(u, v))
    e.prove("reslice:list-length", SInt(zi(r.n)) == v - u)
    i = Int("i", lo=0)
    e.assume(i < v - u)
    e.prove("reslice:list-element", SInt(zi(r.get(i))) == SInt(f((u + i).z)))


class _File:
    """A file with one dataset: an array of the same kind as those in memory."""

    def __init__(self, data, is_mpi):
        f = self
        self.is_mpi, self.opened, self.closed, self.ops = is_mpi, True, False, []
        self.data = data

        class Dset:
            shape = data.shape
            dtype = data.dtype

            @property
            def collective(self):
                import contextlib

                return contextlib.nullcontext()

            def read_direct(self, dest, source_sel=None, dest_sel=None):
                dest[dest_sel] = f.data[source_sel]

            def write_direct(self, source, source_sel=None, dest_sel=None):
                f.ops.append("write")
                f.data[dest_sel] = source.local_array[source_sel]

            def __getitem__(self, k):
                return f.data[k]

            def __setitem__(self, k, v):
                f.ops.append("write")
                f.data[k] = v.local_array if hasattr(v, "local_array") else v

            def get_orthogonal_selection(self, sel, out=None):
                r = f.data
                for d, s in enumerate(sel):
                    r = r[(slice(None),) * d + (s,)]
                out[...] = r

        self.dset = Dset()
        self.created = None

    def __getitem__(self, name):
        if name != "data":
            raise KeyError(name)
        return self.dset

    def __contains__(self, name):
        return name == "data" and self.created is not False

    def create_dataset(self, name, shape=None, dtype=None, **k):
        self.created = (name, shape, dtype)
        self.ops.append("create")
        return self.dset

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self.closed = True


def _world(e, dims=(1, 2, 3)):
    from contracts import mpi_model as M

    M.install()
    P, r = Int("P", lo=1), Int("rank", lo=0)
    e.assume(r < P)
    comm = M.SymComm(r, P)
    nd = dims[e.choose(len(dims), "ndim")]
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    e.inputs["axis"], e.inputs["ndim"] = axis, nd
    e.assumed |= {M.A_SPLIT, M.A_NP}
    return M, comm, nd, axis, shape


class _G:
    cur = None


def _chunks(e, arr, g, mpi):
    """The contract of _partition_io."""
    if not mpi or e.choose(2, "divided") == 0:
        g.split = None
        return lambda self, skip=False, threshold=0: (0, [slice(0, self.local_shape[0])])
    e.assumed.add(A_CHUNKS)

    def part(self, skip=False, threshold=0):
        if skip:
            return 0, [slice(0, self.local_shape[0])]
        d = g.split
        N = Int("chunks", lo=1)
        e.add(z3.And(g.S(0) == 0, g.S(N.z) == zi(self.local_shape[d])))

        def get(k):
            kz = zi(k)
            e.add(z3.Implies(z3.And(kz >= 0, kz < N.z), z3.And(0 <= g.S(kz), g.S(kz) < g.S(kz + 1), g.S(kz + 1) <= zi(self.local_shape[d]))))
            return slice(SInt(g.S(kz)), SInt(g.S(kz + 1)))

        return d, SSeq(N, get)

    others = [d for d in range(g.nd) if d != g.axis]
    if not others:
        raise PathEnd
    g.split = others[e.choose(len(others), "split")]
    g.S = z3.Function("chunk_bound", z3.IntSort(), z3.IntSort())
    return part


def inv_read(L):
    g = _G.cur
    e = eng()
    if L["__phase"] == "entry":
        return []
    if L["__phase"] == "assume":
        return [("done", SBool(zi(L["__k"]) == g.K))]
    return g.inv(L, zi(L["__k"]))


def heap_read(L):
    g = _G.cur
    g.K = eng().fresh("done")
    g.set(L)


def p_read(e):
    """Every element of this rank's share of the selection, for any file, selection and number of ranks."""
    from caput import mpiarray
    from caput.mpiarray import MPIArray
    from caput.memdata import _io, fileformats

    M, comm, nd, axis, shape = _world(e, (1, 2))
    G = M.GlobalArray(shape, "G")
    fmt = e.choose(2, "format")
    mpi = fmt == 0 and e.choose(2, "mpi") == 1
    swapped = fmt == 0 and e.choose(2, "byte order") == 1
    data = SArr._make(lambda idx: G.at(*idx), shape, ">f8" if swapped else float)
    sel, want, gshape = [], [], []
    lists = 0
    full = e.choose(2, "no selection") == 1
    for d in range(nd):
        if full:
            sel.append(slice(None))
            want.append(lambda j: j)
            gshape.append(shape[d])
            continue
        k = e.choose(3 if lists == 0 else 2, f"sel{d}")
        if k == 2:
            lists += 1
            f = z3.Function(f"index{d}", z3.IntSort(), z3.IntSort())
            n = Int(f"len{d}", lo=0)

            def get(j, f=f, d=d, n=n):
                jz = zi(j)
                e.add(z3.Implies(z3.And(jz >= 0, jz < n.z), z3.And(f(jz) >= 0, f(jz) < zi(shape[d]))))
                return SInt(f(jz))

            sel.append(SSeq(n, get))
            want.append(lambda j, get=get: get(j))
            gshape.append(n)
        else:
            st = [None, 2][k]
            if nd == 1:
                s = slice(_bound(e, shape[d], f"a{d}"), _bound(e, shape[d], f"b{d}"), st)
            else:  # what any slice amounts to (see the helpers)
                s = slice(Int(f"a{d}", lo=0), Int(f"b{d}", lo=0), st)
                e.assume((s.start <= s.stop) & (s.stop <= shape[d]))
            a, b, c = slice_indices(s, shape[d])
            sel.append(s)
            want.append(lambda j, a=a, c=c: a + j * c)
            gshape.append(SInt(zi(range_len(a, b, c))))
    fh = _File(data, mpi)
    _io.open_h5py_mpi = lambda *a, **k: fh
    g = _G.cur = type("Ghost", (), {})()
    g.nd, g.axis = nd, axis
    MPIArray._partition_io = _chunks(e, None, g, mpi)
    part = M.partition(gshape[axis], comm.size)
    off = part.start(comm.rank)
    junk = z3.Function("junk", *([z3.IntSort()] * nd), U)

    def value(idx):
        return G.at(*[want[d](idx[d] + off if d == axis else idx[d]) for d in range(nd)])

    def inv(L, k):
        a = L["dist_arr"].local_array
        x = M.local_index(e, a.shape)
        return [("read-so-far", Implies(SBool(zi(x[g.split]) < g.S(k)), SBool(a[x].z == value(x).z)))]

    def set_(L):
        L["dist_arr"]._store.fn = lambda idx: SVal(z3.If(zi(idx[g.split]) < g.S(g.K), value(idx).z, junk(*[zi(i) for i in idx])))

    g.inv, g.set = inv, set_
    e.cover("pre")
    s = None if full else list(sel)
    given = list(sel)
    if fmt == 0:
        r = MPIArray.from_file(fh, "data", comm=comm, axis=axis, sel=s)
    else:
        class Fmt:
            """The Zarr format, with the group at hand."""

            class module:
                Group = _File

            def __eq__(self, o):
                return o is fileformats.Zarr

            __hash__ = object.__hash__

        r = MPIArray.from_file(fh, "data", comm=comm, axis=axis, sel=s, file_format=Fmt())
    M.meta_ok(e, r, axis, gshape, part, comm, "read:")
    x = M.local_index(e, r.shape)
    e.prove("read:every-element-selected", SBool(r.local_array[x].z == value(x).z))
    if s is not None:
        e.prove("read:the-selection-is-left-as-given", SBool(z3.BoolVal(len(s) == len(given) and all(p is q for p, q in zip(s, given)))))


def p_write_serial(e):
    """Writing in turn: this rank writes its rows, once, after the dataset was created."""
    from caput import mpiarray
    from caput.mpiarray import MPIArray
    from caput.memdata import _io
    import pv.rt as rt

    M, comm, nd, axis, shape = _world(e)
    arr, G, part0 = M.make_mpiarray(e, shape, axis, comm)
    junk = z3.Function("junk", *([z3.IntSort()] * nd), U)
    fh = _File(SArr._make(lambda idx: SVal(junk(*[zi(i) for i in idx])), shape, float).copy(), False)
    fh.dset.dtype = arr.dtype
    exists = e.choose(2, "exists") == 1
    fh.created = None if exists else False
    trace = []
    _io.open_h5py_mpi = lambda f, mode, **k: (trace.append(("open", mode)), fh)[1]
    rows = M.partition(shape[0], comm.size)

    def redist(self, axis):
        e.assumed.add(A_REDIST)
        b, _, _ = M.make_mpiarray(e, shape, axis, comm)
        return b

    MPIArray.redistribute = redist
    comm.Barrier = lambda: trace.append(("barrier",))
    class Os:
        class path:
            exists = staticmethod(lambda p: True)

    rt.OVERRIDE["os"] = Os
    g = _G.cur = type("Ghost", (), {})()

    def state(k):
        def fn(idx):
            mine = z3.And(zi(idx[0]) >= rows.start(comm.rank).z, zi(idx[0]) < rows.end(comm.rank).z, comm.rank.z < k)
            return SVal(z3.If(mine, G.at(*idx).z, g.before(idx)))

        return fn

    def inv(L, k):
        x = M.local_index(e, shape)
        e.ghost["in"] = True
        return [("own-rows-written-in-turn", SBool(fh.data[x].z == state(k)(x).z))]

    def set_(L):
        f0 = fh.data._store.fn
        g.before = lambda idx: zi_val(f0(idx))
        fh.data._store.fn = state(g.K)
        g.opened = list(trace)

    def zi_val(v):
        return v.z if isinstance(v, SVal) else z3.Const("zero", U)

    g.inv, g.set = inv, set_
    g.before = None
    zero = z3.Const("zero", U)
    mpiarray.__dict__["_zero"] = None
    create = e.choose(2, "create") == 1
    e.cover("pre")
    try:
        arr._to_hdf5_serial("name", "data", create)
    finally:
        rt.OVERRIDE.pop("os", None)
    e.cover("path-end")
    x = M.local_index(e, shape)
    mine = z3.And(zi(x[0]) >= rows.start(comm.rank).z, zi(x[0]) < rows.end(comm.rank).z)
    e.prove("serial:own-rows-are-in-the-file", SBool(z3.Implies(mine, fh.data[x].z == G.at(*x).z)))
    if trace and trace[0] == ("open", "a" if create else "r+") and ("barrier",) in trace:
        e.prove("serial:created-by-one-rank", SBool(comm.rank.z == 0))
        e.prove("serial:created-before-anyone-writes", SBool(z3.BoolVal(trace.index(("barrier",)) >= 1)))
    else:
        e.prove("serial:created-by-one-rank", SBool(comm.rank.z != 0))


def p_write(e):
    """Parallel writes (HDF5 with MPI, Zarr): exactly this rank's share of the file is written, with its values."""
    import h5py
    import zarr

    from caput.mpiarray import MPIArray
    from caput.memdata import _io, fileformats

    M, comm, nd, axis, shape = _world(e, (1, 2))
    arr, G, part = M.make_mpiarray(e, shape, axis, comm)
    junk = z3.Function("junk", *([z3.IntSort()] * nd), U)
    old = lambda idx: SVal(junk(*[zi(i) for i in idx]))
    fh = _File(SArr._make(old, shape, float).copy(), True)
    fh.dset.dtype = arr.dtype
    fh.created = None if e.choose(2, "exists") else False
    g = _G.cur = type("Ghost", (), {})()
    g.nd, g.axis = nd, axis
    z = e.choose(2, "format") == 1
    MPIArray._partition_io = _chunks(e, None, g, not z)
    s, t = part.start(comm.rank), part.end(comm.rank)

    def value(idx, upto=None):
        mine = z3.And(zi(idx[axis]) >= s.z, zi(idx[axis]) < t.z)
        if upto is not None:
            mine = z3.And(mine, zi(idx[g.split]) < upto)
        return SVal(z3.If(mine, G.at(*idx).z, old(idx).z))

    def inv(L, k):
        x = M.local_index(e, shape)
        return [("written-so-far", SBool(fh.data[x].z == value(x, g.S(k)).z))]

    def set_(L):
        K = g.K
        fh.data._store.fn = lambda idx: value(idx, g.S(K))

    g.inv, g.set = inv, set_
    e.cover("pre")
    keep = zarr.Group
    try:
        if z:
            zarr.Group = _File
            fh.synchronizer = True
            arr.to_zarr(fh, "data", False, None, None, None)
        else:
            class Conf:
                mpi = True

            keep2, h5py.get_config = h5py.get_config, lambda: Conf
            _io.open_h5py_mpi = lambda *a, **k: fh
            arr.__dict__["_flags"] = {"C_CONTIGUOUS": e.choose(2, "contiguous") == 1}
            try:
                arr.to_hdf5("name", "data", create=True)
            finally:
                h5py.get_config = keep2
    finally:
        zarr.Group = keep
    e.cover("path-end")
    x = M.local_index(e, shape)
    e.prove("write:exactly-this-share-with-its-values", SBool(fh.data[x].z == value(x).z))
    if fh.created:
        name, shp, dt = fh.created
        e.prove("write:the-dataset-has-the-global-shape-and-type", And(*[SInt(zi(p)) == q for p, q in zip(shp, shape)]) if name == "data" and len(shp) == nd and dt == arr.dtype else SBool(z3.BoolVal(False)))


def to_read(name, model):
    nd = model.get("ndim", 1)
    out = []
    for sel in (None, [{"s": [1, None, None]}] * nd, [{"s": [None, -1, 2]}] * nd, [{"s": [-4, None, None]}] * nd):
        for ax in range(nd):
            out.append(("read", {"shape": [7, 5, 4][:nd], "axis": ax, "sel": sel, "dtype": "f8", "fmt": "h5", "name": "d"}))
    return out


_F = "caput/mpiarray.py:"
PROOFS = [
    Proof("helpers", p_helpers, [_F + "_reslice", _F + "_len_slice"]),
    Proof("helper-list", p_helper_list, [_F + "_reslice", _F + "_len_slice"]),
    Proof("read", p_read, [_F + "MPIArray.from_file", _F + "_expand_sel", _F + "_partition_sel", _F + "_reslice", _F + "_len_slice"],
          loops={MA + "from_file#2": LoopContract(inv_read, None, heap_read)}, to_cases=to_read, budget=400),
    Proof("write", p_write, [_F + "MPIArray.to_hdf5", _F + "MPIArray.to_zarr", _F + "MPIArray._make_selections", _F + "_create_or_get_dset"],
          loops={MA + "to_hdf5#1": LoopContract(inv_read, None, heap_read)}, budget=300),
    Proof("write-serial", p_write_serial, [_F + "MPIArray._to_hdf5_serial", _F + "_create_or_get_dset"],
          loops={MA + "_to_hdf5_serial#2": LoopContract(inv_read, None, heap_read)}, budget=300),
]


# ---------------------------------------------------------------- falsifiers


def gen(rng, i):
    nd = rng.choice([1, 2, 2, 3])
    shape = [rng.choice([1, 2, 3, 5, 7, 10]) for _ in range(nd)]
    axis = rng.randrange(-nd, nd)
    sel = None
    if rng.random() < 0.85:
        sel = []
        for d in range(nd if rng.random() < 0.7 else rng.randrange(1, nd + 1)):
            n = shape[d]
            r = rng.random()
            if r < 0.25:
                sel.append({"s": [None, None, None]})
            elif r < 0.75 or (n < 2):
                a = rng.choice([None, rng.randrange(-n - 2, n + 2)])
                b = rng.choice([None, rng.randrange(-n - 2, n + 2)])
                sel.append({"s": [a, b, rng.choice([None, 1, 2, 3, 4])]})
            else:
                k = rng.randrange(1, n + 1)
                sel.append({"l": sorted(rng.sample(range(n), k))})
        # h5py allows one list selection per read
        seen = False
        for j, x in enumerate(sel):
            if "l" in x:
                if seen:
                    sel[j] = {"s": [None, None, None]}
                seen = True
    return {"shape": shape, "axis": axis, "sel": sel, "dtype": rng.choice(["f8", "f4", "i4", "c16", ">f4", ">i2"]),
            "fmt": rng.choice(["h5", "h5", "zarr"]), "name": rng.choice(["d", "d", "g/x"])}


def check(c):
    import os
    import shutil

    import h5py
    import numpy as np
    import zarr

    from caput.mpiarray import MPIArray
    from caput.memdata import fileformats
    from contracts.mpi_plain import comm_world, garray, meta, share, unkey

    comm = comm_world()
    G = garray(c["shape"], "f8").astype(c["dtype"]) if not c["dtype"].startswith("c") else garray(c["shape"], "c16")
    base = os.path.join(os.environ["TMPDIR"], "r6")
    if comm.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        if c["fmt"] == "h5":
            with h5py.File(base + "/f.h5", "w") as f:
                f.create_dataset(c["name"], data=G)
        else:
            g = zarr.open_group(base + "/f.zarr", "w")
            g.create_dataset(c["name"], data=G)
    comm.Barrier()
    sel = None if c["sel"] is None else tuple(unkey(s) for s in c["sel"])
    want = G
    if sel is not None:
        for d, s in enumerate(sel):
            want = want[(slice(None),) * d + (s,)]
    ax = c["axis"] % G.ndim
    # the selection is left as given
    before = repr(sel)
    if c["fmt"] == "h5":
        r = MPIArray.from_hdf5(base + "/f.h5", c["name"], comm=comm, axis=c["axis"], sel=sel)
    else:
        r = MPIArray.from_file(base + "/f.zarr", c["name"], comm=comm, axis=c["axis"], sel=sel, file_format=fileformats.Zarr)
    if repr(sel) != before:
        return "the caller's selection was modified"
    m = meta(r, want, ax, comm, f"read of {c['sel']}")
    if m:
        return m
    comm.Barrier()
    return None


def gen_w(rng, i):
    nd = rng.choice([1, 2, 3])
    return {"shape": [rng.choice([1, 2, 3, 5, 8]) for _ in range(nd)], "axis": rng.randrange(nd), "fmt": rng.choice(["h5", "zarr"]),
            "dtype": rng.choice(["f8", "f4", "i4", "c16"]), "twice": rng.random() < 0.5, "tr": rng.random() < 0.3}


def check_w(c):
    import os
    import shutil

    import h5py
    import numpy as np
    import zarr

    from caput.memdata import fileformats
    from contracts.mpi_plain import comm_world, dist, garray, meta, same

    comm = comm_world()
    G = garray(c["shape"], c["dtype"])
    a = dist(G, c["axis"], comm)
    if c["tr"]:
        G, a = G.transpose(), a.transpose()
    base = os.path.join(os.environ["TMPDIR"], "w6")
    if comm.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
    comm.Barrier()
    cwd = os.getcwd()
    os.chdir(base)
    try:
        fmt = fileformats.HDF5 if c["fmt"] == "h5" else fileformats.Zarr
        a.to_file("f", "data", create=True, file_format=fmt)
        H = G
        if c["twice"]:  # overwrite the same dataset with other values
            H = (G * 2).astype(G.dtype)
            a.local_array[...] = (a.local_array * 2).astype(G.dtype)
            a.to_file("f", "data", create=False, file_format=fmt)
        comm.Barrier()
        if c["fmt"] == "h5":
            with h5py.File("f", "r") as f:
                got = f["data"][()]
        else:
            got = zarr.open_group("f", "r")["data"][...]
        comm.Barrier()
        return same(got, np.ascontiguousarray(H), "file contents")
    finally:
        os.chdir(cwd)


# selection helpers over concrete ranges
def gen_s(rng, i):
    n = rng.randrange(0, 12)
    a = rng.choice([None, rng.randrange(-n - 3, n + 4)])
    b = rng.choice([None, rng.randrange(-n - 3, n + 4)])
    st = rng.choice([None, 1, 2, 3, 5])
    u = rng.randrange(0, n + 3)
    v = rng.randrange(u, n + 4)
    return {"n": n, "s": [a, b, st], "sub": [u, v], "list": [rng.randrange(n) for _ in range(rng.randrange(0, 6))] if n else [],
            "ax": rng.randrange(3)}


def check_s(c):
    import numpy as np

    from caput import mpiarray as M

    n = c["n"]
    full = list(range(n))
    s = slice(*c["s"])
    if M._len_slice(s, n) != len(full[s]):
        return f"_len_slice({s}, {n}) = {M._len_slice(s, n)}"
    r = M._reslice(s, n, slice(*c["sub"]))
    if full[r] != full[s][slice(*c["sub"])]:
        return f"_reslice({s}, {n}, {c['sub']}) = {r} selects {full[r]}, expected {full[s][slice(*c['sub'])]}"
    if M._len_slice(c["list"], n) != len(c["list"]) or list(M._reslice(c["list"], n, slice(*c["sub"]))) != c["list"][slice(*c["sub"])]:
        return "list selection"
    shp = [2, 3, 4]
    shp[c["ax"]] = n
    A = np.arange(int(np.prod(shp))).reshape(shp)
    sl = (slice(None),) * c["ax"]
    if not np.array_equal(M._apply_sel(A, s, c["ax"]), A[(*sl, s)]):
        return "_apply_sel slice"
    for t in (list, tuple):
        if not np.array_equal(M._apply_sel(A, t(c["list"]), c["ax"]), A[(*sl, np.array(c["list"], dtype=int))]):
            return "_apply_sel list"
    return None


FIXED = [
    {"shape": [10], "axis": 0, "sel": [{"s": [7, 3, None]}], "dtype": "f8", "fmt": "h5", "name": "d"},
    {"shape": [10, 4], "axis": 0, "sel": [{"s": [1, None, 3]}, {"l": [0, 2]}], "dtype": "f8", "fmt": "h5", "name": "d"},
    {"shape": [10, 4], "axis": -1, "sel": [{"l": [1, 4, 9]}], "dtype": "f8", "fmt": "h5", "name": "d"},
]
FALSIFIERS = [
    Falsifier("read", gen, check, n=150, thorough=2000, ranks=(1, 2, 3, 4), fixed=FIXED),
    Falsifier("write", gen_w, check_w, n=40, thorough=300, ranks=(1, 2, 3)),
    Falsifier("sel", gen_s, check_s, n=1500, thorough=50000,
              fixed=[{"n": 5, "s": [4, 1, None], "sub": [0, 2], "list": [], "ax": 0}]),
]

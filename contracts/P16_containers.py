"""Axis-based containers stay consistent under creation, copying and selection."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = ["only datasets declared by the container class are covered by axis selections; axis names are unique within a dataset"]
RULE = "random container classes (axes, dataset declarations, inheritance), axis arguments, copies, saved and loaded with selections"


# ---------------------------------------------------------------- proofs
SPEC = {"vis": ["freq", "time"], "siv": ["time", "freq"], "gain": ["freq"], "flag": ["time"], "cube": ["time", "freq", 3]}


def _cls(chunks=False):
    from caput.containers import ContainerPrototype

    class B(ContainerPrototype):
        _axes = ("freq",)
        _dataset_spec = {
            "vis": {"axes": ["freq"], "dtype": "i4", "initialise": False},  # overridden below
            "gain": {"axes": ["freq"], "dtype": "f8", "initialise": True, "distributed": False},
        }

    class K(B):
        _axes = ("time",)
        _dataset_spec = {
            "vis": {"axes": ["freq", "time"], "dtype": "f8", "initialise": True, "distributed": False, **({"chunks": (16, 32)} if chunks else {})},
            "siv": {"axes": ["time", "freq"], "dtype": "f4", "initialise": False, "distributed": False},
            "flag": {"axes": ["time"], "dtype": "f8", "initialise": True, "distributed": False},
            "cube": {"axes": ["time", "freq", 3], "dtype": "f8", "initialise": True, "distributed": False},
        }

    return B, K


INIT = {"vis", "gain", "flag", "cube"}


def _axis(e, a, tag=""):
    """An axis argument: a number or an array of arbitrary values."""
    n = Int(f"n_{a}{tag}")
    e.assume(n >= 0)
    f = z3.Function(f"ax_{a}{tag}", z3.IntSort(), U)
    if e.choose(2, f"kind_{a}{tag}") == 0:
        return n, n, (lambda i: i.z), True
    return n, SArr._make(lambda i: SVal(f(zi(i[0]))), (n,), "f8"), (lambda i: f(zi(i))), False


def _el(v, j):
    r = v.at(j)
    return r.z if hasattr(r, "z") else zi(r)


def _fill(e, c, N, tag):
    """Arbitrary contents."""
    fs = {}
    for n, axes in SPEC.items():
        if n not in c:
            continue
        f = fs[n] = z3.Function(tag + n, *([z3.IntSort()] * len(axes)), U)
        c[n][:] = SArr._make(lambda i, f=f: SVal(f(*[zi(x) for x in i])), [N.get(a, a) for a in axes], "f8")
        c[n].attrs["unit"] = tag + n
    return fs


def _point(e, N):
    j = {a: SInt(e.fresh(f"j_{a}")) for a in N}
    for a in N:
        e.assume(And(j[a] >= 0, j[a] < N[a]))
    j[3] = SInt(e.fresh("j3"))
    e.assume(And(j[3] >= 0, j[3] < 3))
    return j


T_, F_ = (lambda: SBool(z3.BoolVal(True))), (lambda: SBool(z3.BoolVal(False)))


def p_create(e):
    """Datasets have exactly the shape and type their declaration and the axes give."""
    import numpy as np

    chunks = e.choose(2, "chunks") == 1
    B, K = _cls(chunks)
    nf, af, vf, cf = _axis(e, "freq")
    nt, at, vt, ct = _axis(e, "time")
    N = {"freq": nf, "time": nt}
    e.cover("pre")
    c = K(freq=af, time=at, distributed=False)
    e.prove("create:axes", T_() if sorted(c.index_map) == ["freq", "time"] and c.axes == ("freq", "time") else F_())
    e.prove("create:exactly-the-initial-datasets", T_() if {n for n in SPEC if n in c} == INIT else F_())
    if e.choose(2, "more"):
        c.add_dataset("siv")
        e.prove("create:added-on-request", T_() if "siv" in c else F_())
    for n, axes in SPEC.items():
        if n not in c:
            continue
        d = c[n]
        e.prove("create:rank", T_() if len(d.shape) == len(axes) else F_())
        e.prove("create:shape-is-that-of-the-axes", And(*[SInt(zi(x)) == N.get(a, a) for x, a in zip(d.shape, axes)]))
        e.prove("create:declared-type", T_() if d.dtype == np.dtype("f4" if n == "siv" else "f8") else F_())
        e.prove("create:axis-names", T_() if [str(x) for x in d.attrs["axis"]] == [str(x) for x in axes] else F_())
        if n == "vis" and chunks:
            e.prove("create:chunks-within-shape", And(*[SInt(zi(x)) == Ite(SInt(zi(y)) < N[a], y, N[a]) for x, y, a in zip(d.chunks, (16, 32), axes)]))
    try:
        c.add_dataset("nosuch")
        e.prove("create:undeclared-refused", F_())
    except RuntimeError:
        pass
    j = _point(e, N)
    e.prove("create:axis-values", SBool(z3.And(_el(c.index_map["freq"], j["freq"]) == (vf(j["freq"]) if not cf else zi(j["freq"])), _el(c.index_map["time"], j["time"]) == (vt(j["time"]) if not ct else zi(j["time"])))))
    try:
        K(freq=af, distributed=False)
        e.prove("create:missing-axis-refused", F_())
    except RuntimeError:
        pass


def p_from(e):
    """Containers made from another one: contents where the axes are the same, nothing shared."""
    from caput import containers

    B, K = _cls()
    nf, af, vf, cf = _axis(e, "freq")
    nt, at, vt, ct = _axis(e, "time")
    N = {"freq": nf, "time": nt}
    src = K(freq=af, time=at, distributed=False)
    fs = _fill(e, src, N, "src_")
    src.attrs["note"] = "x"
    src.index_attrs["freq"]["al"] = 1
    how = ["copy_from", "axes_from", "like", "copy", "shared"][e.choose(5, "how")]
    over = e.choose(2, "override") == 1 and how in ("copy_from", "axes_from", "like")
    M = dict(N)
    kw = {}
    if over:
        n2, a2, v2, c2 = _axis(e, "time", "_new")
        M["time"], kw["time"] = n2, a2
    e.cover("pre")
    if how == "copy_from":
        c = K(copy_from=src, distributed=False, **kw)
    elif how == "axes_from":
        c = K(axes_from=src, distributed=False, **kw)
    elif how == "like":
        c = containers.empty_like(src, distributed=False, **kw)
    else:
        c = src.copy(shared=["/vis"] if how == "shared" else [])
    e.prove("from:datasets", T_() if {n for n in SPEC if n in c} == INIT and type(c) is K else F_())
    for n, axes in SPEC.items():
        if n in c:
            e.prove("from:shape", And(*[SInt(zi(x)) == M.get(a, a) for x, a in zip(c[n].shape, axes)]))
    e.prove("from:attributes", T_() if (c.attrs.get("note") == "x") == (how != "axes_from") and c.index_attrs["freq"].get("al") == 1 else F_())
    j = _point(e, M)
    e.prove("from:inherited-axis", SBool(_el(c.index_map["freq"], j["freq"]) == (vf(j["freq"]) if not cf else zi(j["freq"]))))
    if over:
        e.prove("from:given-axis", SBool(_el(c.index_map["time"], j["time"]) == (v2(j["time"]) if not c2 else zi(j["time"]))))
    for n in sorted(INIT):
        axes = SPEC[n]
        if how in ("copy_from", "copy", "shared") and not (over and "time" in axes):
            e.prove("from:contents-copied", SBool(c[n][:].at(*[j[a] for a in axes]).z == fs[n](*[zi(j[a]) for a in axes])))
    # writing to the new one
    gs = _fill(e, c, M, "new_")
    k = _point(e, N)
    for n in sorted(INIT):
        axes = SPEC[n]
        f = gs[n] if how == "shared" and n == "vis" else fs[n]
        e.prove("from:original-unchanged" if f is fs[n] else "from:shared-as-requested", SBool(src[n][:].at(*[k[a] for a in axes]).z == f(*[zi(k[a]) for a in axes])))
        e.prove("from:original-attributes-unchanged", T_() if how == "shared" or src[n].attrs["unit"] == "src_" + n else F_())


def p_select(e):
    """Selections act on the axis and on every dataset that has it, alike (memory to memory)."""
    from caput.memdata import MemGroup, deep_group_copy

    B, K = _cls()
    N = {a: Int(f"n_{a}") for a in ("freq", "time")}
    ax = {}
    for a in N:
        e.assume(N[a] >= 0)
        ax[a] = z3.Function("ax_" + a, z3.IntSort(), U)
    src = K(distributed=False, **{a: SArr._make(lambda i, a=a: SVal(ax[a](zi(i[0]))), (N[a],), "f8") for a in N})
    fs = _fill(e, src, N, "src_")
    which = [[], ["freq"], ["time"], ["freq", "time"]][e.choose(4, "which")]
    sel, M, pick = {}, dict(N), {a: (lambda j: j) for a in N}
    for a in which:
        kind = e.choose(3, "kind_" + a)
        if kind == 2:
            L = 1 + e.choose(2, "len_" + a)
            s = [Int(f"{a}_i{k}") for k in range(L)]
            for v in s:
                e.assume(And(v >= 0, v < N[a]))
            M[a] = L
            pick[a] = lambda j, s=s: s[0] if len(s) == 1 else Ite(j == 0, s[0], s[1])
        else:
            s = slice(Int(f"{a}_a"), None if len(which) > 1 else OptInt(f"{a}_b"), [None, 3][kind])
            x, y, c = slice_indices(s, N[a])
            M[a] = range_len(x, y, c)
            pick[a] = lambda j, x=x, c=c: x + j * c
        sel[a] = s
    e.cover("pre")
    try:
        K._make_selections({"nosuch": slice(None)})
        e.prove("select:unknown-axis-refused", F_())
    except RuntimeError:
        pass
    sels = K._make_selections(sel)
    e.prove("select:only-what-has-the-axis", T_() if set(sels) == {"/" + n for n, axes in SPEC.items() if set(axes) & set(which)} | {"/index_map/" + a for a in which} else F_())
    out = MemGroup()
    deep_group_copy(src._data, out, selections=sels)
    c = K(out, distributed=False)
    j = _point(e, M)
    for a in N:
        m = c.index_map[a]
        e.prove("select:axis-length", SInt(zi(m.shape[0])) == M[a])
        e.prove("select:axis-values", SBool(m.at(j[a]).z == ax[a](zi(pick[a](j[a])))))
    for n in sorted(INIT):
        axes = SPEC[n]
        d = c[n]
        e.prove("select:shape", And(*[SInt(zi(x)) == M.get(a, a) for x, a in zip(d.shape, axes)]))
        e.prove("select:elements", SBool(d[:].at(*[j[a] for a in axes]).z == fs[n](*[zi(pick[a](j[a]) if a in which else j[a]) for a in axes])))
        e.prove("select:source-unchanged", T_() if src[n][:]._store.writes == 1 else F_())


C_ = "caput.containers._core."
PROOFS = [
    Proof("create", p_create, [C_ + "ContainerPrototype.__init__", C_ + "ContainerPrototype.add_dataset", C_ + "ContainerPrototype._class_dataset_spec", C_ + "ContainerPrototype._class_axes", "caput.memdata._memh5.MemGroup.create_dataset"],
          covers=["pre"], bound="one two-level container class (axis lengths and values unbounded); not distributed", budget=400),
    Proof("from", p_from, [C_ + "ContainerPrototype.__init__", "caput.memdata._memh5.MemDiskGroup.copy", "caput.memdata._memh5.deep_group_copy", "caput.containers._util.empty_like"],
          covers=["pre"], bound="one two-level container class (axis lengths, values and contents unbounded); not distributed", budget=400),
    Proof("select", p_select, [C_ + "ContainerPrototype._make_selections", "caput.memdata._memh5.deep_group_copy", "caput.memdata._memh5._read_selection"],
          covers=["pre"], bound="one two-level container class, index lists of up to two entries (axis lengths, slice bounds and contents unbounded)", budget=400),
]

AX = ["freq", "pol", "time", "el_x"]


# ---------------------------------------------------------------- run time
def gen_cls(rng):
    levels = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        axes = rng.sample(AX, rng.choice([1, 2, 3]))
        levels.append({"axes": axes, "spec": {}})
    allax = sorted({a for l in levels for a in l["axes"]})
    for l in levels:
        for name in rng.sample(["vis", "weight", "gain", "flag"], rng.choice([1, 2, 3])):
            k = rng.sample(allax, rng.randrange(1, min(3, len(allax)) + 1))
            s = {"axes": k, "dtype": rng.choice(["f8", "f4", "c8", "i4"]), "initialise": rng.random() < 0.7, "distributed": rng.random() < 0.7}
            if rng.random() < 0.5:
                s["distributed_axis"] = rng.choice(k)
            if rng.random() < 0.2:
                s["chunks"] = [rng.choice([1, 2, 64]) for _ in k]
            l["spec"][name] = s
    return levels


def eff(levels):
    axes, spec = set(), {}
    for l in levels:
        axes |= set(l["axes"])
        spec.update(l["spec"])
    return sorted(axes), spec


def rsel(rng, n):
    from contracts.mpi_plain import rslice

    if n and rng.random() < 0.4:
        return {"l": sorted(rng.sample(range(n), rng.randrange(1, n + 1)))}
    s = rslice(rng, n, neg_step=False)
    return s


def gen(rng, i):
    levels = gen_cls(rng)
    axes, spec = eff(levels)
    L = {a: rng.choice([1, 2, 3, 4, 5, 7]) for a in axes}
    c = {"levels": levels, "args": {a: {"n": L[a], "kind": rng.choice(["int", "float", "struct", "str"])} for a in axes}, "seed": rng.randrange(999),
         "attrs": {"note": "x", "num": 3}, "op": rng.choice(["none", "copy", "like", "copyfrom", "axesfrom", "load", "load", "redist", "addmissing"])}
    if c["op"] in ("like", "copyfrom", "axesfrom"):
        c["override"] = {a: rng.choice([1, 3, 6]) for a in axes if rng.random() < 0.35}
    if c["op"] == "load":
        c["sel"] = {a: rsel(rng, L[a]) for a in axes if rng.random() < 0.6}
        c["fmt"] = rng.choice(["h5", "zarr"])
        c["dist"] = rng.random() < 0.6
        if c["dist"]:  # distributed reads take one list of indices
            for a in [a for a, x in c["sel"].items() if "l" in x][1:]:
                del c["sel"][a]
    if c["op"] == "redist":
        c["to"] = [rng.choice([*axes, 0, -1]) for _ in range(rng.choice([1, 2]))]
    return c


def mk_class(levels, mod):
    from caput.containers import ContainerPrototype

    K = ContainerPrototype
    for i, l in enumerate(levels):
        spec = {}
        for n, s in l["spec"].items():
            spec[n] = dict(s)
            if "chunks" in s:
                spec[n]["chunks"] = tuple(s["chunks"])
        K = type(f"C{i}", (K,), {"_axes": tuple(l["axes"]), "_dataset_spec": spec, "__module__": mod.__name__})
        setattr(mod, f"C{i}", K)
    return K


def axis_vals(a, d):
    import numpy as np

    n = d["n"]
    return {"int": n, "float": np.linspace(10, 11, n), "struct": np.array([(i, i / 2) for i in range(n)], dtype=[("id", "i4"), ("width", "f8")]),
            "str": np.array([f"{a}{i}" for i in range(n)])}[d["kind"]]


def whole(d):
    """The global content of a dataset."""
    import numpy as np

    from caput.memdata import MemDatasetDistributed

    if isinstance(d, MemDatasetDistributed):
        return d[:].allgather()
    return np.asarray(d[:])


def fill(cont, seed):
    """Known contents for every dataset; returns {name: global array}."""
    import numpy as np

    from caput.memdata import MemDatasetDistributed
    from contracts.mpi_plain import garray

    out = {}
    for k, name in enumerate(sorted(cont.datasets)):
        d = cont[name]
        shape = d.global_shape if isinstance(d, MemDatasetDistributed) else d.shape
        G = garray(shape, np.dtype(d.dtype).str[1:], start=seed + 31 * k)
        if isinstance(d, MemDatasetDistributed):
            ax = d.distributed_axis
            o = d.local_offset[ax]
            d[:] = G[(slice(None),) * ax + (slice(o, o + d.local_shape[ax]),)]
        else:
            d[:] = G
        d.attrs["unit"] = f"u{k}"
        out[name] = G
    return out


def inspect(cont, axes, spec, maps, names, what):
    """Declared axes, index maps, datasets present, their shapes, types, axis attribute, distribution."""
    import numpy as np

    from caput.memdata import MemDatasetDistributed

    if sorted(cont.index_map) != sorted(axes):
        return f"{what}: index maps {sorted(cont.index_map)}, expected {sorted(axes)}"
    for a in axes:
        got, want = np.asarray(cont.index_map[a]), np.asarray(maps[a])
        if got.shape != want.shape or got.dtype.names != want.dtype.names or not np.array_equal(got, want):
            return f"{what}: index map {a} {got.tolist()}, expected {want.tolist()}"
    if sorted(cont.datasets) != sorted(names):
        return f"{what}: datasets {sorted(cont.datasets)}, expected {sorted(names)}"
    for n in names:
        d, s = cont[n], spec[n]
        shape = tuple(len(maps[a]) for a in s["axes"])
        isd = isinstance(d, MemDatasetDistributed)
        got = tuple(d.global_shape) if isd else tuple(d.shape)
        if got != shape:
            return f"{what}: {n} has shape {got}, its axes {shape}"
        if d.dtype != np.dtype(s["dtype"]):
            return f"{what}: {n} has type {d.dtype}"
        if list(d.attrs["axis"]) != list(s["axes"]):
            return f"{what}: {n} axis attribute {d.attrs['axis']}"
    return None


def check(c):
    import os
    import shutil
    import sys
    import types

    import numpy as np

    from caput import containers
    from caput.memdata import MemDatasetDistributed, fileformats
    from contracts.mpi_plain import comm_world, same, unkey

    comm = comm_world()
    mod = types.ModuleType("contracts_p16_mod")
    sys.modules["contracts_p16_mod"] = mod
    K = mk_class(c["levels"], mod)
    axes, spec = eff(c["levels"])
    args = {a: axis_vals(a, d) for a, d in c["args"].items()}
    maps = {a: (np.arange(v) if isinstance(v, int) else v) for a, v in args.items()}
    init = [n for n, s in spec.items() if s["initialise"]]
    cont = K(comm=comm, **args)
    e = inspect(cont, axes, spec, maps, init, "created")
    if e:
        return e
    for n in init:
        d, s = cont[n], spec[n]
        if isinstance(d, MemDatasetDistributed) != s["distributed"]:
            return f"created: {n} distributed: {isinstance(d, MemDatasetDistributed)}"
        if s["distributed"]:
            want = s["axes"].index(s.get("distributed_axis", s["axes"][0]))
            if d.distributed_axis != want:
                return f"created: {n} distributed over {d.distributed_axis}, declared {want}"
    cont.attrs.update(c["attrs"])
    for a in axes:
        cont.index_attrs[a]["al"] = f"of {a}"
    data = fill(cont, c["seed"])
    op = c["op"]

    def compare(x, want, what, names=None):
        for n in names if names is not None else want:
            e = same(whole(x[n]), want[n], f"{what}: {n}")
            if e:
                return e
        return None

    if op == "none":
        return compare(cont, data, "contents")
    if op == "addmissing":
        for n in sorted(set(spec) - set(init)):
            cont.add_dataset(n)
        try:
            cont.add_dataset("unheard_of")
            return "added an undeclared dataset"
        except RuntimeError:
            pass
        return inspect(cont, axes, spec, maps, list(spec), "after adding") or compare(cont, data, "after adding")
    if op == "copy":
        share = init[:1]
        other = cont.copy(shared=["/" + n for n in share])
        e = inspect(other, axes, spec, maps, init, "copy") or compare(other, data, "copy")
        if e:
            return e
        if dict(other.attrs) != dict(cont.attrs) or type(other) is not K:
            return "copy: attributes or class differ"
        for n in init:
            other[n][:] = 0
        for n in init:
            want = np.zeros_like(data[n]) if n in share else data[n]
            e = same(whole(cont[n]), want, f"original after writing the copy: {n} ({'shared' if n in share else 'own'})")
            if e:
                return e
        return None
    if op in ("like", "copyfrom", "axesfrom"):
        ov = c["override"]
        extra = {a: np.arange(n) + 50 for a, n in ov.items()}
        if op == "like":
            other = containers.empty_like(cont, comm=comm, **extra)
        elif op == "copyfrom":
            other = K(copy_from=cont, comm=comm, **extra)
        else:
            other = K(axes_from=cont, comm=comm, **extra)
        m2 = {**maps, **extra}
        e = inspect(other, axes, spec, m2, init, op)
        if e:
            return e
        for a in axes:
            want = {} if a in extra else {"al": f"of {a}"}
            got = {k: v for k, v in other.index_attrs[a].items() if k == "al"}
            if got != want:
                return f"{op}: attributes of axis {a}: {got}, expected {want}"
        at = {k: v for k, v in other.attrs.items() if not k.startswith("_")}
        if at != ({} if op == "axesfrom" else c["attrs"]):
            return f"{op}: attributes {at}"
        for n in init:
            if ("unit" in other[n].attrs) != (op != "axesfrom"):
                return f"{op}: attributes of {n}: {dict(other[n].attrs)}"
        if op == "copyfrom":
            keep = [n for n in init if not set(spec[n]["axes"]) & set(extra)]
            e = compare(other, data, op, keep)
            if e:
                return e
        # independent of the original
        for n in init:
            other[n][:] = 1
        for a in axes:
            if a not in extra and len(maps[a]):
                other.index_map[a][:] = other.index_map[a][::-1].copy()
        return compare(cont, data, "original") or inspect(cont, axes, spec, maps, init, "original")
    if op == "redist":
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cont.redistribute(c["to"])
        for n in init:
            d, s = cont[n], spec[n]
            if not s["distributed"]:
                continue
            want = None
            for t in c["to"]:
                if isinstance(t, str):
                    if t in s["axes"]:
                        want = s["axes"].index(t)
                        break
                else:
                    want = t % len(s["axes"])
                    break
            if want is not None and d.distributed_axis != want:
                return f"redistribute: {n} over {d.distributed_axis}, expected {want}"
        return compare(cont, data, "redistributed") or inspect(cont, axes, spec, maps, init, "redistributed")
    # load
    base = os.path.join(os.environ["TMPDIR"], "w16")
    if comm.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
    comm.Barrier()
    cwd = os.getcwd()
    os.chdir(base)
    try:
        fmt = fileformats.HDF5 if c["fmt"] == "h5" else fileformats.Zarr
        name = "f.h5" if c["fmt"] == "h5" else "f.zarr"
        cont.save(name, file_format=fmt)
        comm.Barrier()
        sel = {a: unkey(s) for a, s in c["sel"].items()}
        kw = {a + "_sel": s for a, s in sel.items()}
        got = K.from_file(name, distributed=c["dist"], comm=comm, file_format=fmt, **kw)
        comm.Barrier()
        npsel = {a: (np.array(s, dtype=int) if isinstance(s, list) else s) for a, s in sel.items()}
        m2 = {a: (maps[a][npsel[a]] if a in sel else maps[a]) for a in axes}
        e = inspect(got, axes, spec, m2, init, "loaded")
        if e:
            return e
        for n in init:
            want = data[n]
            for k, a in enumerate(spec[n]["axes"]):
                if a in sel:
                    want = want[(slice(None),) * k + (npsel[a],)]
            e = same(whole(got[n]), want, f"loaded {n} with {c['sel']}")
            if e:
                return e
            if got[n].attrs["unit"] != cont[n].attrs["unit"]:
                return f"loaded {n}: attributes"
        if type(got) is not K:
            return f"loaded class {type(got)}"
        try:
            K.from_file(name, distributed=c["dist"], comm=comm, file_format=fmt, nosuch_sel=slice(0, 1))
            return "a selection on an axis that does not exist was accepted"
        except RuntimeError:
            return None
    finally:
        comm.Barrier()
        os.chdir(cwd)


# selection settings -> selections
def gen_sel(rng, i):
    keys = {}
    for a in rng.sample(["freq", "el_x", "time"], rng.randrange(0, 4)):
        for k in rng.sample(["range", "index", "map"], rng.choice([1, 1, 2, 3])):
            if k == "range":
                keys[f"{a}_{k}"] = rng.choice([[1, 4], [0, 9, 2], [3, 1], [-4, -1], [2], [1, 2, 3, 4], [1, "x"], 5, None])
            elif k == "index":
                keys[f"{a}_{k}"] = rng.choice([[1, 4], [0], [], [2, 0, 1], ["x"], 3])
            else:
                keys[f"{a}_{k}"] = rng.choice([["XX", "YY"], [600.0], []])
    if rng.random() < 0.1:
        keys[rng.choice(["freq_rnge", "freq", "time_sel"])] = [1, 2]
    return {"sel": keys, "map": rng.random() < 0.6}


def check_sel(c):
    from caput.pipeline.tasklib.io import SelectionsMixin

    class T(SelectionsMixin):
        pass

    t = T()
    t.selections = c["sel"]
    t.allow_index_map = c["map"]
    bad, want = False, {}
    for kind in ("map", "index", "range"):  # later ones take precedence
        for k, v in c["sel"].items():
            *a, ty = k.split("_")
            if ty not in ("range", "index", *(["map"] if c["map"] else [])):
                bad = True
            if ty != kind:
                continue
            if ty == "range":
                if not isinstance(v, list) or len(v) not in (2, 3) or not all(isinstance(x, int) for x in v):
                    bad = True
                else:
                    want["_".join(a) + "_sel"] = slice(*v)
            else:
                if not isinstance(v, list) or not v or (ty == "index" and not all(isinstance(x, int) for x in v)):
                    bad = True
                else:
                    want["_".join(a) + "_sel"] = list(v)
    try:
        t.setup()
    except ValueError:
        return None if bad else f"refused {c['sel']}"
    if bad:
        return f"accepted {c['sel']} as {t._sel}"
    return None if t._sel == want else f"{c['sel']} resolved to {t._sel}, expected {want}"


FALSIFIERS = [
    Falsifier("containers", gen, check, n=200, thorough=3000, ranks=(1, 2, 3)),
    Falsifier("settings", gen_sel, check_sel, n=800, thorough=10000),
]

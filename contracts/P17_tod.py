"""Joining time-ordered data concatenates the requested samples in order."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "the inputs agree in their datasets, types and other axes, and datasets are not distributed over a time axis (both are documented requirements)",
    "a dataset with nothing to join (no sample of its time axis is in the range) may be left out of the result",
]
RULE = "random series of containers or files (1 to 4 pieces, also empty ones), time axes, dataset layouts, start/stop, filters, against joining the pieces with numpy"


# ---------------------------------------------------------------- proofs
def p_limits(e):
    """The range of samples is that of Python's slices, never negative."""
    from caput.containers import tod

    n = Int("n")
    a, b = OptInt("start"), OptInt("stop")
    e.assume(n >= 0)
    e.cover("pre")
    s, t = tod._start_stop_inds(a, b, n)
    s, t = SInt(zi(s)), SInt(zi(t))
    sa, sb, _ = slice_indices(slice(a, b), n)
    sa, sb = SInt(zi(sa)), SInt(zi(sb))
    e.prove("limits:start", s == sa)
    e.prove("limits:stop", t == Ite(sb > sa, sb, sa))
    e.prove("limits:ordered", And(s >= 0, s <= t, t <= n))


def p_slices(e):
    """A piece holding part of the range puts each sample at its place."""
    from caput.containers import tod

    a, b, cur, n = Int("start"), Int("stop"), Int("current"), Int("n")
    e.assume(And(a >= 0, a <= b, cur >= 0, n >= 0, cur < b, cur + n > a))
    e.cover("pre")
    i, o = tod._get_in_out_slice(a, b, cur, n)
    lo, hi = SInt(zi(i.start)), SInt(zi(i.stop))
    ol, oh = SInt(zi(o.start)), SInt(zi(o.stop))
    e.prove("slices:unit-step", SBool(z3.BoolVal(i.step in (None, 1) and o.step in (None, 1))))
    e.prove("slices:within-piece", And(lo >= 0, lo <= hi, hi <= n))
    e.prove("slices:within-output", And(ol >= 0, ol <= oh, oh <= b - a))
    e.prove("slices:same-length", hi - lo == oh - ol)
    e.prove("slices:aligned", cur + lo - a == ol)
    g = Int("g")
    inpiece = And(g >= cur, g < cur + n, g >= a, g < b)
    e.prove("slices:exactly-the-overlap", And(Implies(inpiece, And(g - cur >= lo, g - cur < hi)), Implies(And(g - cur >= lo, g - cur < hi), inpiece)))


def p_concat(e):
    """The joined series, element by element (real containers holding arbitrary arrays)."""
    import numpy as np

    from caput.containers import tod

    K = 1 + e.choose(3, "pieces")
    layout = e.choose(3, "layout")
    axes = [["time"], ["freq", "time"], ["time", "freq"]][layout]
    F = Int("nfreq")
    e.assume(F >= 0)
    pieces, lens, fs = [], [], []
    kt = axes.index("time")
    for p in range(K):
        n = Int(f"n{p}")
        e.assume(n >= 0)
        c = tod.TOData()
        ft = z3.Function(f"time{p}", z3.IntSort(), U)
        fv = z3.Function(f"vis{p}", *([z3.IntSort()] * len(axes)), U)
        fg = z3.Function(f"gain{p}", z3.IntSort(), U)
        c.create_index_map("time", SArr._make(lambda i, ft=ft: SVal(ft(zi(i[0]))), (n,), "f8"))
        c.create_index_map("freq", SArr._make(lambda i, p=p: SVal(z3.Function(f"freq{p}", z3.IntSort(), U)(zi(i[0]))), (F,), "f8"))
        d = c.create_dataset("vis", data=SArr._make(lambda i, fv=fv: SVal(fv(*[zi(x) for x in i])), [n if a == "time" else F for a in axes], "f8"))
        d.attrs["axis"] = np.array(axes)
        d = c.create_dataset("gain", data=SArr._make(lambda i, fg=fg: SVal(fg(zi(i[0]))), (F,), "f8"))
        d.attrs["axis"] = np.array(["freq"])
        c.attrs["piece"] = p
        pieces.append(c)
        lens.append(n)
        fs.append((ft, fv, fg))
    a, b = OptInt("start"), OptInt("stop")
    cum = [SInt(z3.IntVal(0))]
    for n in lens:
        cum.append(cum[-1] + n)
    sa, sb, _ = slice_indices(slice(a, b), cum[-1])
    sa, sb = SInt(zi(sa)), SInt(zi(sb))
    m = Ite(sb > sa, sb - sa, 0)
    e.cover("pre")
    out = tod.concatenate(pieces, start=a, stop=b)
    t = out.index_map["time"]
    e.prove("join:axis-length", SInt(zi(t.shape[0])) == m)
    j, f = SInt(e.fresh("j")), SInt(e.fresh("f"))
    e.assume(And(j >= 0, j < m, f >= 0, f < F))
    if "vis" not in out:
        e.fail("join:dataset-present", "the range is not empty and the dataset is missing")
        return
    v = out["vis"]
    e.prove("join:dataset-shape", And(*[SInt(zi(x)) == (m if y == "time" else F) for x, y in zip(v.shape, axes)]))
    g = sa + j
    for p in range(K):
        if not bool(And(g >= cum[p], g < cum[p + 1])):
            continue
        ft, fv, fg = fs[p]
        e.prove("join:axis-values", SBool(t.at(j).z == ft(zi(g - cum[p]))))
        ix = [j if x == "time" else f for x in axes]
        gx = [zi(g - cum[p]) if x == "time" else zi(f) for x in axes]
        e.prove("join:dataset-values", SBool(v[:].at(*ix).z == fv(*gx)))
    e.prove("join:other-datasets-from-the-first", SBool(out["gain"][:].at(f).z == fs[0][2](zi(f))))
    e.prove("join:attributes-from-the-first", SBool(z3.BoolVal(out.attrs["piece"] == 0)))
    for p, c in enumerate(pieces):
        e.prove("join:inputs-unchanged", SBool(z3.And(z3.BoolVal(c["vis"][:]._store.writes == 0 and c.index_map["time"]._store.writes == 0 and c["gain"][:]._store.writes == 0 and c.attrs["piece"] == p))))


def c_limits(ob, m):
    n = int(m.get("n", 3))
    if n > 60:
        return
    yield "concatenate", dict(_CASE, lens=[{"time": n}], start=_mi(m, "start"), stop=_mi(m, "stop"))


def c_concat(ob, m):
    k = int(m.get("pieces", 0)) + 1
    yield "concatenate", dict(_CASE, lens=[{"time": min(60, int(m.get(f"n{p}", 1)))} for p in range(k)], start=_mi(m, "start"), stop=_mi(m, "stop"),
                              freq=max(1, min(8, int(m.get("nfreq", 1)))),
                              dsets={"vis": {"axes": [["time"], ["freq", "time"], ["time", "freq"]][int(m.get("layout", 0))], "dtype": "f8"}, "gain": {"axes": ["freq"], "dtype": "f8"}})


def _mi(m, k):
    v = m.get(k)
    return None if v is None or v == "None" else int(v)


_CASE = {"tax": ["time"], "freq": 2, "pol": 1, "dsets": {"vis": {"axes": ["time", "freq"], "dtype": "f8"}}, "tkind": "f8", "seed": 3, "src": "mem", "out": None,
         "filter": None, "sel": None, "rmap": False, "align": None}

T = "caput.containers.tod."
PROOFS = [
    Proof("limits", p_limits, [T + "_start_stop_inds"], to_cases=c_limits, covers=["pre"]),
    Proof("slices", p_slices, [T + "_get_in_out_slice"], covers=["pre"]),
    Proof("concat", p_concat, [T + "concatenate", T + "_copy_non_time_data", T + "_dset_has_axis", T + "_start_stop_inds", T + "_get_in_out_slice"], to_cases=c_concat, covers=["pre"],
          bound="one to three pieces (lengths, range and other axis unbounded), one time axis, three layouts", budget=400),
]

TAX = ["time", "gated_time"]


# ---------------------------------------------------------------- run time
def gen(rng, i):
    ntax = rng.choice([1, 1, 2])
    tax = TAX[:ntax]
    np_ = rng.choice([1, 2, 2, 3, 4])
    fz = rng.choice([1, 2, 4, 5])
    dsets = {}
    for n in rng.sample(["vis", "weight", "flags", "gain", "input_mask"], rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if k < 0.75:
            ax = [rng.choice(tax)]
            for a in rng.sample(["freq", "pol"], rng.choice([0, 1, 2])):
                ax.insert(rng.randrange(len(ax) + 1), a)
        else:
            ax = rng.sample(["freq", "pol"], rng.choice([1, 2]))
        dsets[n] = {"axes": ax, "dtype": rng.choice(["f8", "f4", "c8", "i4", "S4"])}
    lens = [{a: rng.choice([0, 1, 1, 2, 3, 4, 6]) for a in tax} for _ in range(np_)]
    tot = {a: sum(l[a] for l in lens) for a in tax}
    nmax = max(tot.values())

    def lim():
        k = rng.random()
        if k < 0.3:
            return None
        if k < 0.65:
            return rng.randrange(-nmax - 3, nmax + 4)
        if k < 0.75:
            return {"np": rng.randrange(-nmax - 1, nmax + 2)}
        return {"d": {a: rng.choice([None, rng.randrange(-tot[a] - 2, tot[a] + 3)]) for a in tax if rng.random() < 0.8}}

    c = {"tax": tax, "freq": fz, "pol": rng.choice([1, 2, 3]), "lens": lens, "dsets": dsets, "tkind": rng.choice(["f8", "struct"]),
         "start": lim(), "stop": lim(), "seed": rng.randrange(99),
         "src": rng.choice(["mem", "mem", "tuple", "h5", "zarr", "glob", "dist", "dist"]), "out": rng.choice([None, None, "h5"]),
         "filter": rng.choice([None, None, "one", "two", "swap"]), "sel": None, "rmap": rng.random() < 0.3, "align": rng.choice([None, 1, -1])}
    if rng.random() < 0.4:
        c["sel"] = rng.sample(sorted(dsets), rng.randrange(0, len(dsets) + 1))
    if c["src"] == "dist" and (c["out"] or c["filter"] == "swap"):
        c["out"] = c["filter"] = None
    return c


def gen_reader(rng, i):
    c = gen(rng, i)
    c["src"], c["filter"], c["out"] = "h5", None, rng.choice([None, "h5"])
    n = sum(l["time"] for l in c["lens"])
    if n == 0:
        c["lens"][0]["time"] = n = 2
    c["how"] = rng.choice(["index", "time", "none"])
    a, b = sorted([rng.randrange(0, n + 1), rng.randrange(0, n + 1)])
    if a == b:
        a, b = 0, n
    c["range"] = [a, b]
    c["sides"] = rng.choice(["both", "start", "stop"])
    c["align"] = None
    return c


def cls(c, mod):
    from caput.containers import tod

    K = type("K", (tod.TOData,), {"time_axes": tuple(c["tax"]), "__module__": mod})
    return K


def tvals(c, a, p):
    """Time axis of piece p (times increase over the series)."""
    import numpy as np

    lo = sum(l[a] for l in c["lens"][:p])
    n = c["lens"][p][a]
    t = 1000.0 + 10 * np.arange(lo, lo + n)
    if c["tkind"] == "struct":
        r = np.zeros(n, dtype=[("fpga", "u8"), ("ctime", "f8")])
        r["ctime"], r["fpga"] = t, np.arange(lo, lo + n)
        return r
    return t


def content(c, name, p):
    import numpy as np

    d = c["dsets"][name]
    shape = tuple(c["lens"][p][a] if a in c["tax"] else c[a] for a in d["axes"])
    n = int(np.prod(shape, dtype=int))
    k = sorted(c["dsets"]).index(name)
    v = (np.arange(n) * 7 + 1000 * p + 31 * k + c["seed"]).reshape(shape)
    return v.astype("U4").astype("S4") if d["dtype"] == "S4" else v.astype(d["dtype"])


def build(c, K, p, distributed=False):
    import numpy as np

    from contracts.mpi_plain import comm_world, share
    from caput import mpiarray

    comm = comm_world()
    o = K(distributed=True, comm=comm) if distributed else K()
    for a in c["tax"]:
        o.create_index_map(a, tvals(c, a, p))
        if c["align"] is not None and a == "time":
            o.index_attrs[a]["alignment"] = c["align"]
    o.create_index_map("freq", np.linspace(400, 800, c["freq"]) + p)
    o.create_index_map("pol", np.array([f"p{i}".encode() for i in range(c["pol"])]))
    if c["rmap"]:
        o.create_reverse_map("pol", np.arange(c["pol"]) + p)
    o.attrs["note"] = f"piece {p}"
    o.attrs["num"] = p
    o.add_history("made", {"by": f"piece {p}"})
    where = {}
    for n, d in c["dsets"].items():
        G = content(c, n, p)
        if distributed and "freq" in d["axes"] and d["dtype"] != "S4":
            ax = d["axes"].index("freq")
            ds = o.create_dataset(n, data=mpiarray.MPIArray.wrap(share(G, ax, comm).copy(), ax, comm=comm), distributed=True, distributed_axis=ax)
            where[n] = ax
        else:
            ds = o.create_dataset(n, data=G)
        ds.attrs["axis"] = np.array(d["axes"])
        ds.attrs["unit"] = f"{n}{p}"
    return o, where


def dump(o):
    """Everything in an input, to see that it is left alone."""
    import numpy as np

    from caput import memdata

    def arr(x):
        x = x[:]
        return np.asarray(getattr(x, "local_array", x)).tolist()

    r = {n: (arr(o[n]), str(o[n].dtype), getattr(o[n], "distributed_axis", None), {k: str(v) for k, v in o[n].attrs.items()}) for n in o._data if not memdata.is_group(o._data[n])}
    return repr((r, {k: v.tolist() for k, v in o.index_map.items()}, {k: v.tolist() for k, v in o.reverse_map.items()}, dict(o.attrs), dict(o.history)))


def lims(x, a):
    if isinstance(x, dict):
        return x["d"].get(a) if "d" in x else x["np"]
    return x


def real_lim(x):
    import numpy as np

    if isinstance(x, dict):
        return dict(x["d"]) if "d" in x else np.int64(x["np"])
    return x


def expect(c, sel, rng):
    """{axis: index range}, {dataset: (axes, joined array or None)}."""
    import numpy as np

    P = range(len(c["lens"]))
    maps = {a: np.concatenate([tvals(c, a, p) for p in P])[slice(*rng[a])] for a in c["tax"]}
    ds = {}
    for n, d in c["dsets"].items():
        t = [a for a in d["axes"] if a in c["tax"]]
        if not t:
            ds[n] = content(c, n, 0)
        elif sel is None or n in sel:
            k = d["axes"].index(t[0])
            j = np.concatenate([content(c, n, p) for p in P], axis=k)
            ds[n] = j[(slice(None),) * k + (slice(*rng[t[0]]),)]
    return maps, ds


def compare(c, out, maps, ds, where, filt=None, attrs_from=0):
    import json

    import numpy as np

    from caput import memdata
    from contracts.mpi_plain import comm_world, share, same

    comm = comm_world()
    if sorted(out.index_map) != sorted([*c["tax"], "freq", "pol"]):
        return f"index maps {sorted(out.index_map)}"
    for a in c["tax"]:
        g = np.asarray(out.index_map[a])
        if g.dtype != maps[a].dtype or not np.array_equal(g, maps[a]):
            return f"axis {a}: {g.tolist()}, expected {maps[a].tolist()}"
    if c["align"] is not None and out.index_attrs["time"].get("alignment") != c["align"]:
        return "attributes of the time axis lost"
    if not np.array_equal(out.index_map["freq"], np.linspace(400, 800, c["freq"])):
        return "other axis not that of the first"
    if [bytes(x) if isinstance(x, (bytes, np.bytes_)) else str(x).encode() for x in out.index_map["pol"]] != [f"p{i}".encode() for i in range(c["pol"])]:
        return f"other axis not that of the first: {out.index_map['pol']}"
    if c["rmap"] and not np.array_equal(out.reverse_map["pol"], np.arange(c["pol"])):
        return "reverse map not that of the first"
    if out.attrs.get("note") != "piece 0" or out.attrs.get("num") != 0:
        return f"attributes {dict(out.attrs)} are not those of the first"
    h = dict(out.history)
    made = h.get("made", {})
    if isinstance(made, str):  # on disk
        made = json.loads(made.split(":", 1)[1])
    if h.get("order") != ["made"] or dict(made) != {"by": "piece 0"}:
        return f"history {h} is not that of the first"
    got = [n for n in c["dsets"] if n in out]
    for n in c["dsets"]:
        if n not in ds:
            if n in got:
                return f"{n} was not asked for"
            continue
        d = c["dsets"][n]
        axes = list(d["axes"])
        W = ds[n]
        t = [a for a in axes if a in c["tax"]]
        if n not in got:
            if t and W.shape[axes.index(t[0])] == 0:
                continue
            return f"{n} is missing"
        if t and filt == "swap":
            W = np.swapaxes(W, 0, -1)
            axes[0], axes[-1] = axes[-1], axes[0]
        elif t and filt in ("one", "two") and d["dtype"] not in ("S4",):
            W = (W * 2).astype(W.dtype)
        o = out[n]
        x = o[:]
        if n in where:
            if not hasattr(x, "local_array"):
                return f"{n} is no longer distributed"
            if x.axis != where[n] or tuple(x.global_shape) != W.shape:
                return f"{n}: distributed over {x.axis} with shape {x.global_shape}, expected {where[n]}, {W.shape}"
            m = same(x.local_array, share(W, where[n], comm), n)
        else:
            m = same(np.asarray(x), W, n)
        if m:
            return m
        da = {}
        memdata.copyattrs(o.attrs, da, convert_strings=True)
        ga = list(da["axis"])
        if ga != axes:
            return f"{n}: axes {ga}, expected {axes}"
        if not filt and o.attrs["unit"][:-1] != n:
            return f"{n}: attributes {dict(o.attrs)}"
    return None


def mk_filter(kind):
    import numpy as np

    from caput import memdata

    def attrs(d):
        r = {}
        memdata.copyattrs(d.attrs, r, convert_strings=True)
        return r

    def two(d, s):
        ax = list(attrs(d)["axis"])
        k = [i for i, a in enumerate(ax) if a in TAX][0]
        x = d[(slice(None),) * k + (s,)]
        return x * x.dtype.type(2) if x.dtype.kind != "S" else x

    def one(d):
        if d.dtype.kind == "S":
            return d
        x = d[:]
        y = (x * x.dtype.type(2)).astype(x.dtype)
        if hasattr(y, "local_array"):
            n = memdata.MemDatasetDistributed.from_mpi_array(y)
        else:
            n = memdata.MemDatasetCommon.from_numpy_array(np.asarray(y))
        for k, v in attrs(d).items():
            n.attrs[k] = v
        return n

    def swap(d):
        n = memdata.MemDatasetCommon.from_numpy_array(np.swapaxes(d[:], 0, -1).copy())
        ax = list(attrs(d)["axis"])
        ax[0], ax[-1] = ax[-1], ax[0]
        n.attrs["axis"] = np.array(ax)
        return n

    return {None: None, "one": one, "two": two, "swap": swap}[kind]


def files(c, K, base):
    from contracts.mpi_plain import comm_world

    names = []
    for p in range(len(c["lens"])):
        o, _ = build(c, K, p)
        f = f"{base}/piece{p}." + ("zarr" if c["src"] == "zarr" else "h5")
        names.append(f)
        o.save(f, file_format=_ff(c["src"]))
    return names


def _ff(src):
    from caput.memdata import fileformats

    return fileformats.Zarr if src == "zarr" else fileformats.HDF5


def check(c):
    import glob as _glob
    import os
    import shutil
    import sys
    import tempfile

    import h5py

    from caput.containers import tod
    from contracts.mpi_plain import comm_world

    comm = comm_world()
    if comm.size > 1 and c["src"] != "dist":
        c = dict(c, src="dist", out=None, filter=None if c["filter"] == "swap" else c["filter"])
    mod = sys.modules[__name__]
    K = cls(c, __name__)
    mod.K = K
    tot = {a: sum(l[a] for l in c["lens"]) for a in c["tax"]}
    rng = {}
    for a in c["tax"]:
        s, e_, _ = slice(lims(c["start"], a), lims(c["stop"], a)).indices(tot[a])
        rng[a] = (s, max(s, e_))
    maps, ds = expect(c, c["sel"], rng)
    kw = {"start": real_lim(c["start"]), "stop": real_lim(c["stop"]), "datasets": c["sel"], "dataset_filter": mk_filter(c["filter"])}
    before = repr((kw["start"], kw["stop"], kw["datasets"]))
    base = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    oh = None
    try:
        where = {}
        if c["out"] == "h5":
            oh = h5py.File(base + "/out.h5", "w")
        if c["src"] in ("mem", "tuple", "dist"):
            pieces = []
            for p in range(len(c["lens"])):
                o, where = build(c, K, p, c["src"] == "dist")
                pieces.append(o)
            full = [dump(o) for o in pieces]
            out = tod.concatenate(tuple(pieces) if c["src"] == "tuple" else pieces, out_group=oh, **kw)
            # changing the result does not reach the inputs
            m = compare(c, out, maps, ds, where, c["filter"])
            if m:
                return m
            for n in c["dsets"]:
                if n in out and out[n].dtype.kind != "S" and oh is None:
                    out[n][:] = out[n][:] + 1
            if [dump(o) for o in pieces] != full:
                return "an input was modified"
        else:
            names = files(c, K, base)
            before_f = {f: _stamp(f) for f in names}
            arg = (base + "/piece*.h5") if c["src"] == "glob" else names
            out = K.from_mult_files(arg, data_group=oh, **({"file_format": _ff("zarr")} if c["src"] == "zarr" else {}), **kw)
            m = compare(c, out, maps, ds, {}, c["filter"])
            if m:
                return m
            if before_f != {f: _stamp(f) for f in names}:
                return "an input file was modified"
        if repr((kw["start"], kw["stop"], kw["datasets"])) != before:
            return "the caller's arguments were modified"
    finally:
        if oh is not None:
            oh.close()
        shutil.rmtree(base, ignore_errors=True)
    return None


def _stamp(f):
    import hashlib
    import os

    if os.path.isdir(f):
        return sorted((os.path.join(d, x), hashlib.md5(open(os.path.join(d, x), "rb").read()).hexdigest()) for d, _, y in os.walk(f) for x in y)
    return hashlib.md5(open(f, "rb").read()).hexdigest()


def check_reader(c):
    import os
    import shutil
    import sys
    import tempfile

    import h5py
    import numpy as np

    from caput.containers import tod

    mod = sys.modules[__name__]
    K = cls(c, __name__)
    mod.K = K

    class R(tod.TODReader):
        data_class = K

    base = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    oh = None
    try:
        names = files(c, K, base)
        r = R(names if c["seed"] % 2 else base + "/piece*.h5")
        tot = {a: sum(l[a] for l in c["lens"]) for a in c["tax"]}
        t = np.concatenate([tvals(c, "time", p) for p in range(len(c["lens"]))])
        t = t["ctime"] if c["tkind"] == "struct" else t
        if not np.array_equal(r.time, t):
            return f"times {r.time}, expected {t}"
        if tuple(r.time_sel) != (0, tot["time"]):
            return f"initial selection {r.time_sel}"
        tod_names = sorted(n for n, d in c["dsets"].items() if any(a in c["tax"] for a in d["axes"]))
        if sorted(r.datasets) != tod_names:
            return f"datasets {r.datasets}, expected {tod_names}"
        lo, hi = 0, tot["time"]
        a, b = c["range"]
        if c["how"] == "index":
            lo, hi = a, b
            r.time_sel = (lo, hi)
        elif c["how"] == "time":
            kw = {}
            if c["sides"] in ("both", "start") and a < tot["time"]:
                kw["start_time"], lo = t[a], a
            if c["sides"] in ("both", "stop") and b > 0:
                kw["stop_time"], hi = t[b - 1] + 5, b
            r.select_time_range(**kw)
            if tuple(r.time_sel) != (lo, hi):
                return f"time selection {kw}: {r.time_sel}, expected {(lo, hi)}"
        sel = None
        if c["sel"] is not None:
            sel = [n for n in c["sel"] if n in tod_names]
            r.dataset_sel = sel
        try:
            r.dataset_sel = ["no such dataset"]
            return "an unknown dataset was accepted"
        except ValueError:
            pass
        if c["out"]:
            oh = h5py.File(base + "/out.h5", "w")
        rng = {x: slice(lo, hi).indices(tot[x])[:2] for x in c["tax"]}
        rng = {x: (s, max(s, e)) for x, (s, e) in rng.items()}
        maps, ds = expect(c, sel, rng)
        return compare(c, r.read(oh), maps, ds, {}, None)
    finally:
        if oh is not None:
            oh.close()
        shutil.rmtree(base, ignore_errors=True)


FALSIFIERS = [
    Falsifier("concatenate", gen, check, n=500, thorough=15000, ranks=(1, 2, 3), bound="<=4 pieces, axis lengths <=6"),
    Falsifier("reader", gen_reader, check_reader, n=150, thorough=3000, bound="<=4 files"),
]

"""Saving and loading a data tree gives back the same tree."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = []
PROOFS = []
RULE = "random trees (groups, datasets of many types, attributes), both file formats, in-memory / on-disk / distributed, with selections"

DTYPES = ["<f8", "<f4", "<i4", "<i8", "<u2", "|i1", "<c16", "<c8", "|b1", "|S3", "<U4", "st", "stu", ">f4"]


def _arr(dt, shape, seed):
    import numpy as np

    r = np.random.RandomState(seed)
    n = int(np.prod(shape))
    if dt == "|S3":
        a = np.array([b"%d" % (k % 997) for k in r.randint(0, 999, n)], dtype="S3")
    elif dt == "<U4":
        a = np.array(["%dq" % (k % 997) for k in r.randint(0, 999, n)], dtype="<U4")
    elif dt in ("st", "stu"):
        sdt = [("x", "<f4"), ("y", "<i4", (2,)), ("s", "S4" if dt == "st" else "<U4"), ("in", [("p", "<i8"), ("q", "S2")])]
        a = np.zeros(n, dtype=sdt)
        a["x"] = r.rand(n)
        a["y"] = r.randint(0, 99, (n, 2))
        a["s"] = ["z%d" % (k % 99) for k in range(n)]
        a["in"]["p"] = r.randint(0, 99, n)
        a["in"]["q"] = [b"k%d" % (k % 9) for k in range(n)]
    elif dt == "|b1":
        a = r.rand(n) < 0.5
    elif dt[1] == "c":
        a = (r.randn(n) + 1j * r.randn(n)).astype(dt)
    else:
        a = (r.randn(n) * 50).astype(dt)
        if dt[1] == "f" and n > 2:
            a[0], a[1] = np.nan, np.inf
    return a.reshape(shape)


ATTRS = [3, -2, 2.5, True, "text", "", "accént", {"b": "raw"}, {"l": [1, 2, 3]}, {"l": ["a", "bb"]}, {"np": [1.5, 2.5]},
         {"npi": [1, 2, 3]}, {"npi": [4]}, {"npu": ["one"]}, {"nps": 1.25}, {"npu": ["aa", "b"]}, {"npS": ["aa", "b"]}, {"np2": [[1, 2], [3, 4]]},
         {"d": {"k": [1, {"m": "x"}], "n": None, "z": 1.5}}, {"dn": 7}, {"dt": [2020, 1, 2, 3, 4, 5]}, {"l": []}]


def _attr(a):
    import datetime

    import numpy as np

    if not isinstance(a, dict):
        return a
    (k, v), = a.items()
    return {
        "b": lambda: v.encode(), "l": lambda: list(v), "np": lambda: np.array(v), "npi": lambda: np.array(v, dtype=np.int32),
        "nps": lambda: np.float32(v), "npu": lambda: np.array(v), "npS": lambda: np.array([x.encode() for x in v]),
        "np2": lambda: np.array(v), "d": lambda: v,
        "dn": lambda: {"i": np.int64(v), "f": np.float32(0.5), "a": np.arange(3), "b": b"by"},
        "dt": lambda: datetime.datetime(*v),
    }[k]()


def _attr_want(a):
    if not isinstance(a, dict):
        return a
    (k, v), = a.items()
    if k == "dn":
        return {"i": v, "f": 0.5, "a": [0, 1, 2], "b": "by"}
    if k == "dt":
        import datetime

        return datetime.datetime(*v).isoformat()
    return v


def _plain(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return _plain(x.tolist())
    if isinstance(x, np.generic):
        return _plain(x.item())
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    return x


def gen_tree(rng, dist=False):
    nodes = []
    groups = [""]
    for _ in range(rng.randrange(0, 3)):
        p = rng.choice(groups) + "/" + rng.choice(["g", "h", "k"])
        if p not in groups:
            groups.append(p)
            nodes.append({"g": p, "attrs": {f"a{k}": rng.choice(ATTRS) for k in range(rng.randrange(0, 3))}})
    for j in range(rng.randrange(1, 5)):
        nd = rng.choice([1, 1, 2, 3])
        shape = [rng.choice([0, 1, 2, 3, 5]) if rng.random() < 0.7 else 4 for _ in range(nd)]
        d = {"d": rng.choice(groups) + f"/ds{j}", "dt": rng.choice(DTYPES), "shape": shape, "seed": rng.randrange(1000),
             "attrs": {f"a{k}": rng.choice(ATTRS) for k in range(rng.randrange(0, 3))},
             "comp": rng.choice([None, None, None, ["gzip", 3], ["bitshuffle", [0, "lz4"]], ["bitshuffle", [None, "lz4"]]]) if min(shape) else None}
        if d["comp"]:
            d["chunks"] = [max(1, (s + 1) // 2) for s in shape]
        if dist:
            d["axis"] = rng.choice([None, *range(nd)])
            if d["axis"] is not None:
                d["dt"] = rng.choice(["<f8", "<f4", "<i4", "<c16", "<i8"])
        nodes.append(d)
    return {"root": {f"a{k}": rng.choice(ATTRS) for k in range(rng.randrange(0, 3))}, "nodes": nodes}


def gen(rng, i):
    t = gen_tree(rng)
    c = {"tree": t, "fmt": rng.choice(["h5", "zarr"]), "conv": rng.random() < 0.6, "how": rng.choice(["plain", "plain", "mem", "ondisk", "resave", "copydisk"])}
    ds = [n for n in t["nodes"] if "d" in n]
    if c["how"] == "plain" and rng.random() < 0.5:
        n = rng.choice(ds)
        k = rng.randrange(len(n["shape"]))
        L = n["shape"][k]
        a = sorted(rng.sample(range(L + 1), 2)) if L else [0, 0]
        c["sel"] = [n["d"][rng.choice([0, 1]):], k, *a]
    return c


def _build(t, MemDiskGroup, comm=None, dist=False):
    from contracts.mpi_plain import dist as mk

    g = MemDiskGroup(distributed=True, comm=comm) if dist else MemDiskGroup()
    for k, v in t["root"].items():
        g.attrs[k] = _attr(v)
    for n in t["nodes"]:
        if "g" in n:
            x = g.create_group(n["g"])
        else:
            a = _arr(n["dt"], n["shape"], n["seed"])
            kw = {}
            if n.get("comp"):
                kw = {"compression": n["comp"][0], "compression_opts": tuple(n["comp"][1]) if isinstance(n["comp"][1], list) else n["comp"][1], "chunks": tuple(n["chunks"])}
            if dist and n.get("axis") is not None:
                x = g.create_dataset(n["d"], data=mk(a, n["axis"], comm), distributed=True, distributed_axis=n["axis"], **kw)
            else:
                x = g.create_dataset(n["d"], data=a, **kw)
        for k, v in n["attrs"].items():
            x.attrs[k] = _attr(v)
    return g


def _attrs_ok(got, want, where, hide=()):
    got = {k: v for k, v in dict(got).items() if not k.startswith("__memh5")}
    if set(got) != set(want):
        return f"{where}: attributes {sorted(got)} expected {sorted(want)}"
    for k, v in want.items():
        w, g = _plain(_attr_want(v)), _plain(got[k])
        if w != g:
            return f"{where}: attribute {k} is {got[k]!r} expected {w!r}"
    return None


def _decoded(g):
    """Attributes as the on-disk group shows them, decoded the way loading does."""
    from caput.memdata import _memh5

    out = {}
    _memh5.copyattrs(g, out, convert_strings=True)
    return out


def _same_arr(got, want, where):
    import numpy as np

    got = np.asarray(got)
    if got.shape != want.shape:
        return f"{where}: shape {got.shape} expected {want.shape}"
    if got.dtype != want.dtype:
        return f"{where}: dtype {got.dtype} expected {want.dtype}"
    if want.dtype.names:
        ok = all(np.array_equal(got[k], want[k]) for k in want.dtype.names)
    else:
        ok = np.array_equal(got, want, equal_nan=want.dtype.kind in "fc")
    return None if ok else f"{where}: values {got.tolist()} expected {want.tolist()}"


def _compare(h, t, conv, c, read=lambda d: d[:], attrs=dict):
    import numpy as np

    m = _attrs_ok(attrs(h.attrs), t["root"], "/")
    if m:
        return m
    names = set()
    for n in t["nodes"]:
        p = n.get("g") or n["d"]
        parts = p.split("/")[1:]
        for q in range(1, len(parts) + 1):
            names.add("/" + "/".join(parts[:q]))
        if p not in h:
            return f"{p} is missing"
        x = h[p]
        m = _attrs_ok(attrs(x.attrs), n["attrs"], p)
        if m:
            return m
        if "d" in n:
            a = _arr(n["dt"], n["shape"], n["seed"])
            if conv:
                if n["dt"] == "|S3":
                    a = a.astype("<U3")
                elif n["dt"] in ("st", "stu"):
                    a = a.astype([("x", "<f4"), ("y", "<i4", (2,)), ("s", "<U4"), ("in", [("p", "<i8"), ("q", "<U2")])])
            sel = c.get("sel")
            if sel and p.lstrip("/") == sel[0].lstrip("/"):
                ix = [slice(None)] * a.ndim
                ix[sel[1]] = slice(sel[2], sel[3])
                a = a[tuple(ix)]
            m = _same_arr(read(x), a, p)
            if m:
                return m
    have = set()

    def rec(g, p):
        for k in g:
            q = f"{p}/{k}"
            have.add(q)
            if hasattr(g[k], "create_group"):
                rec(g[k], q)

    rec(h, "")
    if have != names:
        return f"entries {sorted(have)} expected {sorted(names)}"
    return None


def check(c):
    import os
    import shutil
    import tempfile

    from caput.memdata import MemDiskGroup, _memh5, fileformats

    t, conv = c["tree"], c["conv"]
    if c["fmt"] == "zarr" and any(a == {"nps": 1.25} and False for a in t["root"].values()):
        return None
    fmt = fileformats.HDF5 if c["fmt"] == "h5" else fileformats.Zarr
    uni = any(n.get("dt") in ("<U4", "stu") for n in t["nodes"])
    wd = tempfile.mkdtemp()
    try:
        f = os.path.join(wd, "x." + c["fmt"])
        if c["how"] == "mem":
            g = _build(t, MemDiskGroup)._data
            save = lambda: g.to_file(f, convert_dataset_strings=conv)  # noqa: E731
        else:
            g = _build(t, MemDiskGroup)
            save = lambda: g.save(f, convert_dataset_strings=conv, file_format=fmt)  # noqa: E731
        if uni and not conv:
            try:
                save()
            except TypeError:
                return None
            return "unicode data accepted without conversion"
        save()
        kw = {}
        if c.get("sel"):
            nm, k, a, b = c["sel"]
            n = next(n for n in t["nodes"] if n.get("d", "").lstrip("/") == nm.lstrip("/"))
            ix = [slice(None)] * len(n["shape"])
            ix[k] = slice(a, b)
            h = _memh5.MemGroup.from_file(f, selections={nm: tuple(ix)}, convert_dataset_strings=conv)
            return _compare(h, t, conv, c)
        if c["how"] == "mem":
            h = _memh5.MemGroup.from_file(f, convert_dataset_strings=conv)
            return _compare(h, t, conv, c)
        h = MemDiskGroup.from_file(f, convert_dataset_strings=conv)
        m = _compare(h, t, conv, c)
        if m:
            return m
        # the source is untouched
        m = _compare(g, t, False, {}) if not uni else None
        if m and not any("b" in (v if isinstance(v, dict) else {}) or "dn" in (v if isinstance(v, dict) else {}) or "dt" in (v if isinstance(v, dict) else {}) or "npS" in (v if isinstance(v, dict) else {}) for n in [{"attrs": t["root"]}, *t["nodes"]] for v in n["attrs"].values()):
            return "saving changed the tree: " + m
        if c["how"] == "resave":
            f2 = os.path.join(wd, "y." + c["fmt"])
            h.save(f2, convert_dataset_strings=conv, file_format=fmt)
            return _compare(MemDiskGroup.from_file(f2, convert_dataset_strings=conv), t, conv, c)
        if c["how"] in ("ondisk", "copydisk"):
            o = MemDiskGroup.from_file(f, ondisk=True)
            try:
                if c["how"] == "ondisk":
                    m = _compare(o.to_memory(), t, False, c) if not uni else None
                    if m:
                        return "to_memory: " + m
                    m = _compare(o, t, False, c, attrs=_decoded) if not uni else None
                    if m:
                        return "on disk: " + m
                else:
                    f2 = os.path.join(wd, "y." + c["fmt"])
                    o.save(f2, file_format=fmt)
                    m = _compare(MemDiskGroup.from_file(f2, convert_dataset_strings=conv), t, conv, c)
                    if m:
                        return "copy of a file: " + m
            finally:
                o.close()
        return None
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# -- distributed --------------------------------------------------------------
def gen_dist(rng, i):
    t = gen_tree(rng, dist=True)
    for n in t["nodes"]:
        if n.get("dt") in ("<U4", "stu"):
            n["dt"] = "<f4"
        if "d" in n and n.get("axis") is not None:
            n["comp"] = None
    c = {"tree": t, "fmt": rng.choice(["h5", "zarr"]), "load": rng.choice(["dist", "dist", "plain", "nohints"])}
    return c


def check_dist(c):
    import os
    import shutil
    import tempfile

    import numpy as np

    from caput.memdata import MemDiskGroup, _memh5, fileformats
    from contracts.mpi_plain import comm_world, meta

    comm = comm_world()
    fmt = fileformats.HDF5 if c["fmt"] == "h5" else fileformats.Zarr
    wd = comm.bcast(tempfile.mkdtemp() if comm.rank == 0 else None, root=0)
    old = os.getcwd()
    os.chdir(wd)
    try:
        t = c["tree"]
        g = _build(t, MemDiskGroup, comm, dist=True)
        f = "x." + c["fmt"]
        g.save(f, file_format=fmt)
        comm.Barrier()
        if c["load"] == "plain":
            m = _compare(MemDiskGroup.from_file(f), t, False, c)
            comm.Barrier()
            return m
        if c["load"] == "nohints":
            h = _memh5.MemGroup.from_file(f, distributed=True, hints=False, comm=comm)
            m = _compare(h, t, False, c)
            comm.Barrier()
            return m
        h = MemDiskGroup.from_file(f, distributed=True, comm=comm)

        def read(d):
            return d.data.allgather() if d.distributed else d[:]

        m = _compare(h, t, False, c, read=read)
        if m:
            return m
        for n in t["nodes"]:
            if "d" in n:
                d = h[n["d"]]
                if d.distributed != (n["axis"] is not None):
                    return f"{n['d']}: distributed is {d.distributed}"
                if d.distributed:
                    m = meta(d.data, _arr(n["dt"], n["shape"], n["seed"]), n["axis"], comm, n["d"])
                    if m:
                        return m
        return None
    finally:
        comm.Barrier()
        os.chdir(old)
        if comm.rank == 0:
            shutil.rmtree(wd, ignore_errors=True)


# -- converting datasets ------------------------------------------------------
FALSIFIERS = [
    Falsifier("save_load", gen, check, n=300, thorough=5000),
    Falsifier("distributed", gen_dist, check_dist, n=40, thorough=500, ranks=(1, 2, 3)),
]

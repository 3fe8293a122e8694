"""File format and compression settings are resolved consistently."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = ["pathlib.Path.is_dir is an arbitrary predicate of the name", "codec constructors keep the settings they are given"]
RULE = "file names with every known ending and none, explicit formats, data handles; compression settings with block sizes and chunks written and read back in both formats"

CODECS = ["bitshuffle", "id", "strid"]


def _mods():
    from caput.memdata import fileformats as ff

    return ff, ff.HDF5, ff.Zarr


class FakePath:
    dirs = None

    def __init__(self, n):
        self.n = n

    def is_dir(self):
        return SBool(FakePath.dirs(SStr.t(self.n)))

    def __str__(self):
        return self.n


class FakePathlib:
    Path = FakePath
    PurePath = FakePath


def _name(e):
    from pv import rt

    FakePath.dirs = z3.Function("is_dir", z3.StringSort(), z3.BoolSort())
    rt.OVERRIDE.clear()
    rt.OVERRIDE["pathlib"] = FakePathlib
    n = Str("name")
    end = lambda s: z3.SuffixOf(z3.StringVal(s), n.z)  # noqa: E731
    isz = z3.Or(end(".zarr.zip"), end(".zarr"), FakePath.dirs(n.z))
    ish = z3.And(z3.Not(isz), z3.Or(end(".h5"), end(".hdf5")))
    return n, isz, ish


def p_guess(e):
    ff, H, Z = _mods()
    n, isz, ish = _name(e)
    e.cover("pre")
    d = [H, Z, None][e.choose(3, "default")]
    r = ff.guess_file_format(n, d)
    e.prove("guess:zarr-names", SBool(z3.Implies(isz, r is Z)))
    e.prove("guess:hdf5-names", SBool(z3.Implies(ish, r is H)))
    e.prove("guess:otherwise-default", SBool(z3.Implies(z3.Not(z3.Or(isz, ish)), r is d)))


def p_guess_default(e):
    ff, H, Z = _mods()
    n, isz, ish = _name(e)
    r = ff.guess_file_format(n)
    e.prove("guess:zarr-names", SBool(z3.Implies(isz, r is Z)))
    e.prove("guess:default-is-hdf5", SBool(z3.Implies(z3.Not(isz), r is H)))


def p_check(e):
    import h5py
    import zarr

    ff, H, Z = _mods()
    n, isz, ish = _name(e)
    want = [None, H, Z, "hdf5"][e.choose(4, "explicit")]

    class HG(h5py.Group):
        def __init__(self):
            pass

    class ZG(zarr.Group):
        def __init__(self):
            pass

        def __getattr__(self, n):
            raise AttributeError(n)

    data = [HG(), ZG(), {}][e.choose(3, "data")]
    gd = H if isinstance(data, h5py.Group) else Z if isinstance(data, zarr.Group) else None
    e.cover("pre")
    try:
        r = ff.check_file_format(n, want, data)
    except ValueError:
        r = "error"
    if want == "hdf5":
        e.prove("check:unknown-explicit-format-refused", SBool(z3.BoolVal(r == "error")))
        return
    # the format each source asks for
    for gn, cond in ((Z, isz), (H, ish), (None, z3.Not(z3.Or(isz, ish)))):
        asked = {x for x in (want, gn, gd) if x is not None}
        if len(asked) > 1:
            e.prove("check:contradiction-refused", SBool(z3.Implies(cond, r == "error")))
        elif gn is not None or gd is not None:
            (only,) = asked
            e.prove("check:agreed-format-returned", SBool(z3.Implies(cond, r is only)))
        elif want is None:
            e.prove("check:nothing-asked-no-error", SBool(z3.Implies(cond, r is None)))


class Rec:
    """Recording stand-in for numcodecs."""

    class blosc:
        BITSHUFFLE = 2

    class gzip:
        @staticmethod
        def GZip(level=1):
            return ("gzip", level)

    @staticmethod
    def GZip(level=1):
        return ("gzip", level)

    @staticmethod
    def Blosc(cname="lz4", clevel=5, shuffle=1, blocksize=0):
        return ("blosc", cname, shuffle, blocksize)


def p_hdf5(e):
    ff, H, Z = _mods()
    name = ["bitshuffle", ff.H5FILTER, str(ff.H5FILTER)][e.choose(3, "codec")]
    lz = ["lz4", ff.H5_COMPRESS_LZ4, str(ff.H5_COMPRESS_LZ4)][e.choose(3, "inner")]
    bs = OptInt("blocksize", lo=0)
    e.cover("pre")
    r = H.compression_kwargs(compression=name, compression_opts=(bs, lz))
    ok = isinstance(r, dict) and set(r) == {"compression", "compression_opts"} and r["compression"] == ff.H5FILTER
    e.prove("hdf5:bitshuffle-filter-number", SBool(z3.BoolVal(bool(ok))))
    b, c = r["compression_opts"]
    e.prove("hdf5:lz4-number", SBool(z3.BoolVal(c == ff.H5_COMPRESS_LZ4)))
    e.prove("hdf5:block-size-kept", SInt(zi(b)) == (0 if bs is None else bs))
    r2 = H.compression_kwargs(**r)
    e.prove("hdf5:stable-when-translated-again",
            And(SBool(z3.BoolVal(r2["compression"] == r["compression"] and r2["compression_opts"][1] == c)), SInt(zi(r2["compression_opts"][0])) == b))
    # a setting read back from HDF5 means the same to Zarr
    ff.numcodecs = Rec
    z1 = Z.compression_kwargs(compression=name, compression_opts=(bs, lz))["compressor"]
    z2 = Z.compression_kwargs(**r)["compressor"]
    for i, z in enumerate((z1, z2)):
        e.prove("zarr:blosc-lz4-bitshuffle", SBool(z3.BoolVal(z[0] == "blosc" and z[1] == "lz4" and z[2] == 2)))
        e.prove("zarr:block-size-kept", SInt(zi(z[3])) == (0 if bs is None else bs))


def p_other(e):
    ff, H, Z = _mods()
    ff.numcodecs = Rec
    k = e.choose(8, "case")
    e.cover("pre")

    def refused(f):
        try:
            f()
        except (ValueError, NotImplementedError, RuntimeError):
            return SBool(z3.BoolVal(True))
        return SBool(z3.BoolVal(False))

    lvl = Int("level", lo=0)
    if k == 0:
        e.prove("none:hdf5-nothing", SBool(z3.BoolVal(H.compression_kwargs() == {})))
        e.prove("none:zarr-no-compressor", SBool(z3.BoolVal(Z.compression_kwargs() == {"compressor": None})))
    elif k == 1:
        r = H.compression_kwargs(compression="gzip", compression_opts=lvl)
        e.prove("gzip:hdf5", And(SBool(z3.BoolVal(r["compression"] == "gzip")), r["compression_opts"] == lvl))
        z = Z.compression_kwargs(compression="gzip", compression_opts=lvl)["compressor"]
        e.prove("gzip:zarr", And(SBool(z3.BoolVal(z[0] == "gzip")), SInt(zi(z[1])) == lvl))
    elif k == 2:
        c = object()
        e.prove("compressor:zarr-kept", SBool(z3.BoolVal(Z.compression_kwargs(compressor=c)["compressor"] is c)))
        e.prove("compressor:hdf5-refused", refused(lambda: H.compression_kwargs(compressor=c)))
    elif k == 3:
        e.prove("both-kinds:zarr-refused", refused(lambda: Z.compression_kwargs(compression="gzip", compression_opts=lvl, compressor=object())))
    elif k == 4:
        e.prove("unknown:zarr-refused", refused(lambda: Z.compression_kwargs(compression="szip")))
    elif k == 5:
        e.prove("bitshuffle-without-options:hdf5-refused", refused(lambda: H.compression_kwargs(compression="bitshuffle")))
    elif k == 6:
        for n in (1, 3):
            for F in (H, Z):
                e.prove("bitshuffle-wrong-number-of-options-refused",
                        refused(lambda F=F, n=n: F.compression_kwargs(compression="bitshuffle", compression_opts=(0,) * n)))
    elif k == 7:
        e.prove("opts-and-compressor:zarr-refused", refused(lambda: Z.compression_kwargs(compression_opts=(0, "lz4"), compressor=object())))


_F = "caput.memdata.fileformats."
PROOFS = [
    Proof("guess", p_guess, [_F + "guess_file_format"], covers=["pre"], to_cases=lambda o, m: [("names", {"name": n, "explicit": None, "data": None, "default": d}) for n in NAMES for d in ("H", "Z", "N")]),
    Proof("guess_default", p_guess_default, [_F + "guess_file_format"]),
    Proof("check", p_check, [_F + "check_file_format", _F + "guess_file_format"], covers=["pre"],
          to_cases=lambda o, m: [("names", {"name": n, "explicit": x, "data": d, "default": "N"}) for n in ("a.h5", "a.zarr", "a") for x in (None, "H", "Z") for d in (None, "H", "Z")]),
    Proof("hdf5", p_hdf5, [_F + "HDF5.compression_kwargs", _F + "Zarr.compression_kwargs"], covers=["pre"]),
    Proof("other", p_other, [_F + "HDF5.compression_kwargs", _F + "Zarr.compression_kwargs"], covers=["pre"]),
]
NAMES = ["a.h5", "a.hdf5", "a.zarr", "a.zarr.zip", "a", "a.h5.zarr", "a.zarr.h5", "zarr", "a.H5", "d.zarr/x.h5", "a.zip", ".h5", "a.hdf", "adir", "adir.h5"]


# ---------------------------------------------------------------- run time
def gen_names(rng, i):
    return {"name": rng.choice(NAMES), "explicit": rng.choice([None, "H", "Z", "bad"]), "data": rng.choice([None, "H", "Z"]),
            "default": rng.choice(["H", "Z", "N", "-"]), "path": rng.random() < 0.3}


def check_names(c):
    import os
    import pathlib
    import shutil
    import tempfile

    import h5py
    import zarr

    ff, H, Z = _mods()
    D = {"H": H, "Z": Z, "N": None, "bad": "hdf5", None: None}
    d = tempfile.mkdtemp()
    try:
        os.makedirs(os.path.join(d, "adir"))
        os.makedirs(os.path.join(d, "adir.h5"))
        n = os.path.join(d, c["name"])
        isz = n.endswith((".zarr", ".zarr.zip")) or c["name"].startswith("adir")
        g = Z if isz else H if n.endswith((".h5", ".hdf5")) else None
        arg = pathlib.Path(n) if c.get("path") else n
        if c["default"] == "-":
            r, w = ff.guess_file_format(arg), g or H
        else:
            r, w = ff.guess_file_format(arg, D[c["default"]]), g or D[c["default"]]
        if r is not w:
            return f"guessed {r} for {n}, expected {w}"
        data = {"H": lambda: h5py.File(os.path.join(d, "x"), "w"), "Z": lambda: zarr.group(), None: lambda: {}}[c["data"]]()
        gd = D[c["data"]]
        want = D[c["explicit"]]
        try:
            r = ff.check_file_format(n, want, data)
        except ValueError:
            r = "error"
        asked = {x for x in (want, g, gd) if x is not None}
        if want == "hdf5" or len(asked) > 1:
            w = "error"
        elif g is None and gd is None:
            w = None if want is None else r
        else:
            (w,) = asked
        if r is not w and r != w:
            return f"check_file_format gave {r}, expected {w}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_comp(rng, i):
    nd = rng.choice([1, 2, 3])
    shape = [rng.choice([1, 3, 5, 8, 17]) for _ in range(nd)]
    comp = rng.choice([None, "bitshuffle", "bitshuffle", "id", "strid", "gzip"])
    opts = None
    if comp == "gzip":
        opts = rng.choice([1, 4, 9])
    elif comp:
        opts = [rng.choice([None, 0, 128, 1024]), rng.choice(["lz4", 2, "2"])]
    chunks = [rng.randrange(1, s + 1) for s in shape] if comp or rng.random() < 0.5 else None
    return {"shape": shape, "comp": comp, "opts": opts, "chunks": chunks, "fmt": rng.choice(["h5", "zarr"]),
            "fmt2": rng.choice(["h5", "zarr"]), "dtype": rng.choice(["f8", "f4", "i4", "c16"]), "dist": rng.random() < 0.4}


def check_comp(c):
    import os
    import shutil
    import tempfile

    import numpy as np

    from caput import memdata
    from caput.memdata import fileformats as ff

    F = {"h5": ff.HDF5, "zarr": ff.Zarr}
    d = tempfile.mkdtemp()
    try:
        x = (np.arange(int(np.prod(c["shape"]))) * 1.5).reshape(c["shape"]).astype(c["dtype"])
        comp = {"id": ff.H5FILTER, "strid": str(ff.H5FILTER)}.get(c["comp"], c["comp"])
        opts = tuple(c["opts"]) if isinstance(c["opts"], list) else c["opts"]
        chunks = tuple(c["chunks"]) if c["chunks"] else None
        m = memdata.MemDiskGroup(distributed=c["dist"])
        kw = dict(chunks=chunks, compression=comp, compression_opts=opts)
        if c["dist"]:
            ds = m.create_dataset("x", shape=x.shape, dtype=x.dtype, distributed=True, distributed_axis=0, **kw)
            ds[:] = x
        else:
            m.create_dataset("x", data=x, **kw)
        f1 = os.path.join(d, "a." + c["fmt"])
        cwd = os.getcwd()
        os.chdir(d)
        try:
            m.save(os.path.basename(f1), file_format=F[c["fmt"]])
        finally:
            os.chdir(cwd)
        msg = _inspect(f1, c, x, comp, opts, chunks, ff)
        if msg:
            return "written: " + msg
        if c["comp"] in (None, "gzip") and c["fmt"] == "h5" and not c["dist"]:
            m2 = memdata.MemDiskGroup.from_file(f1)
            f2 = os.path.join(d, "b." + c["fmt2"])
            m2.save(f2, file_format=F[c["fmt2"]])
            msg = _inspect(f2, {**c, "fmt": c["fmt2"]}, x, comp, opts, chunks, ff)
            if msg:
                return "loaded and written again: " + msg
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _inspect(f, c, x, comp, opts, chunks, ff):
    import h5py
    import numcodecs
    import numpy as np
    import zarr

    if c["fmt"] == "h5":
        with h5py.File(f, "r") as fh:
            ds = fh["x"]
            if not np.array_equal(ds[:], x) or ds.dtype != x.dtype:
                return "values differ"
            if chunks and tuple(ds.chunks or ()) != chunks:
                return f"chunks {ds.chunks}, asked {chunks}"
            p = ds.id.get_create_plist()
            filt = [p.get_filter(i) for i in range(p.get_nfilters())]
            if comp is None and filt:
                return f"compressed although not asked: {filt}"
            if comp == "gzip" and (ds.compression != "gzip" or ds.compression_opts != opts):
                return f"gzip settings {ds.compression} {ds.compression_opts}"
            if comp not in (None, "gzip"):
                if [q[0] for q in filt] != [ff.H5FILTER]:
                    return f"filters {filt}"
                v = filt[0][2]
                if v[3:5] != ((opts[0] or 0), ff.H5_COMPRESS_LZ4):
                    return f"bitshuffle settings {v}"
    else:
        ds = zarr.open_group(f, mode="r")["x"]
        if not np.array_equal(ds[:], x) or ds.dtype != x.dtype:
            return "values differ"
        if chunks and tuple(ds.chunks) != chunks:
            return f"chunks {ds.chunks}, asked {chunks}"
        k = ds.compressor
        if comp is None:
            if k is not None:
                return f"compressed although not asked: {k}"
        elif comp == "gzip":
            if not isinstance(k, numcodecs.GZip) or k.level != opts:
                return f"compressor {k}"
        elif not isinstance(k, numcodecs.Blosc) or k.cname != "lz4" or k.shuffle != numcodecs.Blosc.BITSHUFFLE or k.blocksize != (opts[0] or 0):
            return f"compressor {k}"
    return None


FALSIFIERS = [
    Falsifier("names", gen_names, check_names, n=400, thorough=3000,
              fixed=[{"name": n, "explicit": x, "data": d, "default": f} for n in NAMES for x in (None, "H") for d in (None, "Z") for f in ("-", "N")]),
    Falsifier("compression", gen_comp, check_comp, n=200, thorough=3000),
]

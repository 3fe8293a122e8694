"""Task outputs are screened, labelled and written as configured."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "writing a container gives a file with its contents (P09, P16)",
    "str.format, os.path.expanduser and os.path.expandvars of the Python library",
    "MPI allreduce(MAX) is the maximum over the ranks",
]
RULE = "random task settings, inputs, outputs and non-finite elements on 1 to 3 ranks, run in a scratch directory; every file written there is compared"

B_ = "caput/pipeline/tasklib/base.py:"


# ---------------------------------------------------------------- proofs
def _task(e, **props):
    from caput.pipeline.tasklib import base

    class Log:
        def __getattr__(self, k):
            return lambda *a, **k: None

    class T(base.ContainerTask):
        log = Log()

        def __init__(self):
            pass

    for k, v in props.items():
        setattr(T, k, v)
    return T()


def _is_finite_stub(F):
    return F


def p_screen(e):
    """The decision table of the screening: dump and skip exactly as configured, the same on every rank."""
    from caput.memdata import MemDiskGroup
    from caput.pipeline.tasklib import base

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    check, dump, skip, found = (Bool(x) for x in ("nan_check", "nan_dump", "nan_skip", "found"))
    t = _task(e, nan_check=check, nan_dump=dump, nan_skip=skip)
    wrote, walked = [], []

    class Out(MemDiskGroup):
        def __init__(self):
            self._a = {"tag": "T1"} if e.choose(2, "has_tag") else {}

        attrs = property(lambda self: self._a)

    out = Out()
    type(t)._nan_check_walk = lambda self, cont: (walked.append(cont), found)[1]
    type(t).write_output = staticmethod(lambda fn, o, *a, **k: wrote.append((fn, o)))
    t._count = 7
    e.cover("pre")
    r = t._nan_process_output(out)
    bad = check & found
    e.prove("screen:dumped-iff-configured", SBool(z3.And(bad.z, dump.z)) if len(wrote) == 1 else SBool(z3.Not(z3.And(bad.z, dump.z))) if not wrote else F)
    e.prove("screen:withheld-iff-configured", SBool(z3.And(bad.z, skip.z)) if r is None else SBool(z3.Not(z3.And(bad.z, skip.z))))
    e.prove("screen:the-output-itself-is-passed-on", T if r is None or r is out else F)
    if wrote:
        e.prove("screen:the-output-is-what-is-dumped", T if wrote[0][1] is out and str(out._a.get("tag", 7)) in wrote[0][0] else F)
    if walked:
        e.prove("screen:the-output-is-what-is-screened", T if walked == [out] else F)


def p_walk(e):
    """One dataset or group at a time from any stack: a non-finite element in any dataset is found, and only then."""
    from caput.memdata import MemDataset, MemGroup
    from caput.pipeline.tasklib import base

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    k = 1 + e.choose(3, "datasets")
    kinds, groups = [], e.choose(2, "nested") == 1
    nan = [Bool(f"nan{i}") for i in range(k)]
    inf = [Bool(f"inf{i}") for i in range(k)]
    odd = e.choose(k + 1, "compound")  # which one is of a compound type (k: none)

    class Cell:
        """A boolean array of one element per dataset: enough for all() and sum() > 0."""

        def __init__(self, z):
            self.z = z

        def all(self, *a, **k):
            return SBool(self.z)

        def any(self, *a, **k):
            return SBool(self.z)

        def sum(self, *a, **k):
            return SInt(z3.If(self.z, 1, 0))

        def __invert__(self):
            return Cell(z3.Not(self.z))

    class Arr:
        size = 5

        def __init__(self, i):
            self.i = i

        def view(self, *a):
            return self

        def __getitem__(self, s):
            return self

    class D(MemDataset):
        name = "d"

        def __init__(self, i):
            self.i = i

        def __getitem__(self, s):
            return Arr(self.i)

    class G(MemGroup):
        def __init__(self, items):
            self._it = items

        def values(self):
            return list(self._it)

    keep = base.np

    class Shim:
        def __getattr__(self, n):
            return getattr(keep, n)

        def isfinite(self, a):
            if a.i == odd:
                raise TypeError("ufunc 'isfinite' not supported for the input types")
            return Cell(z3.And(z3.Not(nan[a.i].z), z3.Not(inf[a.i].z)))

        def isnan(self, a):
            if a.i == odd:
                raise TypeError("ufunc 'isnan' not supported for the input types")
            return Cell(nan[a.i].z)

        def isinf(self, a):
            if a.i == odd:
                raise TypeError("ufunc 'isinf' not supported for the input types")
            return Cell(inf[a.i].z)

    ds = [D(i) for i in range(k)]
    root = G([G(ds[:1]), *ds[1:], G([])]) if groups else G(ds)
    reduced = []
    other = Bool("found_on_another_rank")

    class Comm:
        rank, size = 0, 2

        def allreduce(self, x, op=None):
            reduced.append((x, op))
            xz = x.z if isinstance(x, SBool) else z3.BoolVal(bool(x))
            return SBool(z3.Or(xz, other.z))

    t = _task(e, comm=Comm())
    base.np = Shim()
    e.cover("pre")
    try:
        r = t._nan_check_walk(root)
    finally:
        base.np = keep
    here = z3.Or(*[z3.Or(nan[i].z, inf[i].z) for i in range(k) if i != odd] or [z3.BoolVal(False)])
    rz = r.z if isinstance(r, SBool) else z3.BoolVal(bool(r))
    e.prove("walk:found-iff-a-dataset-of-any-rank-has-a-non-finite-element", SBool(rz == z3.Or(here, other.z)))
    from mpi4py import MPI

    e.prove("walk:agreed-between-the-ranks", T if len(reduced) == 1 and reduced[0][1] in (MPI.MAX, MPI.LOR) else F)


def p_save(e):
    """Which outputs are saved: exactly those configured, under the formatted name, with the metadata added first."""
    from caput.memdata import MemDiskGroup

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    ii = e.choose(3, "output")
    lst = e.choose(2, "save_is_list") == 1
    flags = [Bool(f"save{j}") for j in range(3)]
    nlist = e.choose(2, "name_is_list") == 1
    names = ["A_{tag}_{key}_{count}.h5", "B_{task}_{x}.h5", "C_{output_root}{tag}.h5"]
    root = ["", "r/"][e.choose(2, "output_root")]
    hist, wrote = [], []

    class Out(MemDiskGroup):
        def __init__(self):
            self._a = {"tag": "T1", "x": "X1"}

        attrs = property(lambda self: self._a)

        def add_history(self, k, v=None):
            hist.append((k, v, len(wrote)))

    t = _task(e, save=list(flags) if lst else flags[0], output_name=list(names) if nlist else names[0], output_root=root, compression=True,
              versions={"v": 1}, pipeline_config={"c": 2}, output_format="FMT")
    t._count, t._out_keys = 4, ["k0", "k1", "k2"]
    type(t).write_output = staticmethod(lambda fn, o, *a, **k: wrote.append((fn, o, a, k)))
    out = Out()
    e.cover("pre")
    r = t._save_output(out, ii)
    want = flags[ii] if lst else flags[0]
    e.prove("save:written-iff-configured-for-this-output", want if len(wrote) == 1 else SBool(z3.Not(want.z)) if not wrote else F)
    if wrote:
        task = type(t).__name__
        full = [f"A_T1_k{ii}_4.h5", f"B_{task}_X1.h5", f"C_{root}T1.h5"]
        name = full[ii] if nlist else full[0]
        e.prove("save:name-as-configured", T if wrote[0][0] == name and r == name else F)
        e.prove("save:the-output-is-what-is-written", T if wrote[0][1] is out else F)
        fmt = wrote[0][3].get("file_format", (wrote[0][2] or [None])[0])
        e.prove("save:format-as-configured", T if fmt == "FMT" else F)
        e.prove("save:metadata-added-before-writing", T if [(k, v) for k, v, w in hist] == [("versions", {"v": 1}), ("config", {"c": 2})] and all(w == 0 for *_, w in hist) else F)
    else:
        e.prove("save:no-file-name-returned", T if r is None else F)


def p_label(e):
    """Attributes and tag: strings are formatted, other values set as they are; the count advances once per call."""
    from caput.memdata import MemDiskGroup

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    ntag = e.choose(3, "tag_source")  # own tag, input tag, none
    nout = 1 + e.choose(3, "outputs")
    seen = []

    class Out(MemDiskGroup):
        def __init__(self, a):
            self._a = dict(a)

        attrs = property(lambda self: self._a)

    val = SVal(z3.Const("value", U))
    outs = [Out({"x": f"X{j}", **({"tag": f"own{j}"} if ntag == 0 else {})}) for j in range(nout)]
    inp = Out({"tag": "input"} if ntag == 1 else {})
    n = Int("count")
    e.assume(n >= 0)

    class Cnt:
        """An integer with a symbolic value that can be formatted."""

        def __init__(self, z):
            self.z = z

        def __add__(self, k):
            return Cnt(self.z + k)

        __radd__ = __add__

        def __format__(self, spec):
            return "COUNT"

        __str__ = __format__ = lambda self, spec="": "COUNT"

    class Comm:
        rank, size = 0, 1

        def Barrier(self):
            pass

        barrier = Barrier

    att = {"note": "{key}-{count}-{x}-{task}-{tag}", "obj": val}
    t = _task(e, attrs=att, tag="<{tag}>", comm=Comm(), output_root="")
    t._count, t._out_keys, t._no_input, t.done = Cnt(n.z), [f"k{j}" for j in range(nout)], False, False
    type(t).process = lambda self, x: tuple(outs) if nout > 1 else outs[0]
    type(t)._nan_process_output = lambda self, o: (seen.append(("screen", o)), o)[1]
    type(t)._save_output = lambda self, o, ii=0: seen.append(("save", o, ii, dict(o.attrs)))
    e.cover("pre")
    r = t.next(inp)
    got = r if isinstance(r, tuple) else (r,)
    e.prove("label:outputs-in-order", T if len(got) == nout and all(a is b for a, b in zip(got, outs)) and (nout > 1) == isinstance(r, tuple) else F)
    ok = True
    for j, o in enumerate(outs):
        tag = [f"own{j}", "input", "COUNT"][ntag]
        a = o._a
        ok &= str(a["tag"]) == f"<{tag}>" and str(a["note"]) == f"k{j}-COUNT-X{j}-{type(t).__name__}-{tag}" and a["obj"] is val and a["x"] == f"X{j}"
        ok &= list(a["input_tags"]) == ["input" if ntag == 1 else ""]
    e.prove("label:attributes-and-tag-as-configured", T if ok else F)
    e.prove("label:settings-unchanged", T if att == {"note": "{key}-{count}-{x}-{task}-{tag}", "obj": val} or list(att) == ["note", "obj"] else F)
    sv = [s for s in seen if s[0] == "save"]
    e.prove("label:each-output-screened-then-saved-once-with-its-labels",
            T if [s[1] for s in seen if s[0] == "screen"] == outs and [s[1] for s in sv] == outs and [s[2] for s in sv] == list(range(nout)) and all("tag" in s[3] and "note" in s[3] for s in sv) else F)
    e.prove("label:count-advances-by-one", SBool(t._count.z == n.z + 1))


PROOFS = [
    Proof("screen", p_screen, [B_ + "ContainerTask._nan_process_output"]),
    Proof("walk", p_walk, [B_ + "ContainerTask._nan_check_walk"], bound="containers of up to 3 datasets, nested groups; the contents of each dataset arbitrary"),
    Proof("save", p_save, [B_ + "ContainerTask._save_output", B_ + "ContainerTask._interpolation_dict"]),
    Proof("label", p_label, [B_ + "ContainerTask.next", B_ + "ContainerTask._process_output", B_ + "ContainerTask._interpolation_dict"], bound="up to 3 outputs"),
]


# ---------------------------------------------------------------- falsifiers
def _mod():
    """A container class that files can be resolved to."""
    import sys
    import types

    import numpy as np

    name = "contracts_p25_mod"
    if name in sys.modules:
        return sys.modules[name].K
    from caput.containers import ContainerPrototype

    mod = types.ModuleType(name)
    sys.modules[name] = mod

    class K(ContainerPrototype):
        __module__ = name
        _axes = ("freq", "time")
        _dataset_spec = {
            "a": {"axes": ["freq", "time"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "freq", "chunks": (2, 2), "compression": "gzip", "compression_opts": 3,
                  "truncate": {"weight_dataset": "w", "variance_increase": 1e-2}},
            "b": {"axes": ["time"], "dtype": np.complex128, "initialise": True, "distributed": False, "truncate": 1e-3},
            "n": {"axes": ["freq"], "dtype": np.int32, "initialise": True, "distributed": True, "distributed_axis": "freq"},
            "s": {"axes": ["time"], "dtype": [("u", "i4"), ("v", "f8")], "initialise": True, "distributed": False},
            "w": {"axes": ["freq", "time"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "freq"},
            "c": {"axes": ["freq", "time"], "dtype": np.complex64, "initialise": True, "distributed": True, "distributed_axis": "freq", "truncate": {"weight_dataset": "n"}},
        }

    K.__qualname__ = "K"
    mod.K = K
    return K


def _build(k, comm, seed):
    """The k-th container and its contents."""
    import numpy as np

    K = _mod()
    c = K(freq=5, time=4, comm=comm)
    r = np.random.default_rng(seed * 31 + k)
    vals = {"a": r.normal(size=(5, 4)), "b": r.normal(size=4) + 1j * r.normal(size=4), "n": r.integers(1, 9, size=5).astype("i4"), "w": r.uniform(0.5, 4, size=(5, 4)), "c": (r.normal(size=(5, 4)) + 1j * r.normal(size=(5, 4))).astype("c8")}
    s = np.zeros(4, dtype=[("u", "i4"), ("v", "f8")])
    s["u"], s["v"] = np.arange(4), r.normal(size=4)
    vals["s"] = s
    return c, vals


def _put(c, vals):
    from contracts.mpi_plain import share
    from caput.memdata import MemDatasetDistributed

    for n, v in vals.items():
        d = c[n]
        if isinstance(d, MemDatasetDistributed):
            d[:].local_array[...] = share(v, d.distributed_axis, c.comm)
        else:
            d[:] = v


def gen(rng, i):
    nout = rng.choice([1, 1, 2, 3])
    lst = rng.random() < 0.4
    nl = rng.random() < 0.4

    def bad():
        if rng.random() < 0.55:
            return None
        ds = rng.choice(["a", "a", "b", "c"])
        return [ds, rng.choice(["nan", "inf", "-inf"]), rng.randrange(20)]

    return {"nout": nout, "niter": rng.choice([1, 2, 3]), "bad": [[bad() for _ in range(nout)] for _ in range(4)], "finish": rng.random() < 0.4,
            "save": [rng.random() < 0.6 for _ in range(nout)] if lst else rng.random() < 0.7,
            "name": [f"o{j}_" + rng.choice(["{tag}_{count}", "{task}{count}", "{key}{count}", "{foo}-{count}"]) + ".h5" for j in range(nout)] if nl else rng.choice(["d/{key}_{tag}_{count}.h5", "{output_root}{tag}_{key}{count}.h5", "$PVVAR/{key}_{count}_{foo}.h5", "{key}_{input_tags[0]}_{count}.h5"]),
            "root": rng.choice(["", "", "rr_"]), "tag": rng.choice([None, "t{count}", "{tag}x", "{key}_{foo}", "{task}"]), "attrs": rng.choice([None, {"z": "{key}:{count}:{foo}", "num": 3, "l": [1, 2]}]),
            "own": rng.choice([None, "mine"]), "intag": rng.choice([None, "src"]), "noin": rng.random() < 0.3,
            "nan": [rng.random() < 0.8, rng.random() < 0.5, rng.random() < 0.5], "comp": rng.choice([True, True, False, {}, {"a": {"chunks": (1, 2), "compression": "gzip", "compression_opts": 1}}]), "seed": rng.randrange(999),
            "fmt": rng.choice([None, None, "hdf5"])}


def check(c):
    import os
    import shutil
    import tempfile

    import h5py
    import numpy as np
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.tasklib.base import ContainerTask
    from contracts.mpi_plain import comm_world, same

    comm = comm_world()
    d = comm.bcast(tempfile.mkdtemp(prefix="pv25") if comm.rank == 0 else None, root=0)
    cwd = os.getcwd()
    os.chdir(d)
    os.environ["PVVAR"] = "env"
    try:
        cls = _task_class(ContainerTask, c["noin"])
        p = {"save": c["save"], "output_name": c["name"], "nan_check": c["nan"][0], "nan_dump": c["nan"][1], "nan_skip": c["nan"][2], "compression": c["comp"],
             "versions": {"caput": "1.2"}, "pipeline_config": {"tasks": [1]}}
        if c["root"]:
            p["output_root"] = c["root"]
        if c["tag"] is not None:
            p["tag"] = c["tag"]
        if c["attrs"] is not None:
            p["attrs"] = dict(c["attrs"])
        if c["fmt"] is not None:
            p["output_format"] = c["fmt"]
        t = cls._from_config(p)
        keys = [f"out{j}" for j in range(c["nout"])]
        t._setup_keys(None if c["noin"] else "x", keys)
        files = {}

        def one(it, fin):
            """One call; returns a message or None."""
            made, vals, pre = [], [], []
            for j in range(c["nout"]):
                cont, v = _build(10 * it + j, comm, c["seed"])
                b = c["bad"][it][j]
                if b is not None:
                    v[b[0]].reshape(-1)[b[2] % v[b[0]].size] = float(b[1])
                _put(cont, v)
                cont.attrs["foo"] = f"F{j}"
                if c["own"] is not None:
                    cont.attrs["tag"] = c["own"] + str(j)
                made.append(cont)
                vals.append(v)
            t.make = made if c["nout"] > 1 else made[0]
            t.make = tuple(t.make) if c["nout"] > 1 else t.make
            count = c["niter"] if fin else it
            itags = []
            if fin:
                r = t.finish()
            elif c["noin"]:
                r = t.next()
            else:
                src, sv = _build(99, comm, 1)
                if c["intag"] is not None:
                    src.attrs["tag"] = c["intag"]
                itags = [c["intag"] or ""]
                r = t.next(src)
            got = r if c["nout"] > 1 else (r,)
            if len(got) != c["nout"]:
                return f"{len(got)} outputs instead of {c['nout']}"
            for j, (cont, v) in enumerate(zip(made, vals)):
                bad = any(not np.all(np.isfinite(x)) for n, x in v.items() if n != "s")
                tag0 = cont_tag = c["own"] + str(j) if c["own"] is not None else (itags[0] if itags and itags[0] else count)
                idict = {"foo": f"F{j}", "tag": tag0, "count": count, "task": cls.__name__, "key": keys[j], "output_root": c["root"], "input_tags": itags}
                want = {k: (x.format(**idict) if isinstance(x, str) else x) for k, x in (c["attrs"] or {}).items()}
                want["tag"] = (c["tag"] or "{tag}").format(**idict)
                want["foo"] = f"F{j}"
                if not fin:
                    want["input_tags"] = itags
                for k, x in want.items():
                    if k not in cont.attrs or np.any(np.asarray(cont.attrs[k]) != np.asarray(x)):
                        return f"attribute {k} of output {j} is {cont.attrs.get(k)!r}, expected {x!r}"
                for n, x in v.items():
                    y = _whole(cont[n])
                    if not _eq(y, x):
                        return f"dataset {n} was altered"
                hit = c["nan"][0] and bad
                if hit and c["nan"][2]:
                    if got[j] is not None:
                        return "an output with non-finite elements was passed on"
                elif got[j] is not cont:
                    return f"output {j} is {type(got[j])}, not the container of the task"
                if hit and c["nan"][1]:
                    files[f"nandump_{cls.__name__}_{want['tag']}.h5"] = (v, want, False)
                sv = c["save"][j] if isinstance(c["save"], list) else c["save"]
                if sv and got[j] is not None:
                    nm = c["name"][j] if isinstance(c["name"], list) else c["name"]
                    try:
                        nm = os.path.expandvars(nm.format(**{**idict, "tag": want["tag"]}))
                    except (KeyError, IndexError):
                        return None
                    files[nm] = (v, want, True)
            return None

        its = list(range(c["niter"]))
        for it in its:
            try:
                m = one(it, False)
            except IndexError:
                if "input_tags[0]" in c["name"] and c["noin"]:
                    return None  # the template asks for an input that is not there
                raise
            if m:
                return m
        if c["finish"]:
            cls.process_finish = lambda self: self.make
            try:
                m = one(3, True)
            except (IndexError, KeyError):
                if "input_tags[0]" in c["name"]:
                    return None
                raise
            if m:
                return "finish: " + m
        comm.Barrier()
        if comm.rank == 0:
            have = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
            if have != sorted(files):
                return f"files {have}, expected {sorted(files)}"
            for fn, (v, want, saved) in files.items():
                with h5py.File(fn, "r") as f:
                    for n, x in v.items():
                        if not _eq(f[n][...], x):
                            return f"{fn}: dataset {n} is not that of the output"
                    for k, x in want.items():
                        if k not in f.attrs:
                            return f"{fn}: attribute {k} is missing"
                    if saved:
                        if c["comp"] is False and f["a"].chunks is not None:
                            return f"{fn}: chunked though compression is disabled"
                        if c["comp"] in (True, {}) and (f["a"].chunks is None or f["a"].compression is None):
                            return f"{fn}: the compression of the dataset specification was dropped"
                        if isinstance(c["comp"], dict) and c["comp"] and (f["a"].chunks != (1, 2) or f["a"].compression_opts != 1):
                            return f"{fn}: chunks {f['a'].chunks} compression_opts {f['a'].compression_opts}, configured {c['comp']}"
                if saved:
                    h = _mod().from_file(fn, distributed=False).history
                    for k, x in (("versions", {"caput": "1.2"}), ("config", {"tasks": [1]})):
                        if k not in h or h[k] != x:
                            return f"{fn}: history {k} is {h.get(k)!r}"
        return None
    finally:
        comm.Barrier()
        os.chdir(cwd)
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)


def _whole(d):
    import numpy as np
    from caput.memdata import MemDatasetDistributed

    return d[:].allgather() if isinstance(d, MemDatasetDistributed) else np.asarray(d[:])


def _eq(y, x):
    import numpy as np

    y = np.asarray(y)
    return y.shape == x.shape and y.dtype == x.dtype and y.tobytes() == x.tobytes()


def _task_class(base, noin):
    if noin:
        class T(base):
            def process(self):
                return self.make
    else:
        class T(base):
            def process(self, x):
                return self.make
    return T


# -- group tasks with files ---------------------------------------------------------
def gen_io(rng, i):
    return {"base": rng.choice(["single", "iter"]), "mid": rng.sample(["p", "q", "r", "s"], rng.randrange(1, 4)), "read": rng.random() < 0.5, "write": rng.random() < 0.8, "sub": rng.choice(["", "deep/er/", "x_"]),
            "fmt": rng.choice([None, "hdf5", "zarr"]), "seed": rng.randrange(100), "kind": rng.choice(["group", "group", "none", "h5"]), "empty": rng.random() < 0.2}


def check_io(c):
    """Single and iterating tasks read and write exactly the configured files."""
    import os
    import shutil
    import tempfile

    import h5py
    import numpy as np
    from caput.memdata import MemGroup
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.extensions import _extensions as X

    d = tempfile.mkdtemp(prefix="pv25")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        base = X.SingleH5Base if c["base"] == "single" else X.IterH5Base
        seen, cast = [], []

        class T(base):
            def cast_input(self, x):
                cast.append(x)
                return x

            def process(self, x):
                seen.append(np.array(x["v"][:]) if "v" in x else None)
                if c["kind"] == "none":
                    return None
                g = MemGroup()
                g.create_dataset("v", data=(x["v"][:] * 2 if "v" in x else np.zeros(1)))
                g.attrs["k"] = "w"
                if c["kind"] == "h5":
                    f = h5py.File(os.path.join(d, f"src{len(seen)}.h5"), "w")
                    f["v"] = g["v"][:]
                    f.attrs["k"] = "w"
                    return f
                return g

        mids = c["mid"] if c["base"] == "iter" else c["mid"][:1]
        ext = ".zarr" if c["fmt"] == "zarr" and c["kind"] != "h5" else ".h5"
        fmt = c["fmt"] if not (c["fmt"] == "zarr" and c["kind"] == "h5") else None
        p = {"input_root": "in_" if c["read"] else "None", "output_root": c["sub"] if c["write"] else "None"}
        if c["write"] and c["sub"] == "":
            p["output_root"] = ""
        if fmt:
            p["output_format"] = fmt
        if c["base"] == "single":
            p.update(input_filename=mids[0] + ".h5", output_filename="o" + mids[0] + ext)
        else:
            p.update(file_middles=list(mids), input_ext=".h5", output_ext="o" + ext)
        ins = {}
        for k, m in enumerate(mids):
            ins[m] = np.arange(3.0) + 10 * k + c["seed"]
            if c["read"]:
                with h5py.File(f"in_{m}.h5", "w") as f:
                    f["v"] = ins[m]
        t = T._from_config(p)
        t._setup_keys(None if c["read"] else "x", "y" if c["kind"] != "none" else None)
        t.validate()
        outs = []
        for m in mids:
            if c["read"]:
                outs.append(t.next())
            else:
                g = MemGroup()
                if not c["empty"]:
                    g.create_dataset("v", data=ins[m])
                outs.append(t.next(g))
        if not c["read"] and len(cast) != len(mids):
            return f"{len(cast)} of {len(mids)} inputs were cast"
        if c["read"] or c["base"] == "single":
            try:
                t.next()
                return "the task went on after its last input"
            except PipelineStopIteration:
                pass
        empty = c["empty"] and not c["read"]
        for m, s in zip(mids, seen):
            if (s is None) != empty or (s is not None and not np.array_equal(s, ins[m])):
                return f"input {m}: the task saw {s}"
        want = set()
        for k, m in enumerate(mids):
            nm = c["sub"] + ("o" + m if c["base"] == "single" else m + "o") + ext
            if c["write"] and c["kind"] != "none":
                want.add(nm)
        have = {x for x in _outs(d) if not x.startswith(("in_", "src"))}
        if have != want:
            return f"files {sorted(have)}, expected {sorted(want)}"
        for k, m in enumerate(mids):
            nm = c["sub"] + ("o" + m if c["base"] == "single" else m + "o") + ext
            if nm in want:
                g = MemGroup.from_file(nm, file_format=None)
                x = np.zeros(1) if empty else ins[m] * 2
                if not np.array_equal(np.asarray(g["v"][:]), x) or g.attrs["k"] != "w":
                    return f"{nm} does not hold the output"
        return None
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _outs(d):
    import os

    out = set()
    for r, ds, fs in os.walk(d):
        for x in list(ds):
            if x.endswith(".zarr"):
                out.add(os.path.relpath(os.path.join(r, x), d))
                ds.remove(x)
        for f in fs:
            out.add(os.path.relpath(os.path.join(r, f), d))
    return {x for x in out if not os.path.basename(x).startswith(".")}


# -- truncation, loading, log levels -------------------------------------------------
def gen_misc(rng, i):
    return {"what": rng.choice(["truncate", "truncate", "load", "level", "group", "find"]), "seed": rng.randrange(1000), "n": rng.randrange(1, 4), "over": rng.choice([None, {"a": False}, {"b": 0.01, "a": {"weight_dataset": None, "fixed_precision": 1e-2}}, {"n": False, "w": True}, {"a": {"weight_dataset": "n", "variance_increase": 0.1}}]),
            "level": rng.choice(["debug", "INFO", "Warn", "warning", "ERROR", "critical", 15, "nope", None, 2.5]), "distributed": rng.random() < 0.5, "glob": rng.choice(["list", "glob", "nested", "missing"])}


def check_misc(c):
    import os
    import shutil
    import tempfile

    import numpy as np
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.tasklib import base, io
    from contracts.mpi_plain import comm_world

    comm = comm_world()
    w = c["what"]
    if w == "level":
        class L(base.LoggedTask):
            pass

        import logging

        names = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
        lv = c["level"]
        want = lv if isinstance(lv, int) else names.get(lv.upper()) if isinstance(lv, str) else None
        try:
            t = L._from_config({"log_level": lv} if lv is not None else {})
        except Exception:
            return None if want is None and lv is not None else f"log level {lv!r} was refused"
        if lv is None:
            return None
        if want is None:
            return f"log level {lv!r} was accepted"
        return None if t.log.level == want else f"log level {lv!r} set {t.log.level}"
    if w == "truncate":
        T = io.Truncate
        cont, v = _build(3, comm, c["seed"])
        _put(cont, v)
        p = {"nan_check": False}
        if c["over"] is not None:
            p["dataset"] = {k: dict(x) if isinstance(x, dict) else x for k, x in c["over"].items()}
        t = T._from_config(p)
        t._setup_keys("x", "y")
        r = t.next(cont)
        if r is not cont:
            return "Truncate returned another container"
        spec = {"a": {"weight_dataset": "w", "variance_increase": 1e-2}, "b": 1e-3, "c": {"weight_dataset": "n"}}
        spec.update(c["over"] or {})
        wts = {"w": v["w"], "n": v["n"][:, None]}
        for n, x in v.items():
            y = _whole(cont[n])
            s = spec.get(n, False)
            if s is False:
                if not _eq(y, x):
                    return f"{n} was altered though it is not to be truncated"
                continue
            prec = s if isinstance(s, float) else s.get("fixed_precision", 1e-4) if isinstance(s, dict) else 1e-4
            wd = s.get("weight_dataset") if isinstance(s, dict) else None
            vi = (s.get("variance_increase", 1e-3) if isinstance(s, dict) else 1e-3) * 3
            for part in ("real", "imag") if np.iscomplexobj(x) else ("real",):
                xx, yy = getattr(x, part).astype(float), getattr(y, part).astype(float)
                if wd is None:
                    lim = np.abs(xx) * prec
                else:
                    lim = (vi / (wts[wd] * (2.0 if np.iscomplexobj(x) else 1.0))) ** 0.5 * np.ones_like(xx)
                if np.any(np.abs(xx - yy) > lim * 1.0001):
                    return f"{n}.{part} changed by more than allowed"
                if np.all(xx == yy) and np.any(xx != 0):
                    return f"{n}.{part} was not truncated"
        return None
    if w == "group":
        class A(base.ContainerTask):
            def setup(self, x):
                self.ax = x

            def process(self, x):
                x.attrs["p"] = str(x.attrs.get("p", "")) + "A" + str(self.ax)
                return x

        class Bt(base.ContainerTask):
            def setup(self, x, y):
                self.b = (x, y)

            def process(self, x):
                x.attrs["p"] = str(x.attrs.get("p", "")) + f"B{self.b}"
                return x

        class S(base.group_tasks(A, Bt)):
            pass

        t = S._from_config({})
        t.setup(1, 2, 3)
        cont, v = _build(3, comm, c["seed"])
        _put(cont, v)
        r = t.next(cont)
        return None if r.attrs["p"] == "A1B(2, 3)" else f"grouped tasks gave {r.attrs['p']}"
    d = comm.bcast(tempfile.mkdtemp(prefix="pv25") if comm.rank == 0 else None, root=0)
    try:
        names, conts = [], []
        order = list(range(c["n"]))
        for k in order:
            cont, v = _build(k, comm, c["seed"])
            _put(cont, v)
            if k % 2:
                cont.attrs["tag"] = f"T{k}"
            fn = os.path.join(d, f"f{(c['n'] - k) if c['glob'] == 'list' else k}.h5")
            cont.save(fn)
            names.append(fn)
            conts.append(v)
        comm.Barrier()
        spec = {"list": names, "glob": os.path.join(d, "f*.h5"), "nested": [names[:1], names[1:]], "missing": [*names, os.path.join(d, "nothere.h5")]}[c["glob"]]
        import caput.config as cfg

        if w == "find":
            try:
                t = io.FindFiles._from_config({"files": spec})
            except cfg.CaputConfigError:
                return None if c["glob"] == "missing" else "existing files were not found"
            if c["glob"] == "missing":
                return "a missing file was accepted"
            return None if list(t.setup()) == names else f"found {t.setup()}, expected {names}"
        if c["glob"] == "missing":
            return None
        t = io.LoadFilesFromParams._from_config({"files": spec, "distributed": c["distributed"]})
        t._setup_keys(None, "y")
        t.setup()
        for k, (fn, v) in enumerate(zip(names, conts)):
            r = t.next()
            if type(r) is not _mod():
                return f"loaded a {type(r)}"
            for n, x in v.items():
                if not _eq(_whole(r[n]), x):
                    return f"file {k}: dataset {n} differs"
            tag = f"T{k}" if k % 2 else os.path.splitext(os.path.basename(fn))[0]
            if r.attrs["tag"] != tag:
                return f"file {k} tagged {r.attrs['tag']!r}, expected {tag!r}"
        try:
            t.next()
            return "more containers than files"
        except PipelineStopIteration:
            return None
    finally:
        comm.Barrier()
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)


FALSIFIERS = [
    Falsifier("outputs", gen, check, n=70, thorough=1500, ranks=(1, 2, 3)),
    Falsifier("group-files", gen_io, check_io, n=80, thorough=1000,
              fixed=[{"base": "single", "mid": ["p"], "read": False, "write": True, "sub": "", "fmt": None, "seed": 1, "kind": "group", "empty": False},
                     {"base": "single", "mid": ["p"], "read": False, "write": True, "sub": "", "fmt": None, "seed": 1, "kind": "group", "empty": True}]),
    Falsifier("library", gen_misc, check_misc, n=80, thorough=1000, ranks=(1, 2)),
]

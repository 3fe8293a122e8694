"""Selected copies between containers are exact and leave the source alone."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "the axes of the destination have the lengths of the selections, and `axis`, where given, names the selected axes (documented)",
    "a distributed dataset whose every axis is selected is refused (documented)",
]
RULE = "random container classes, contents, selections (slices, index lists, arrays, masks), axis arguments and exclusions, on one to three ranks, against numpy indexing"


# ---------------------------------------------------------------- proofs
def _classes():
    from caput.containers import ContainerPrototype

    class K(ContainerPrototype):
        _axes = ("freq", "time")
        _dataset_spec = {
            "vis": {"axes": ["freq", "time"], "dtype": "f8", "initialise": True, "distributed": False},
            "siv": {"axes": ["time", "freq"], "dtype": "f8", "initialise": False, "distributed": False},
            "gain": {"axes": ["freq"], "dtype": "f8", "initialise": True, "distributed": False},
            "flag": {"axes": ["time"], "dtype": "f8", "initialise": True, "distributed": False},
        }

    return K


DS = {"vis": ["freq", "time"], "siv": ["time", "freq"], "gain": ["freq"], "flag": ["time"]}


def p_filter(e, kind):
    """Element by element, for real containers holding arbitrary arrays."""
    import numpy as np

    from caput.containers import copy_datasets_filter

    K = _classes()
    N = {a: Int(f"n_{a}") for a in ("freq", "time")}
    for n in N.values():
        e.assume(n >= 0)
    # a selection on freq, and possibly one on time
    which = [["freq"], ["time"], ["freq", "time"]][e.choose(3, "which")]
    sel, M, pick = {}, dict(N), {a: (lambda j: j) for a in N}
    for a in which:
        if kind == 0:
            s = slice(OptInt(f"{a}_a"), OptInt(f"{a}_b") if len(which) == 1 else None)
            x, y, c = slice_indices(s, N[a])
            M[a] = _len(e, a, range_len(x, y, c))
            pick[a] = lambda j, x=x, c=c: x + j * c
        elif kind == 1:
            st = [2, -1][e.choose(2, f"step_{a}")] if a == which[0] else -3
            s = slice(None if len(which) == 2 else Int(f"{a}_a"), None, st)
            x, y, c = slice_indices(s, N[a])
            M[a] = _len(e, a, range_len(x, y, c))
            pick[a] = lambda j, x=x, c=c: x + j * c
        else:
            L = e.choose(3, f"len_{a}")
            s = [Int(f"{a}_i{k}") for k in range(L)]
            for v in s:
                e.assume(And(v >= 0, v < N[a]))
            M[a] = _len(e, a, L)
            pick[a] = lambda j, s=s: _nth(s, j)
        sel[a] = s
    rest = e.choose(2, "copy_without_selection") == 1
    excl = [None, ["time"]][e.choose(2, "exclude")]
    src = K(skip_datasets=True, distributed=False, **{a: SArr._make(lambda i, a=a: SVal(z3.Function("ax_" + a, z3.IntSort(), U)(zi(i[0]))), (N[a],), "f8") for a in N})
    fs = {}
    for n, axes in DS.items():
        f = fs[n] = z3.Function("src_" + n, *([z3.IntSort()] * len(axes)), U)
        d = src.create_dataset(n, data=SArr._make(lambda i, f=f: SVal(f(*[zi(x) for x in i])), [N[a] for a in axes], "f8"))
        d.attrs["axis"] = np.array(axes)
        d.attrs["unit"] = n
    dst = K(skip_datasets=True, distributed=False, **{a: SArr._make(lambda i, a=a: SVal(z3.Function("dax_" + a, z3.IntSort(), U)(zi(i[0]))), (M[a],), "f8") for a in N})
    want = {n for n, axes in DS.items() if not (excl and set(excl) & set(axes)) and (rest or set(which) & set(axes))}
    # what the destination held before
    dst.add_dataset("flag")
    old = z3.Function("dst_flag", z3.IntSort(), U)
    dst["flag"][:] = SArr._make(lambda i: SVal(old(zi(i[0]))), (M["time"],), "f8")
    given = dict(sel)
    shown = {a: (tuple(s) if isinstance(s, list) else (s.start, s.stop, s.step)) for a, s in sel.items()}
    e.cover("pre")
    copy_datasets_filter(src, dst, axis=which if rest else [], selection=sel, exclude_axes=excl, copy_without_selection=rest)
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    same = list(sel) == list(given) and all(sel[a] is given[a] for a in given) and all(
        (tuple(s) if isinstance(s, list) else (s.start, s.stop, s.step)) == shown[a] if not isinstance(s, list) else all(x is y for x, y in zip(s, shown[a])) and len(s) == len(shown[a]) for a, s in sel.items())
    e.prove("filter:selection-of-the-caller-unchanged", T if same else F)
    e.prove("filter:exactly-the-datasets-asked-for", T if {n for n in DS if n in dst} == want | {"flag"} else F)
    j = {a: SInt(e.fresh("j_" + a)) for a in N}
    for a in N:
        e.assume(And(j[a] >= 0, j[a] < M[a]))
    for n, axes in DS.items():
        e.prove("filter:source-unchanged", T if src[n][:]._store.writes == 0 else F)
        if n not in dst:
            continue
        d = dst[n]
        e.prove("filter:shape", And(*[SInt(zi(x)) == M[a] for x, a in zip(d.shape, axes)]))
        v = d[:].at(*[j[a] for a in axes])
        if n in want:
            e.prove("filter:elements", SBool(v.z == fs[n](*[zi(pick[a](j[a]) if a in which else j[a]) for a in axes])))
            e.prove("filter:attributes", T if d.attrs["unit"] == n and list(d.attrs["axis"]) == axes else F)
        elif n == "flag":
            e.prove("filter:others-unchanged", SBool(v.z == old(zi(j["time"]))))
    e.cover("elements")


def _len(e, a, n):
    m = Int("m_" + a)
    e.assume(m == n)
    return m


def _nth(s, j):
    r = s[-1] if s else 0
    for k in range(len(s) - 2, -1, -1):
        r = Ite(j == k, s[k], r)
    return r


def p_apply(e):
    """_apply_sel selects along one axis and keeps the others."""
    from caput.mpiarray import _apply_sel

    nd = 1 + e.choose(3, "ndim")
    ax = e.choose(nd, "ax")
    N = [Int(f"n{d}") for d in range(nd)]
    for n in N:
        e.assume(n >= 0)
    f = z3.Function("a", *([z3.IntSort()] * nd), U)
    a = SArr._make(lambda i: SVal(f(*[zi(x) for x in i])), N, "f8")
    if e.choose(2, "kind"):
        L = e.choose(4, "len")
        s = [Int(f"i{k}") for k in range(L)]
        for v in s:
            e.assume(And(v >= -N[ax], v < N[ax]))
        m = L
        pick = lambda j: Ite(_nth(s, j) < 0, _nth(s, j) + N[ax], _nth(s, j))
        arg = tuple(s) if e.choose(2, "tuple") else list(s)
    else:
        st = OptInt("c")
        if st is not None:
            e.assume(Not(st == 0))
        arg = slice(OptInt("a"), OptInt("b"), st)
        x, y, c = slice_indices(arg, N[ax])
        m = range_len(x, y, c)
        pick = lambda j: x + j * c
    e.cover("pre")
    r = _apply_sel(a, arg, ax)
    e.prove("apply:rank", SBool(z3.BoolVal(r.ndim == nd)))
    j = [SInt(e.fresh("j")) for _ in range(nd)]
    for d in range(nd):
        want = m if d == ax else N[d]
        e.prove("apply:extent", SInt(zi(r.shape[d])) == want)
        e.assume(And(j[d] >= 0, j[d] < want))
    e.prove("apply:element", SBool(r.at(*j).z == f(*[zi(pick(j[d]) if d == ax else j[d]) for d in range(nd)])))


U_ = "caput.containers._util."
PROOFS = [
    *[Proof("filter-" + n, lambda e, k=k: p_filter(e, k), [U_ + "copy_datasets_filter", "caput.mpiarray._apply_sel", "caput.containers._core.ContainerPrototype.add_dataset"], covers=["pre", "elements"], budget=400,
            bound="two axes, " + b + "; all axis lengths; not distributed")
      for k, (n, b) in enumerate([("slices", "slices without a step"), ("steps", "steps 2, -1 and -3"), ("lists", "index lists of up to two entries")])],
    Proof("apply", p_apply, ["caput.mpiarray._apply_sel"], covers=["pre"], bound="index lists of up to three entries; slices unbounded; rank 1 to 3"),
]


# ---------------------------------------------------------------- run time
def gen(rng, i):
    from contracts import P16_containers as C
    from contracts.mpi_plain import rslice

    levels = C.gen_cls(rng)
    axes, spec = C.eff(levels)
    for l in levels:
        for s in l["spec"].values():
            s["initialise"] = rng.random() < 0.85
            s["dtype"] = rng.choice(["f8", "f4", "c8", "i4"])
    L = {a: rng.choice([1, 2, 3, 4, 5, 7]) for a in axes}
    sel = {}
    for a in rng.sample(axes, rng.randrange(1, min(len(axes), 2) + 1)):
        k = rng.random()
        n = L[a]
        if k < 0.4:
            sel[a] = rslice(rng, n, full=0.1)
        elif k < 0.6:
            sel[a] = {"l": [rng.randrange(-n, n) for _ in range(rng.randrange(0, n + 2))]}
        elif k < 0.7:
            sel[a] = {"l": list(range(x := rng.randrange(n), rng.randrange(x, n) + 1))}
        elif k < 0.75:
            sel[a] = {"t": [rng.randrange(n) for _ in range(rng.randrange(1, n + 1))]}
        elif k < 0.9:
            sel[a] = {"a": [rng.randrange(n) for _ in range(rng.randrange(1, n + 1))]}
        else:
            sel[a] = {"a": [rng.random() < 0.5 for _ in range(n)]}
    return {"levels": levels, "L": L, "sel": sel, "how": rng.choice(["dict", "dict", "axis", "str", "one"]), "exclude": rng.choice([None, None, [rng.choice(axes)], rng.sample(axes, min(2, len(axes))), []]),
            "rest": rng.random() < 0.5, "seed": rng.randrange(999), "sdist": rng.random() < 0.8, "ddist": rng.random() < 0.85, "pre": rng.random() < 0.5,
            "to": rng.choice([None, None, rng.choice(axes)])}


def check(c):
    import sys
    import types
    import warnings

    import numpy as np

    from caput import containers
    from caput.memdata import MemDatasetDistributed
    from contracts import P16_containers as C
    from contracts.mpi_plain import comm_world, same, unkey

    comm = comm_world()
    mod = types.ModuleType("contracts_p26_mod")
    sys.modules["contracts_p26_mod"] = mod
    K = C.mk_class(c["levels"], mod)
    axes, spec = C.eff(c["levels"])
    src = K(comm=comm, distributed=c["sdist"], **c["L"])
    if c["to"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            src.redistribute(c["to"])
    data = C.fill(src, c["seed"])
    src.attrs["s"] = 1
    sel = {a: unkey(s) for a, s in c["sel"].items()}
    if c["how"] in ("str", "one"):
        a = sorted(sel)[0]
        sel = {a: sel[a]}
    ix = {a: (np.array(s, dtype=int) if isinstance(s, (list, tuple)) else s) for a, s in sel.items()}
    L2 = {a: (len(np.arange(n)[ix[a]]) if a in sel else n) for a, n in c["L"].items()}
    if any(n == 0 for n in L2.values()) and comm.size > 1:
        return None
    dst = K(comm=comm, distributed=c["ddist"], **{a: np.arange(n) for a, n in L2.items()})
    if not c["pre"]:
        dst = K(comm=comm, distributed=c["ddist"], skip_datasets=True, **{a: np.arange(n) for a, n in L2.items()})
    held = C.fill(dst, c["seed"] + 100)
    dst.attrs["d"] = 2
    at = {n: src[n].distributed_axis if isinstance(src[n], MemDatasetDistributed) else None for n in data}
    want = {n for n in data if not (c["exclude"] and set(c["exclude"]) & set(spec[n]["axes"])) and (c["rest"] or set(sel) & set(spec[n]["axes"]))}
    refused = False
    for n in want:
        sd = at[n] is not None
        dd = c["ddist"] and spec[n]["distributed"]
        if sd and not dd:
            refused = True
        if sd:
            full = isinstance(sel.get(spec[n]["axes"][at[n]]), slice) and sel[spec[n]["axes"][at[n]]] == slice(None)
            if spec[n]["axes"][at[n]] in sel and not full and all(a in sel for a in spec[n]["axes"]):
                refused = True
    arg = dict(sel)
    kw = {"exclude_axes": c["exclude"], "copy_without_selection": c["rest"]}
    if c["how"] == "axis":
        kw["axis"] = sorted(sel)
    elif c["how"] == "str":
        kw["axis"] = sorted(sel)[0]
    elif c["how"] == "one":
        kw["axis"] = sorted(sel)
        arg = sel[sorted(sel)[0]]
    before = repr(arg)
    try:
        containers.copy_datasets_filter(src, dst, selection=arg, **kw)
    except ValueError as ex:
        return None if refused else f"refused: {ex}"
    if refused:
        return "an impossible copy was accepted"
    if repr(arg) != before:
        return f"the caller's selection became {arg}, was {before}"
    if {n for n in spec if n in dst} != want | set(held):
        return f"datasets {[n for n in spec if n in dst]}, expected {sorted(want | set(held))}"
    for n in spec:
        if n in data:
            e = same(C.whole(src[n]), data[n], f"source {n}")
            if e:
                return e
            d = src[n].distributed_axis if isinstance(src[n], MemDatasetDistributed) else None
            if d != at[n]:
                return f"the source's {n} is now distributed over {d}, was {at[n]}"
            if src[n].attrs["unit"] != f"u{sorted(data).index(n)}":
                return "attributes of the source changed"
        if n in want:
            w = data[n]
            for k, a in enumerate(spec[n]["axes"]):
                if a in sel:
                    w = w[(slice(None),) * k + (ix[a],)]
            e = same(C.whole(dst[n]), w, f"{n} with {c['sel']}")
            if e:
                return e
            if dst[n].attrs["unit"] != src[n].attrs["unit"]:
                return f"{n}: attributes {dict(dst[n].attrs)}"
            if isinstance(dst[n], MemDatasetDistributed) and at[n] is not None and dst[n].distributed_axis != at[n]:
                return f"{n}: distributed over {dst[n].distributed_axis}, source {at[n]}"
        elif n in held:
            e = same(C.whole(dst[n]), held[n], f"untouched {n}")
            if e:
                return e
            if dst[n].attrs["unit"] != f"u{sorted(held).index(n)}":
                return f"untouched {n}: attributes {dict(dst[n].attrs)}"
    if dict(dst.attrs).get("s") is not None or dst.attrs.get("d") != 2 or src.attrs.get("d") is not None:
        return "container attributes changed"
    # the copies are independent
    for n in want:
        dst[n][:] = 0
        e = same(C.whole(src[n]), data[n], f"source {n} after writing the copy")
        if e:
            return e
    return None


FALSIFIERS = [Falsifier("filter", gen, check, n=350, thorough=8000, ranks=(1, 2, 3), bound="axis lengths <=7")]

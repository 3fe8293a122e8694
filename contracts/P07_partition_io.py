"""Dividing a parallel transfer into chunks: exact tiling, bounded chunk size, agreed on all ranks."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "array rank 1 to 3 (each axis proved separately); extents, item size, limit, communicator size and rank unbounded",
    "double precision arithmetic on sizes and limits treated as exact",
]


# ---------------------------------------------------------------- proofs
def p_chunks(e):
    """The chunks of any two ranks of any distributed array, for any limit."""
    from contracts import mpi_model as M
    from caput import mpiarray

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    M.install()
    P, r1, r2 = Int("P", lo=1), Int("r1", lo=0), Int("r2", lo=0)
    e.assume((r1 < P) & (r2 < P))
    nd = 1 + e.choose(3, "ndim")
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    e.inputs.update(axis=axis, ndim=nd)
    skip = e.choose(2, "skip") == 1
    limit = Real("limit")  # in bytes
    e.assume(limit > 0)
    e.inputs["limit"] = limit
    e.assumed |= {M.A_SPLIT, M.A_NP, M.A_MPI}
    part = M.partition(shape[axis], P)

    def pairwise(x):
        s = SSeq(x.n, x.get) if isinstance(x, SymIterable) else None
        if s is None:
            import itertools

            return itertools.pairwise(x)
        return SymIterable(s.n - 1, lambda k: (s.get(k), s.get(k + 1)))

    mpiarray.__dict__["pairwise"] = pairwise
    itemsize = 8

    def local(r):
        return [part.count(r) if d == axis else shape[d] for d in range(nd)]

    def size(r):
        x = SInt(z3.IntVal(itemsize))
        for n in local(r):
            x = x * n
        return x

    part.touch(z3.IntVal(0))
    rest = SInt(z3.IntVal(itemsize))
    for d in range(nd):
        if d != axis:
            rest = rest * shape[d]
    # rank 0 has the largest share (split_m), hence the most bytes: c <= c0 and rest >= 0
    big = size(0)
    for r in (r1, r2):
        e.add(z3.Implies(z3.And(part.count(r).z <= part.count(0).z, rest.z >= 0), size(r).z <= big.z))

    def run(r):
        comm = M.SymComm(r, P)

        def hook(x):
            e.prove("chunks:every-rank-contributes-its-size", SInt(zi(x)) == size(r))
            return big

        comm.max_hook = hook
        arr, G, _ = M.make_mpiarray(e, shape, axis, comm)
        try:
            return arr._partition_io(skip=skip, threshold=limit / 2**30)
        except RuntimeError:
            return None

    e.cover("pre")
    a, b = run(r1), run(r2)
    many = SBool(zr(big) > limit.z)
    need = z3.Int("need")  # the least number of chunks: ceil(big / limit)
    e.add(z3.And(z3.ToReal(need) * limit.z >= zr(big), (z3.ToReal(need) - 1) * limit.z < zr(big)))
    ok = [SBool(zi(shape[d]) >= need) for d in range(nd) if d != axis]
    can = SBool(z3.Or(z3.BoolVal(skip), z3.Not(many.z), *[x.z for x in ok]))
    if a is None or b is None:
        e.prove("chunks:ranks-agree-on-refusing", T if a is None and b is None else F)
        e.prove("chunks:refused-only-if-not-divisible", ~can)
        return
    e.prove("chunks:accepted-only-if-divisible", can)
    ax, sl = a
    ax2, sl2 = b
    e.prove("chunks:ranks-agree-on-the-axis", T if isinstance(ax, int) and ax == ax2 and 0 <= ax < nd else F)
    n = len(sl) if isinstance(sl, list) else sl.n
    n2 = len(sl2) if isinstance(sl2, list) else sl2.n
    e.prove("chunks:ranks-agree-on-the-number", SInt(zi(n)) == n2)
    e.prove("chunks:at-least-one", SInt(zi(n)) >= 1)
    L = local(r1)[ax]
    get = (lambda k: sl[k]) if isinstance(sl, list) else (lambda k: sl.get(k))
    if isinstance(sl, list):
        if len(sl) != 1:
            raise Unsupported("a list of chunks of concrete length")
        c = sl[0]
        e.prove("chunks:cover-the-axis", (SInt(zi(c.start)) == 0) & (SInt(zi(c.stop)) == L))
        if not skip:
            e.prove("chunks:undivided-only-within-the-limit", ~many)
        return
    e.prove("chunks:not-along-the-distributed-axis", T if ax != axis else F)
    first, last = get(SInt(z3.IntVal(0))), get(SInt(zi(n)) - 1)
    e.prove("chunks:start-at-the-beginning", SInt(zi(first.start)) == 0)
    e.prove("chunks:reach-the-end", SInt(zi(last.stop)) == L)
    k = Int("k", lo=0)
    e.assume(k < n)
    c = get(k)
    e.prove("chunks:no-steps", T if c.step is None or c.step == 1 else F)
    e.prove("chunks:not-empty", SInt(zi(c.start)) < c.stop)
    if bool(k + 1 < n):
        e.prove("chunks:adjacent", SInt(zi(c.stop)) == get(k + 1).start)
    d2 = get(k)
    other = sl2.get(k) if not isinstance(sl2, list) else sl2[0]
    e.prove("chunks:ranks-agree-on-each", And(SInt(zi(d2.start)) == other.start, SInt(zi(d2.stop)) == other.stop) if ax != axis else T)
    # the share of this rank of one chunk
    w = SInt(zi(c.stop)) - c.start
    oth = SInt(z3.IntVal(itemsize))
    for d in range(nd):
        if d != ax:
            oth = oth * local(0)[d]
    e.prove("chunks:within-the-limit-on-the-largest-rank", SBool(zr(w * oth) <= limit.z))


def to_chunks(name, model):
    nd = model.get("ndim")
    if not isinstance(nd, int):
        return []
    shape = [int(model.get(f"n{i}", 3)) for i in range(nd)]
    n = 1
    for x in shape:
        n *= x
    if n > 10**6:
        return []
    from fractions import Fraction

    lim = max(1, round(Fraction(str(model.get("limit", 8)))))
    return [("chunks", {"shape": shape, "axis": model["axis"], "limit": lim, "skip": False})]


PROOFS = [
    Proof("chunks", p_chunks, ["caput/mpiarray.py:MPIArray._partition_io"], to_cases=to_chunks, budget=300),
]


# ---------------------------------------------------------------- falsifiers


def gen(rng, i):
    nd = rng.choice([1, 2, 2, 3, 4])
    shape = [rng.choice([0, 1, 2, 3, 5, 8, 13, 40]) if rng.random() < 0.9 else rng.randrange(0, 300) for _ in range(nd)]
    return {"shape": shape, "axis": rng.randrange(nd), "limit": rng.choice([8, 16, 40, 64, 100, 256, 1000, 10**6]),
            "skip": rng.random() < 0.1}


def check(c):
    import numpy as np

    from contracts.mpi_plain import bounds, comm_world
    from caput.mpiarray import MPIArray

    comm = comm_world()
    a = MPIArray(tuple(c["shape"]), axis=c["axis"], dtype=np.float64, comm=comm)
    lim = c["limit"]
    biggest = max(comm.allgather(a.nbytes))
    try:
        ax, parts = a._partition_io(skip=c["skip"], threshold=lim / 2**30)
        ex = None
    except RuntimeError as e:
        ex = e
    nref = sum(comm.allgather(1 if ex else 0))
    if nref not in (0, comm.size):
        return "ranks disagree on refusing"
    need = -(-biggest // lim)
    usable = [d for d in range(len(c["shape"])) if d != c["axis"] and c["shape"][d] >= need]
    if ex:
        if c["skip"] or need <= 1 or usable:
            return f"refused although possible: {ex}"
        return None
    got = comm.allgather((ax, len(parts)))
    if len(set(got)) != 1:
        return f"ranks disagree on the chunks: {got}"
    n = a.local_shape[ax]
    pos = 0
    for p in parts:
        if p.start != pos or p.stop < p.start or p.step not in (None, 1):
            return f"chunks do not tile: {parts}"
        pos = p.stop
    if pos != n:
        return f"chunks end at {pos}, axis has {n}"
    if c["skip"] or need <= 1:
        return None
    if ax == c["axis"]:
        return "split along the distributed axis"
    other = int(np.prod([s for d, s in enumerate(a.local_shape) if d != ax], dtype=int)) * 8
    for p in parts:
        if (p.stop - p.start) * other > lim:
            return f"chunk {p} has {(p.stop - p.start) * other} bytes, limit {lim}"
        if p.stop == p.start:
            return f"empty chunk {p}"
    return None


FALSIFIERS = [
    Falsifier("chunks", gen, check, n=500, thorough=8000, ranks=(1, 2, 3),
              fixed=[{"shape": [0], "axis": 0, "limit": 100, "skip": False}, {"shape": [3, 0], "axis": 0, "limit": 100, "skip": False}]),
]

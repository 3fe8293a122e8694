"""Helpers for run-time evaluation of the distributed-array contracts (real MPI ranks)."""

import numpy as np


def bounds(n, m):
    base, rem = divmod(n, m)
    b = [0]
    for i in range(m):
        b.append(b[-1] + base + (1 if i < rem else 0))
    return b


def comm_world():
    from mpi4py import MPI

    return MPI.COMM_WORLD


DTYPES = ["f8", "f4", "i8", "i4", "c16", "u1"]


def garray(shape, dtype="f8", start=1):
    n = int(np.prod(shape, dtype=int))
    if dtype == "struct":
        a = np.zeros(n, dtype=[("a", "i4"), ("b", "f8")])
        a["a"] = np.arange(n)
        a["b"] = np.arange(n) * 0.5
        return a.reshape(shape)
    a = (np.arange(n) * 7 + start) % 251
    a = a.astype(dtype)
    if dtype.startswith("c"):
        a = a + 1j * (np.arange(n) % 13)
    return a.reshape(shape).astype(dtype)


def share(G, axis, comm):
    b = bounds(G.shape[axis], comm.size)
    sl = [slice(None)] * G.ndim
    sl[axis] = slice(b[comm.rank], b[comm.rank + 1])
    return G[tuple(sl)]


def dist(G, axis, comm, via="new"):
    from caput.mpiarray import MPIArray

    if via == "wrap":
        return MPIArray.wrap(share(G, axis, comm).copy(), axis, comm=comm)
    a = MPIArray(G.shape, axis=axis, dtype=G.dtype, comm=comm)
    a.local_array[...] = share(G, axis, comm)
    return a


def meta(a, G, axis, comm, what="result"):
    """The metadata and data of ``a`` describe this rank's share of G."""
    from caput.mpiarray import MPIArray

    if type(a) is not MPIArray:
        return f"{what}: is {type(a).__name__}, not a distributed array"
    b = bounds(G.shape[axis], comm.size)
    off = [0] * G.ndim
    off[axis] = b[comm.rank]
    loc = list(G.shape)
    loc[axis] = b[comm.rank + 1] - b[comm.rank]
    if a.axis != axis:
        return f"{what}: distributed axis {a.axis}, expected {axis}"
    if tuple(a.global_shape) != tuple(G.shape):
        return f"{what}: global shape {a.global_shape}, expected {G.shape}"
    if tuple(a.local_shape) != tuple(loc) or tuple(a.shape) != tuple(loc):
        return f"{what}: local shape {a.local_shape}/{a.shape}, expected {loc}"
    if tuple(a.local_offset) != tuple(off):
        return f"{what}: local offset {a.local_offset}, expected {off}"
    lb = a.local_bounds
    if (lb.start, lb.stop) != (b[comm.rank], b[comm.rank + 1]):
        return f"{what}: local bounds {lb}"
    if a.comm != comm:
        return f"{what}: wrong communicator"
    return same(a.local_array, share(G, axis, comm), what)


def same(got, want, what="result"):
    got = np.asarray(got)
    if got.shape != want.shape:
        return f"{what}: shape {got.shape}, expected {want.shape}"
    if got.dtype != want.dtype:
        return f"{what}: dtype {got.dtype}, expected {want.dtype}"
    if not np.array_equal(got, want, equal_nan=want.dtype.kind in "fc"):
        return f"{what}: data {got.tolist()} expected {want.tolist()}"[:900]
    return None


def unkey(k):
    """JSON -> index key."""
    if isinstance(k, dict):
        if "s" in k:
            return slice(*k["s"])
        if "np" in k:
            return np.int64(k["np"])
        if "l" in k:
            return list(k["l"])
        if "t" in k:
            return tuple(unkey(x) for x in k["t"])
        if "a" in k:
            return np.array(k["a"])
    if k == "...":
        return Ellipsis
    if k == "new":
        return None
    return k


def rslice(rng, n, full=0.2, neg_step=True, steps=True):
    if rng.random() < full:
        return {"s": [None, None, None]}
    def v():
        if rng.random() < 0.25:
            return None
        return rng.randrange(-n - 3, n + 4)
    st = None
    if steps and rng.random() < 0.5:
        st = rng.choice([1, 2, 3, 5, -1, -2, -3] if neg_step else [1, 2, 3, 5])
    return {"s": [v(), v(), st]}

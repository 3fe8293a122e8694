"""Ghost model shared by the distributed-array contracts (symbolic world only)."""

import z3

from pv import npsym
from pv.npsym import SArr
from pv.sym import And, Implies, Int, Ite, Or, PathEnd, SBool, SInt, SReal, SVal, U, Unsupported, eng, zb, zi

A_SPLIT = "callee contract of split_m (proved as P01): bounds S(0)=0..S(m)=n, balanced, larger first"
A_MPI = "MPI point-to-point/collective semantics: a matched receive delivers the sender's buffer unchanged"
A_SYM = "every rank runs the same function on its own share of one global array (SPMD)"
A_NP = "numpy basic indexing/assignment/transposition semantics as modelled in pv/npsym.py"


class Partition:
    """S: bounds of the balanced partition of [0, n) into m parts."""

    def __init__(self, n, m, tag):
        self.n, self.m = n, m
        self.S = z3.Function(f"bound_{tag}", z3.IntSort(), z3.IntSort())
        self.own_f = z3.Function(f"owner_{tag}", z3.IntSort(), z3.IntSort())
        self.seen = []
        e = eng()
        e.add(z3.And(self.S(0) == 0, self.S(zi(m)) == zi(n)))

    def _raw(self, i):
        return self.S(i)

    def touch(self, i):
        """Instances of the contract's facts for index i (0 <= i < m)."""
        i = z3.simplify(zi(i))
        e = eng()
        for j in self.seen:
            if z3.eq(i, j):
                return
        S, n, m = self.S, zi(self.n), zi(self.m)
        g = z3.And(i >= 0, i < m)
        e.add(
            z3.Implies(
                g,
                z3.And(
                    S(i) >= 0, S(i + 1) <= n, S(i) <= S(i + 1),
                    S(i + 1) - S(i) <= S(1) - S(0),
                    S(i + 1) - S(i) >= S(1) - S(0) - 1,
                ),
            )
        )
        for j in self.seen:
            h = z3.And(g, j >= 0, j < m)
            e.add(z3.Implies(z3.And(h, i < j), S(i + 1) <= S(j)))
            e.add(z3.Implies(z3.And(h, j < i), S(j + 1) <= S(i)))
            e.add(z3.Implies(z3.And(h, i < j), S(i + 1) - S(i) >= S(j + 1) - S(j)))
            e.add(z3.Implies(z3.And(h, j < i), S(j + 1) - S(j) >= S(i + 1) - S(i)))
        self.seen.append(i)

    def start(self, i):
        self.touch(i)
        return SInt(self.S(zi(i)))

    def end(self, i):
        self.touch(i)
        return SInt(self.S(zi(i) + 1))

    def count(self, i):
        return self.end(i) - self.start(i)

    def owner(self, x):
        """The rank holding global index x (exists because the parts tile [0, n))."""
        o = self.own_f(zi(x))
        e = eng()
        self.touch(o)
        g = z3.And(zi(x) >= 0, zi(x) < zi(self.n))
        e.add(z3.Implies(g, z3.And(o >= 0, o < zi(self.m), self.S(o) <= zi(x), zi(x) < self.S(o + 1))))
        return SInt(o)

    def table(self):
        fs = [self.count, self.start, self.end]

        def fn(idx):
            k = npsym.cint(idx[0])
            if isinstance(k, int):
                return fs[k](idx[1])
            raise Unsupported("symbolic row of the split table")

        return SArr._make(fn, (3, self.m), int)


def partition(n, m):
    """The partition of n over m, one ghost object per distinct (n, m)."""
    e = eng()
    n, m = SInt(zi(n)), SInt(zi(m))
    cache = e.ghost.setdefault("partitions", [])
    for p in cache:
        if z3.eq(z3.simplify(p.n.z), z3.simplify(n.z)) and z3.eq(z3.simplify(p.m.z), z3.simplify(m.z)):
            return p
    for p in cache:
        if e._check(z3.Or(p.n.z != n.z, p.m.z != m.z)) == z3.unsat:
            return p
    p = Partition(n, m, len(cache))
    cache.append(p)
    return p


def split_m_contract(n, m):
    e = eng()
    e.assumed.add(A_SPLIT)
    e.prove("requires:split_m(m>=1)", SInt(zi(m)) >= 1)
    e.prove("requires:split_m(n>=0)", SInt(zi(n)) >= 0)
    return partition(n, m).table()


class SymComm:
    """A communicator of symbolic size; messages are matched by symmetry of the code."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size
        self.log = []

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Split_type(self, *a, **k):
        return self

    def Barrier(self):
        pass

    def allreduce(self, x, op=None):
        """Sum/max over ranks of a per-rank quantity, by the SPMD contract of the caller.

        MAX of a layout mismatch flag: every rank holds its share, so each
        rank's flag is the one computed here (proved False before it is used).
        SUM of the local extents of an axis partitioned over the ranks: its length.
        """
        from mpi4py import MPI

        e = eng()
        if op is MPI.MAX or op == MPI.MAX:
            e.assumed.add(A_SYM)
            h = getattr(self, "max_hook", None)
            if h is not None:
                return h(x)
            if isinstance(x, (SBool, bool)):
                e.prove("allreduce:no-rank-disagrees", SBool(z3.Not(zb(x))))
                return False
            raise Unsupported("allreduce MAX")
        for p in e.ghost.get("partitions", []):
            if e._check(zi(x) != zi(p.count(self.rank))) == z3.unsat and e._check(zi(self.size) != zi(p.m)) == z3.unsat:
                e.assumed.add(A_SYM)
                return p.n
        raise Unsupported("allreduce SUM of something that is not a partition share")

    barrier = Barrier

    def __eq__(self, o):
        return o is self

    __hash__ = object.__hash__


def install():
    """Replace callees by their contracts."""
    import sys

    from caput.util import arraytools, mpitools

    arraytools.split_m = split_m_contract
    mpitools.self_module.__dict__["split_m"] = split_m_contract
    mpitools.self_module.__dict__["can_allocate"] = lambda *a, **k: True
    for mod in list(sys.modules.values()):
        if getattr(mod, "__name__", "").startswith("caput") and mod.__dict__.get("split_m") is not None:
            mod.__dict__["split_m"] = split_m_contract


def new_comm():
    P = Int("P", lo=1)
    r = Int("rank", lo=0)
    eng().assume(r < P)
    return SymComm(r, P)


class GlobalArray:
    """Ghost: the global array G and this rank's share of it."""

    def __init__(self, shape, name="G"):
        self.shape = shape
        self.f = z3.Function(name, *([z3.IntSort()] * len(shape)), U)

    def at(self, *idx):
        return SVal(self.f(*[zi(i) for i in idx]))


def shape_inputs(e, ndim, prefix="n"):
    return tuple(Int(f"{prefix}{i}", lo=0) for i in range(ndim))


def make_mpiarray(e, shape, axis, comm, name="G"):
    """A real MPIArray (over the symbolic ndarray) holding this rank's part of G."""
    from caput.mpiarray import MPIArray

    G = GlobalArray(shape, name)
    arr = MPIArray(shape, axis=axis, comm=comm)
    part = partition(shape[axis], comm.size)
    off = part.start(comm.rank)

    def fn(idx):
        g = list(idx)
        g[axis] = off + g[axis]
        return G.at(*g)

    arr._store.fn = fn
    return arr, G, part


def local_index(e, shape, prefix="x"):
    """Arbitrary in-range index tuple for ``shape`` (skolem constants)."""
    out = []
    for i, n in enumerate(shape):
        x = SInt(e.fresh(prefix))
        e.add(z3.And(x.z >= 0, x.z < zi(n)))
        out.append(x)
    return tuple(out)


def meta_ok(e, arr, axis, gshape, part, comm, pre):
    """The distribution metadata of a result describe its true share."""
    from caput.mpiarray import MPIArray

    e.prove(pre + "is-distributed", SBool(z3.BoolVal(type(arr) is MPIArray)))
    if type(arr) is not MPIArray:
        raise PathEnd
    e.prove(pre + "axis", SBool(z3.BoolVal(isinstance(arr.axis, int) and arr.axis == axis)))
    e.prove(pre + "rank-of-array", SBool(z3.BoolVal(len(arr.shape) == len(gshape) == len(arr.global_shape) == len(arr.local_shape) == len(arr.local_offset))))
    conds, offc, locc, shpc = [], [], [], []
    for i, n in enumerate(gshape):
        want = part.count(comm.rank) if i == axis else n
        conds.append(SInt(zi(arr.global_shape[i])) == n)
        offc.append(SInt(zi(arr.local_offset[i])) == (part.start(comm.rank) if i == axis else 0))
        locc.append(SInt(zi(arr.local_shape[i])) == want)
        shpc.append(SInt(zi(arr.shape[i])) == want)
    e.prove(pre + "global-shape", And(*conds))
    e.prove(pre + "local-offset", And(*offc))
    e.prove(pre + "local-shape", And(*locc))
    e.prove(pre + "data-shape", And(*shpc))
    e.prove(pre + "comm", SBool(z3.BoolVal(arr.comm is comm)))


# ---------------------------------------------------------------- messages between ranks of one program
class PeerDone(Exception):
    """The other rank has reached the call that is asked about."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class SpmdComm(SymComm):
    """A communicator of symbolic size for code whose loop over ranks is cut by an invariant.

    What another rank sends in the same iteration is found by running the same function as that
    rank (``peer``) up to its communication call in that iteration.
    """

    def __init__(self, rank, size, peer=None, capture=False):
        super().__init__(rank, size)
        self.peer, self.capture = peer, capture
        self.nested = False
        self.isent = None

    def _ask(self, who, what):
        """Run rank ``who`` to its next ``what`` of this iteration."""
        e = eng()
        e.assumed.add(A_MPI)
        e.assumed.add(A_SYM)
        c = SpmdComm(who, self.size, self.peer, capture=what)
        old = e.ghost.get("same-iteration")
        e.ghost["same-iteration"] = e.ghost["iteration"]
        try:
            self.peer(c)
        except PeerDone as d:
            return d
        finally:
            e.ghost["same-iteration"] = old
        e.prove("message:the-other-rank-sends-in-the-same-step", SBool(z3.BoolVal(False)))
        raise PathEnd

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=None, recvtag=0, status=None):
        sb = sendbuf[0] if isinstance(sendbuf, (tuple, list)) else sendbuf
        rb = recvbuf[0] if isinstance(recvbuf, (tuple, list)) else recvbuf
        if self.capture:
            raise PeerDone(dest=dest, tag=sendtag, fn=sb._fn(), shape=sb.shape)
        e = eng()
        e.prove("message:destination-and-source-are-ranks", And(SInt(zi(dest)) >= 0, SInt(zi(dest)) < self.size, SInt(zi(source)) >= 0, SInt(zi(source)) < self.size))
        p = self._ask(SInt(zi(source)), "Sendrecv")
        e.prove("message:the-source-sends-to-this-rank", SInt(zi(p.dest)) == self.rank)
        e.prove("message:tags-match", SInt(zi(p.tag)) == recvtag)
        e.prove("message:buffer-sizes-match", And(*[SInt(zi(a)) == b for a, b in zip(p.shape, rb.shape)]))
        rb[...] = SArr._make(p.fn, rb.shape, rb.dtype)

    def Isend(self, buf, dest, tag=0):
        b = buf[0] if isinstance(buf, (tuple, list)) else buf
        if self.capture:
            raise PeerDone(dest=dest, tag=tag, fn=b._fn(), shape=b.shape)
        self.isent = PeerDone(dest=dest, tag=tag, fn=b._fn(), shape=b.shape)
        return _Req()

    def Irecv(self, buf, source, tag=0):
        b = buf[0] if isinstance(buf, (tuple, list)) else buf
        if self.capture:
            return _Req()
        return _Req(lambda: self._deliver(b, source, tag))

    def _deliver(self, b, source, tag):
        e = eng()
        e.prove("message:source-is-a-rank", And(SInt(zi(source)) >= 0, SInt(zi(source)) < self.size))
        if bool(SInt(zi(source)) == self.rank):
            p = self.isent
            if p is None:
                e.prove("message:sent-before-waiting-for-it", SBool(z3.BoolVal(False)))
                raise PathEnd
        else:
            p = self._ask(SInt(zi(source)), "Isend")
        e.prove("message:the-source-sends-to-this-rank", SInt(zi(p.dest)) == self.rank)
        e.prove("message:tags-match", SInt(zi(p.tag)) == tag)
        e.prove("message:buffer-sizes-match", And(*[SInt(zi(x)) == y for x, y in zip(p.shape, b.shape)]))
        b[...] = SArr._make(p.fn, b.shape, b.dtype)

    def Bcast(self, buf, root=0):
        b = buf[0] if isinstance(buf, (tuple, list)) else buf
        e = eng()
        if self.capture:
            raise PeerDone(root=root, fn=b._fn(), shape=b.shape)
        e.prove("message:root-is-a-rank", And(SInt(zi(root)) >= 0, SInt(zi(root)) < self.size))
        if bool(SInt(zi(root)) == self.rank):
            return
        p = self._ask(SInt(zi(root)), "Bcast")
        e.prove("message:ranks-agree-on-the-root", SInt(zi(p.root)) == root)
        e.prove("message:buffer-sizes-match", And(*[SInt(zi(x)) == y for x, y in zip(p.shape, b.shape)]))
        b[...] = SArr._make(p.fn, b.shape, b.dtype)


class _Req:
    def __init__(self, fn=None):
        self.fn = fn

    def Wait(self, status=None):
        if self.fn is not None:
            self.fn()

    wait = Wait


def same_iteration(L):
    """Invariant part: a nested run is looked at in the iteration of the rank that asked."""
    e = eng()
    k = e.ghost.get("same-iteration")
    if L["__phase"] != "assume":
        return []
    if k is None:
        e.ghost["iteration"] = L["__k"]
        return []
    return [("the-same-iteration", L["__k"] == k)]

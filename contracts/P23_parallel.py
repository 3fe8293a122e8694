"""Parallel map and communication return every result in its place on every rank."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "MPI semantics: a matched receive delivers the sender's buffer unchanged; collectives deliver every rank's value in rank order",
    "every rank calls the function with the same global arguments (SPMD)",
    "the balanced division of a range (split_m, partition_list) is used at the contract proved as P01",
]
RULE = "random list lengths, methods, roots, sub-communicators, shapes and element types on 1 to 5 real MPI ranks"


# ---------------------------------------------------------------- proofs
def p_filter(e):
    """MPILogFilter: pass exactly the records at or above the level set for the rank of the record."""
    from caput.util import mpitools

    rank, size = Int("rank"), Int("size")
    e.assume((size >= 1) & (rank >= 0) & (rank < size))
    l0, la, lv = Int("level_rank0"), Int("level_all"), Int("levelno")
    rr = Int("record_rank")
    e.assume(rr >= 0)

    class Comm:
        def __bool__(self):
            return True

    comm = Comm()
    comm.rank, comm.size = rank, size
    add = e.choose(2, "add_info") == 1
    has = e.choose(2, "record_has_rank") == 1
    f = mpitools.MPILogFilter(add_mpi_info=add, level_rank0=l0, level_all=la, comm=comm)

    class Rec:
        pass

    rec = Rec()
    rec.levelno = lv
    rec.relativeCreated = Real("created")
    e.assume(rec.relativeCreated >= 0)
    if has:
        rec.mpi_rank, rec.mpi_size = rr, Int("record_size")
    e.cover("pre")
    r = f.filter(rec)
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    src = rr if has else rank
    if isinstance(r, bool):
        r = T if r else F
    e.prove("filter:passes-iff-at-least-the-level-of-the-rank", SBool(r.z == z3.If(src.z == 0, lv.z >= l0.z, lv.z >= la.z)))
    if has:
        e.prove("filter:record-rank-kept", SBool(rec.mpi_rank.z == rr.z))
    elif add:
        e.prove("filter:rank-added", SBool(z3.And(rec.mpi_rank.z == rank.z, rec.mpi_size.z == size.z)) if hasattr(rec, "mpi_rank") else F)
    else:
        e.prove("filter:no-rank-added", F if hasattr(rec, "mpi_rank") else T)
    e.prove("filter:elapsed-seconds", SBool(z3.And(rec.elapsedTime.z * 1000 - rec.relativeCreated.z <= rec.relativeCreated.z / 10**9, rec.relativeCreated.z - rec.elapsedTime.z * 1000 <= rec.relativeCreated.z / 10**9)))


def p_collect(e):
    """bcast and allreduce: the MPI operation with the caller's arguments on several ranks, the argument on one."""
    from mpi4py import MPI

    from caput.util import mpitools

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    size = Int("size")
    e.assume(size >= 1)
    none = e.choose(2, "comm") == 0
    x = SVal(z3.Const("x", U))
    root = Int("root")
    e.assume((root >= 0) & (root < size))
    calls = []

    class Comm:
        def bcast(self, obj, root=0):
            calls.append(("bcast", obj, root))
            return SVal(z3.Const("bcast_result", U))

        def allreduce(self, obj, op=MPI.SUM):
            calls.append(("allreduce", obj, op))
            return SVal(z3.Const("reduced", U))

        def Barrier(self):
            calls.append(("barrier",))

        barrier = Barrier

    comm = None if none else Comm()
    if comm:
        comm.size = size
    which = e.choose(3, "which")
    e.cover("pre")
    if which == 0:
        r = mpitools.bcast(x, root=root, comm=comm)
        if none:
            e.prove("bcast:serial-identity", T if r is x else F)
            return
        if calls:
            e.prove("bcast:value-and-root", SBool(calls[0][2].z == root.z) if len(calls) == 1 and calls[0][0] == "bcast" and calls[0][1] is x else F)
            e.prove("bcast:result", SBool(r.z == z3.Const("bcast_result", U)))
        else:
            e.prove("bcast:skipped-only-on-one-rank", size <= 1)
            e.prove("bcast:identity-on-one-rank", T if r is x else F)
    elif which == 1:
        op = [None, MPI.MAX, MPI.SUM, MPI.LOR][e.choose(4, "op")]
        r = mpitools.allreduce(x, op=op, comm=comm)
        if none:
            e.prove("allreduce:serial-identity", T if r is x else F)
            return
        if calls:
            ok = len(calls) == 1 and calls[0][0] == "allreduce" and calls[0][1] is x and calls[0][2] is (op if op is not None else MPI.SUM)
            e.prove("allreduce:value-and-operation", T if ok else F)
            e.prove("allreduce:result", SBool(r.z == z3.Const("reduced", U)))
        else:
            e.prove("allreduce:skipped-only-on-one-rank", size <= 1)
            e.prove("allreduce:identity-on-one-rank", T if r is x else F)
    else:
        mpitools.barrier(comm=comm)
        if not none and not calls:
            e.prove("barrier:skipped-only-on-one-rank", size <= 1)
        elif calls:
            e.prove("barrier:called", T if calls == [("barrier",)] else F)


def p_map(e):
    """parallel_map over an uninterpreted function: every rank's call is run, then completed with all the messages."""
    from caput.util import mpitools

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    H = z3.Function("F", U, U)
    m = 1 + e.choose(4, "ranks")
    n = e.choose(8, "length")
    method = ["con", "alt", "rand"][e.choose(3, "method")]
    root = [None, *range(m)][e.choose(m + 1, "root")]
    items = [SVal(z3.Const(f"x{i}", U)) for i in range(n)]
    log = []

    class Done(Exception):
        pass

    class Comm:
        size = m

        def __init__(self, rank, store, first):
            self.rank, self.store, self.first = rank, store, first

        def Get_rank(self):
            return self.rank

        def Get_size(self):
            return self.size

        def Barrier(self):
            pass

        barrier = Barrier

        def bcast(self, obj, root=0):
            # rank 0 runs first; the library broadcasts from rank 0
            k = ("b", self.nb)
            self.nb += 1
            if self.rank == root:
                self.store[k] = obj
            if k not in self.store:
                raise Unsupported("broadcast from another rank")
            return self.store[k]

        def allgather(self, obj):
            return self._g(obj, None)

        def gather(self, obj, root=0):
            return self._g(obj, root)

        def _g(self, obj, root):
            if self.first:
                self.store["g", self.rank] = obj
                raise Done
            if root is not None and root != self.rank:
                return None
            return [self.store["g", r] for r in range(m)]

    def run(rank, store, first):
        c = Comm(rank, store, first)
        c.nb = 0

        def func(x):
            if first:
                log.append(x)
            return SVal(H(x.z))

        try:
            return mpitools.parallel_map(func, list(items), root=root, method=method, comm=c)
        except Done:
            return "paused"

    store = {}
    e.cover("pre")
    first = [run(r, store, True) for r in range(m)]
    if m == 1:
        e.prove("map:serial-length", T if isinstance(first[0], list) and len(first[0]) == n else F)
        for i, x in enumerate(items):
            e.prove("map:serial-results-in-order", SBool(first[0][i].z == H(x.z)))
        e.prove("map:each-item-once", T if [id(x) for x in log] == [id(x) for x in items] else F)
        return
    ids = sorted(id(x) for x in log)
    e.prove("map:each-item-computed-exactly-once", T if ids == sorted(id(x) for x in items) else F)
    for r in range(m):
        out = run(r, store, False)
        if root is not None and r != root:
            e.prove("map:nothing-on-other-ranks", T if out is None else F)
            continue
        if not (isinstance(out, list) and len(out) == n):
            e.prove("map:as-many-results-as-items", F)
            continue
        for i, x in enumerate(items):
            e.prove("map:results-in-input-order-on-every-rank", SBool(out[i].z == H(x.z)))
        e.prove("map:complete", T)


def p_transpose(e):
    """transpose_blocks of a matrix of any shape over 1 to 3 ranks: every rank's sends are recorded, then delivered."""
    import numpy as np
    from contracts import mpi_model as M
    from caput.util import mpitools

    m = 1 + e.choose(3, "ranks")
    nr, nc = Int("nr"), Int("nc")
    e.assume((nr >= 1) & (nc >= 1))
    G = z3.Function("G", z3.IntSort(), z3.IntSort(), z3.RealSort())
    M.install()
    pr, pc = M.partition(nr, m), M.partition(nc, m)
    trim = e.choose(2, "trimmed") == 1
    extra = Int("extra")
    e.assume((extra >= 0) if trim else SBool(extra.z == 0))

    class Req:
        def Wait(self, status=None):
            return None

        wait = Wait

    class Comm:
        size = m

        def __init__(self, rank, sent, first):
            self.rank, self.sent, self.first = rank, sent, first

        def Barrier(self):
            pass

        barrier = Barrier

        def Isend(self, buf, dest, tag=0):
            if self.first:
                key = (self.rank, int(dest), int(tag))
                if key in self.sent:
                    raise Unsupported("two messages with the same tag")
                self.sent[key] = buf[0].copy()
            return Req()

        def Irecv(self, buf, source, tag=0):
            if not self.first:
                got = self.sent.get((int(source), self.rank, int(tag)))
                if got is None:
                    e.prove("transpose:every-receive-has-a-matching-send", SBool(z3.BoolVal(False)))
                    raise PathEnd
                e.prove("transpose:message-has-the-size-of-the-receive-buffer", SBool(z3.And(*[zi(a) == zi(b) for a, b in zip(buf[0].shape, got.shape)])))
                self.used.append((int(source), self.rank, int(tag)))
                buf[0][...] = got
            return Req()

    def local(r):
        s, n = pr.start(r), pr.count(r)
        return SArr._make(lambda idx: SReal(G(zi(idx[0]) + s.z, zi(idx[1]))), (n, nc + extra), float)

    from mpi4py import MPI

    class St:
        error = MPI.SUCCESS

    e.cover("pre")
    if m == 1:
        out = mpitools.transpose_blocks(local(0), (nr, nc), comm=[None, Comm(0, {}, True)][e.choose(2, "comm")])
        outs, sent = [out], {}
    else:
        sent = {}
        for r in range(m):
            mpitools.transpose_blocks(local(r), (nr, nc), comm=Comm(r, sent, True))
        outs = []
        used = []
        for r in range(m):
            c = Comm(r, sent, False)
            c.used = used
            outs.append(mpitools.transpose_blocks(local(r), (nr, nc), comm=c))
        e.prove("transpose:every-send-is-received-once", SBool(z3.BoolVal(sorted(used) == sorted(sent))))
    i, j = Int("i"), Int("j")
    e.assume((i >= 0) & (i < nr) & (j >= 0))
    for r, out in enumerate(outs):
        e.prove("transpose:local-shape", SBool(z3.And(zi(out.shape[0]) == nr.z, zi(out.shape[1]) == pc.count(r).z)))
    if m == 1:
        who = 0
    else:
        who = e.choose(m, "rank")
    e.assume(SBool(j.z < pc.count(who).z))
    e.prove("transpose:columns-of-this-rank", SBool(outs[who][i, j].z == G(i.z, j.z + pc.start(who).z)))


def p_gather(e):
    """gather_local of the blocks of an array divided along either axis, placed at any offset of the root's array."""
    import mpi4py.MPI as MPI
    from contracts import mpi_model as M
    from caput.util import mpitools

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    m = 1 + e.choose(3, "ranks")
    root = e.choose(m, "root")
    ax = e.choose(2, "axis")
    n = [Int("n0"), Int("n1")]
    o = [Int("o0"), Int("o1")]
    N = [Int("N0"), Int("N1")]
    for k in range(2):
        e.assume((n[k] >= 0) & (o[k] >= 0) & (o[k] + n[k] <= N[k]))
    A = z3.Function("A", z3.IntSort(), z3.IntSort(), z3.RealSort())
    B = z3.Function("B", z3.IntSort(), z3.IntSort(), z3.RealSort())
    part = M.partition(n[ax], m)
    sent = {}

    class Type:
        """The MPI type of one element; a sub-array type names a region of the receiver's array."""

        def __init__(self, region=None):
            self.region = region

        def Create_subarray(self, sizes, subsizes, starts, order=None):
            return Type((sizes, subsizes, starts))

        def Commit(self):
            return self

        def Free(self):
            pass

    class Req:
        def Wait(self, status=None):
            self.done = True

        wait = Wait

    class Comm:
        size = m

        def __init__(self, rank, first):
            self.rank, self.first, self.ng = rank, first, 0

        def Barrier(self):
            pass

        def gather(self, obj, root=0):
            k = self.ng
            self.ng += 1
            sent["g", k, self.rank] = obj
            if self.first:
                return [obj] * m if self.rank == root else None
            return [sent["g", k, r] for r in range(m)] if self.rank == root else None

        def Isend(self, buf, dest, tag=0):
            if self.first:
                sent[self.rank, int(dest), int(tag)] = buf[0].copy()
            return Req()

        def Irecv(self, buf, source, tag=0):
            if not self.first:
                got = sent.get((int(source), self.rank, int(tag)))
                if got is None:
                    e.prove("gather:every-receive-has-a-matching-send", F)
                    raise PathEnd
                sizes, sub, st = buf[1].region
                e.prove("gather:region-fits-the-message", SBool(z3.And(*[zi(a) == zi(b) for a, b in zip(sub, got.shape)])))
                e.prove("gather:region-is-inside-the-array", SBool(z3.And(*[z3.And(zi(s) >= 0, zi(s) + zi(w) <= zi(L)) for s, w, L in zip(st, sub, buf[0].shape)])))
                buf[0][tuple(slice(s, s + w) for s, w in zip(st, sub))] = got
                used.append((int(source), self.rank, int(tag)))
            return Req()

    used = []
    mod = mpitools.self_module.__dict__

    class Shim:
        class Prequest:
            @staticmethod
            def Waitall(reqs, *a):
                return True

        Request = Prequest

        def __getattr__(self, k):
            return getattr(MPI, k)

    def local(r):
        s = part.start(r)
        shp = list(n)
        shp[ax] = part.count(r)
        return SArr._make(lambda idx: SReal(A(*[zi(x) + (s.z if k == ax else 0) for k, x in enumerate(idx)])), tuple(shp), float)

    def start(r):
        st = list(o)
        st[ax] = o[ax] + part.start(r)
        return tuple(st)

    keep = {k: mod[k] for k in ("typemap", "MPI")}
    mod["typemap"], mod["MPI"] = (lambda dt: Type()), Shim()
    e.cover("pre")
    try:
        whole = SArr._make(lambda idx: SReal(B(zi(idx[0]), zi(idx[1]))), tuple(N), float).copy()
        if m == 1:
            mpitools.gather_local(whole, local(0), start(0), root=0, comm=[None, Comm(0, True)][e.choose(2, "comm")])
        else:
            for r in range(m):
                mpitools.gather_local(whole.copy() if r == root else None, local(r), start(r), root=root, comm=Comm(r, True))
            mpitools.gather_local(whole, local(root), start(root), root=root, comm=Comm(root, False))
            want = sorted(k for k in sent if k[0] != "g")
            e.prove("gather:every-send-is-received-once", T if sorted(used) == want else F)
    finally:
        mod.update(keep)
    i, j = Int("i"), Int("j")
    e.assume((i >= 0) & (i < N[0]) & (j >= 0) & (j < N[1]))
    inside = (i >= o[0]) & (i < o[0] + n[0]) & (j >= o[1]) & (j < o[1] + n[1])
    part.owner([i, j][ax] - o[ax])
    e.prove("gather:every-element-in-its-place", SBool(z3.Implies(inside.z, whole[i, j].z == A(i.z - o[0].z, j.z - o[1].z))))
    e.prove("gather:rest-of-the-array-untouched", SBool(z3.Implies(z3.Not(inside.z), whole[i, j].z == B(i.z, j.z))))


T_ = "caput/util/mpitools.py:"
PROOFS = [
    Proof("log-filter", p_filter, [T_ + "MPILogFilter.__init__", T_ + "MPILogFilter.filter"]),
    Proof("collectives", p_collect, [T_ + "bcast", T_ + "allreduce", T_ + "barrier"]),
    Proof("map", p_map, [T_ + "parallel_map", T_ + "partition_list_mpi", "caput/util/arraytools.py:partition_list"],
          bound="up to 4 ranks and 7 items, every method and root; function and items uninterpreted"),
    Proof("gather", p_gather, [T_ + "gather_local"], bound="up to 3 ranks, two-dimensional; any shape, offset, axis and root"),
    Proof("transpose", p_transpose, [T_ + "transpose_blocks", T_ + "split_local", T_ + "split_all"],
          bound="up to 3 ranks; any number of rows and columns, two-dimensional"),
]


# ---------------------------------------------------------------- falsifiers
def _sub(comm, c):
    """None (serial call), the world, or a sub-communicator of the ranks with the same colour."""
    k = c["comm"]
    if k == "none":
        return None
    if k == "world":
        return comm
    return comm.Split(comm.rank % 2, comm.rank)


def gen_map(rng, i):
    return {"n": rng.choice([0, 1, 2, 3, 4, 5, 7, 11, 20]), "method": rng.choice(["con", "alt", "rand"]), "root": rng.choice([None, None, 0, 1, 2, 4]),
            "comm": rng.choice(["world", "world", "none", "sub"]), "kind": rng.choice(["list", "tuple", "range", "same"])}


def check_map(c):
    from caput.util import mpitools
    from contracts.mpi_plain import comm_world

    world = comm_world()
    comm = _sub(world, c)
    n = c["n"]
    items = {"list": [3 * k - 4 for k in range(n)], "tuple": tuple(f"s{k % 3}" for k in range(n)), "range": range(n), "same": [7] * n}[c["kind"]]
    calls = []

    def f(x):
        calls.append(x)
        return (x, len(calls), "r")

    size = 1 if comm is None else comm.size
    rank = 0 if comm is None else comm.rank
    root = None if c["root"] is None else c["root"] % size
    r = mpitools.parallel_map(f, items, root=root, method=c["method"], comm=comm)
    allcalls = [calls] if comm is None else comm.allgather(calls)
    flat = sorted(x for s in allcalls for x in s)
    if flat != sorted(items):
        return f"the items computed over all ranks are {flat}"
    # mpirange / partition_list_mpi
    part = mpitools.mpirange(2, 2 + 3 * n, 3, method=c["method"], comm=comm) if comm is not None else None
    if comm is not None:
        parts = comm.allgather(list(part))
        allp = [x for p in parts for x in p]
        if sorted(allp) != list(range(2, 2 + 3 * n, 3)):
            return f"mpirange({c['method']}) parts {parts}"
        if max(map(len, parts)) - min(map(len, parts)) > 1:
            return f"mpirange parts are unbalanced: {parts}"
        if c["method"] == "con" and allp != sorted(allp):
            return f"contiguous parts out of order {parts}"
    if root is not None and rank != root and size > 1:
        return None if r is None else "another rank than the root got a result"
    if not isinstance(r, list):
        return f"returned {type(r)}"
    if [x[0] for x in r] != list(items):
        return f"results {r} for items {list(items)}"
    return None


def gen_coll(rng, i):
    return {"root": rng.randrange(5), "op": rng.choice([None, "MAX", "MIN", "PROD", "LOR", "SUM"]), "comm": rng.choice(["world", "none", "sub"]),
            "val": rng.choice(["int", "float", "str", "array", "dict"]), "s": rng.randrange(100)}


def check_coll(c):
    import numpy as np
    from caput.util import mpitools
    from contracts.mpi_plain import comm_world

    world = comm_world()
    comm = _sub(world, c)
    size = 1 if comm is None else comm.size
    rank = 0 if comm is None else comm.rank
    root = c["root"] % size

    def val(r):
        k = (c["s"] * 7 + r * 13) % 23 - 5
        return {"int": k, "float": k + 0.5, "str": f"v{k}", "array": np.arange(4) * k, "dict": {"k": [k, (k,)]}}[c["val"]]

    def eq(a, b):
        return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)

    got = mpitools.bcast(val(rank), root=root, comm=comm)
    if not eq(got, val(root)):
        return f"bcast from {root} gave {got!r}, not {val(root)!r}"
    if c["val"] in ("int", "float"):
        kw = {} if c["op"] is None else {"op": getattr(mpitools, c["op"])}
        got = mpitools.allreduce(val(rank), comm=comm, **kw)
        vs = [val(r) for r in range(size)]
        import functools

        f = {None: sum, "SUM": sum, "MAX": max, "MIN": min, "PROD": lambda v: functools.reduce(lambda a, b: a * b, v), "LOR": lambda v: bool(any(v))}[c["op"]]
        want = vs[0] if size == 1 else f(vs)
        if c["op"] == "LOR" and size > 1:
            got = bool(got)
        if abs(got - want) > 1e-9 * abs(want):
            return f"allreduce({c['op']}) of {vs} gave {got!r}"
    mpitools.barrier(comm=comm)
    # attributes of MPI are those of mpi4py
    from mpi4py import MPI

    if mpitools.SUM is not MPI.SUM or mpitools.COMM_WORLD is not MPI.COMM_WORLD or mpitools.size != world.size or mpitools.rank != world.rank:
        return "the exposed MPI attributes are not those of MPI"
    try:
        mpitools.no_such_attribute_here
        return "an unknown attribute was found"
    except AttributeError:
        pass
    s = mpitools.split_local(c["s"], comm=comm)
    a = mpitools.split_all(c["s"], comm=comm)
    if comm is not None and (list(s) != list(a[:, rank]) or a.shape != (3, size) or int(a[0].sum()) != c["s"]):
        return f"split_local {s} is not this rank's column of {a}"
    return None


CHARS = ["f8", "f4", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "c8", "c16", "?"]


def gen_blocks(rng, i):
    mode = rng.choice(["gather", "transpose", "transpose", "types"])
    nd = rng.choice([1, 2, 3, 4]) if mode == "gather" else rng.choice([2, 2, 3, 4])
    return {"mode": mode, "shape": [rng.choice([1, 2, 3, 4, 5, 8]) for _ in range(nd)], "axis": rng.randrange(nd), "root": rng.randrange(5), "dtype": rng.choice(CHARS[:-1]),
            "trim": rng.choice([0, 0, 1, 3]), "seq": rng.choice(["tuple", "list"]), "comm": rng.choice(["world", "world", "none", "sub"]), "pad": rng.choice([0, 0, 2]),
            "order": rng.choice(["C", "F"])}


def check_blocks(c):
    import numpy as np
    from caput.util import mpitools
    from contracts.mpi_plain import bounds, comm_world, garray, same

    world = comm_world()
    comm = _sub(world, c)
    size = 1 if comm is None else comm.size
    rank = 0 if comm is None else comm.rank
    if c["mode"] == "types":
        from mpi4py import MPI

        for ch in CHARS:
            t = mpitools.typemap(ch)
            if t.Get_size() != np.dtype(ch).itemsize:
                return f"the MPI type of {ch} has {t.Get_size()} bytes"
        if comm is not None and size > 1:
            a = garray([6], c["dtype"], start=rank)
            b = np.zeros_like(a)
            q = comm.Irecv([b, mpitools.typemap(a.dtype)], source=(rank - 1) % size, tag=3)
            comm.Send([a, mpitools.typemap(np.dtype(c["dtype"]))], dest=(rank + 1) % size, tag=3)
            q.Wait()
            return same(b, garray([6], c["dtype"], start=(rank - 1) % size), "ring transfer")
        return None
    G = garray(c["shape"], c["dtype"])
    if c["mode"] == "gather":
        ax, pad = c["axis"], c["pad"]
        b = bounds(G.shape[ax], size)
        sl = [slice(None)] * G.ndim
        sl[ax] = slice(b[rank], b[rank + 1])
        loc = np.array(G[tuple(sl)], order=c["order"])
        keep = loc.copy()
        root = c["root"] % size
        big = np.full([n + 2 * pad for n in G.shape], 99).astype(G.dtype)
        start = [pad] * G.ndim
        start[ax] += b[rank]
        mpitools.gather_local(big if rank == root else None, loc, tuple(start), root=root, comm=comm)
        if not np.array_equal(loc, keep):
            return "gather_local changed its input"
        if rank == root:
            want = np.full(big.shape, 99).astype(G.dtype)
            want[tuple(slice(pad, pad + n) for n in G.shape)] = G
            return same(big, want, "gather_local")
        return None
    wide = garray([*c["shape"][:-1], c["shape"][-1] + c["trim"]], c["dtype"])
    b = bounds(wide.shape[0], size)
    loc = np.array(wide[b[rank]:b[rank + 1]], order=c["order"])
    keep = loc.copy()
    shape = tuple(c["shape"]) if c["seq"] == "tuple" else list(c["shape"])
    r = mpitools.transpose_blocks(loc, shape, comm=comm)
    if not np.array_equal(loc, keep) or np.shares_memory(r, loc):
        return "transpose_blocks changed or shares its input"
    bc = bounds(c["shape"][-1], size)
    return same(r, wide[..., bc[rank]:bc[rank + 1]], "transpose_blocks")


def gen_active(rng, i):
    n = rng.randrange(0, 4)
    return {"who": [0] + sorted(rng.sample([1, 2, 3, 4], n)), "rev": rng.random() < 0.3}


def check_active(c):
    """active_comm / active / close: exactly the listed ranks, in the listed order; the others wait until closed."""
    from mpi4py import MPI
    from caput.util import mpitools
    from contracts.mpi_plain import comm_world

    world = comm_world()
    who = [r for r in c["who"] if r < world.size]
    if c["rev"]:
        who = who[::-1]
    ac = mpitools.active_comm(who)
    if world.rank in who:
        if ac == MPI.COMM_NULL:
            return "a listed rank is not in the communicator"
        m = None
        if ac.size != len(who) or ac.rank != who.index(world.rank):
            m = f"rank {world.rank} has rank {ac.rank} of {ac.size}"
        elif ac.allgather(world.rank) != who:
            m = "the communicator has other members"
        ac.Free()
        if m:
            return m
    elif ac != MPI.COMM_NULL:
        return "an unlisted rank is in the communicator"
    # waiting: the others stay in active() until rank 0 closes
    import time

    t0 = time.time()
    ac = mpitools.active(who)
    waited = time.time() - t0
    if world.rank in who:
        if ac == MPI.COMM_NULL or ac.size != len(who):
            return "active() returned no communicator of the active ranks"
        time.sleep(0.05)
        ac.Barrier()
        mpitools.close(who)
        ac.Free()
    else:
        if waited < 0.03:
            return "a waiting rank did not wait until it was closed"
        if ac != MPI.COMM_NULL:
            return "a waiting rank belongs to the active communicator"
    return None


def gen_h5(rng, i):
    nd = rng.choice([1, 2, 2, 3])
    return {"shape": [rng.choice([1, 2, 3, 5, 9]) for _ in range(nd)], "dtype": rng.choice(["f8", "f4", "i8", "i2", "c16", "u1"]), "order": rng.choice(["C", "F"]),
            "second": rng.random() < 0.5, "comm": rng.choice(["world", "world", "none"])}


def check_h5(c):
    import os
    import shutil
    import tempfile

    import h5py
    import numpy as np
    from caput.util import mpitools
    from contracts.mpi_plain import bounds, comm_world, garray, same

    world = comm_world()
    # without a communicator the division over all the ranks is meant: the serial case only
    comm = world if c["comm"] == "world" or world.size > 1 else None
    d = tempfile.mkdtemp(prefix="pv23") if (comm is None or comm.rank == 0) else None
    if comm is not None:
        d = comm.bcast(d, root=0)
    size = 1 if comm is None else comm.size
    rank = 0 if comm is None else comm.rank
    fn = os.path.join(d, "x.h5")
    try:
        names = ["a", "b"] if c["second"] else ["a"]
        Gs = {}
        for k, nm in enumerate(names):
            G = garray(c["shape"], c["dtype"], start=1 + k)
            Gs[nm] = G
            b = bounds(G.shape[0], size)
            loc = np.array(G[b[rank]:b[rank + 1]], order=c["order"])
            mpitools.parallel_rows_write_hdf5(fn, nm, loc, tuple(c["shape"]), comm=comm)
            if comm is not None:
                comm.Barrier()
        m = None
        if rank == 0:
            with h5py.File(fn, "r") as f:
                for nm, G in Gs.items():
                    m = m or same(f[nm][...], G, f"dataset {nm}")
        if comm is not None:
            comm.Barrier()
        # a plain buffer at an offset: exactly that region is written
        p = os.path.join(d, f"raw{rank}")
        with open(p, "wb") as f:
            f.write(bytes(range(200)))
        a = np.arange(8, dtype=c["dtype"])
        mpitools.lock_and_write_buffer(a, p, 17, a.nbytes)
        want = bytearray(range(200))
        want[17:17 + a.nbytes] = a.tobytes()
        if open(p, "rb").read() != bytes(want):
            m = m or "lock_and_write_buffer wrote something else than the given region"
        try:
            mpitools.lock_and_write_buffer(a, p, 17, a.nbytes - 1)
            m = m or "a buffer larger than its region was accepted"
        except Exception:
            pass
        if open(p, "rb").read() != bytes(want):
            m = m or "a refused buffer changed the file"
        return m
    finally:
        if comm is not None:
            comm.Barrier()
        if rank == 0:
            shutil.rmtree(d, ignore_errors=True)


def gen_mem(rng, i):
    return {"avail": rng.choice([0, 10, 1000, 1001, 4096]), "want": rng.choice([0, 5, 9, 10, 250, 333, 500, 1000, 1001, 5000]), "scope": rng.choice(["shared", "process", "global"]),
            "cpus": rng.choice([None, 1, 2, 3, 8, 64]), "comm": rng.choice(["world", "world", "none", "sub"])}


def check_mem(c):
    """The resources of a node are divided over its processes."""
    import os

    from caput.util import mpitools
    from contracts.mpi_plain import comm_world

    world = comm_world()
    comm = _sub(world, c)
    size = 1 if comm is None else comm.size
    mod = mpitools.self_module.__dict__ if "self_module" in mpitools.__dict__ else mpitools.__dict__
    if "available_memory_shared" not in mod:
        return None
    keep, keepc = mod["available_memory_shared"], os.cpu_count
    mod["available_memory_shared"] = lambda: c["avail"]
    os.cpu_count = lambda: c["cpus"]
    try:
        got = mpitools.can_allocate(c["want"], scope=c["scope"], comm=comm)
        cpus = mpitools.cpu_count(comm=comm)
    finally:
        mod["available_memory_shared"] = keep
        os.cpu_count = keepc
    # all the ranks of the test share one node
    if c["scope"] == "shared" or comm is None:
        want = c["want"] < c["avail"]
    elif c["scope"] == "process":
        want = c["want"] * size < c["avail"]
    else:
        want = c["want"] < size * (c["avail"] // size)
    if bool(got) != want:
        return f"can_allocate said {bool(got)} for {c['want']} bytes ({c['scope']}) with {c['avail']} available on {size} ranks"
    if c["cpus"] is None:
        return None if cpus is None else f"cpu_count invented {cpus}"
    if cpus != max(1, c["cpus"] // size):
        return f"{cpus} CPUs for each of {size} processes on a node of {c['cpus']}"
    return None


def gen_log(rng, i):
    return {"l0": rng.choice([0, 10, 20, 30, 40]), "la": rng.choice([0, 10, 20, 30, 40]), "lv": rng.choice([5, 10, 20, 25, 30, 40, 50]), "add": rng.random() < 0.5,
            "rec": rng.choice([None, None, 0, 1, 7]), "size": rng.choice([1, 3]), "rank": rng.randrange(3)}


def check_log(c):
    import logging

    from caput.util import mpitools

    class Comm:
        rank, size = c["rank"] % c["size"], c["size"]

    f = mpitools.MPILogFilter(add_mpi_info=c["add"], level_rank0=c["l0"], level_all=c["la"], comm=Comm())
    r = logging.LogRecord("x", c["lv"], "p", 1, "m", (), None)
    if c["rec"] is not None:
        r.mpi_rank, r.mpi_size = c["rec"], 9
    got = f.filter(r)
    src = c["rec"] if c["rec"] is not None else Comm.rank
    if bool(got) != (c["lv"] >= (c["l0"] if src == 0 else c["la"])):
        return f"record of level {c['lv']} of rank {src}: {got}"
    if c["rec"] is not None and (r.mpi_rank, r.mpi_size) != (c["rec"], 9):
        return "the rank of the record was replaced"
    if c["rec"] is None and c["add"] and (r.mpi_rank, r.mpi_size) != (Comm.rank, Comm.size):
        return "the rank was not added"
    if c["rec"] is None and not c["add"] and hasattr(r, "mpi_rank"):
        return "the rank was added though not asked for"
    if abs(r.elapsedTime * 1000 - r.relativeCreated) > 1e-6 * abs(r.relativeCreated):
        return "the elapsed time is not the age of the record in seconds"
    return None


def gen_hook(rng, i):
    return {"fail": rng.randrange(3)}


HOOK = """
import sys
sys.path[:0] = %r
from caput.util import mpitools
import time
time_sleep = time.sleep
time.sleep = lambda s: time_sleep(min(s, 0.2))
mpitools.enable_mpi_exception_handler()
from mpi4py import MPI
if MPI.COMM_WORLD.rank == %d:
    raise RuntimeError('the failing rank')
MPI.COMM_WORLD.recv(source=%d)   # never sent: without the abort this waits forever
"""


def check_hook(c):
    """An uncaught exception on any rank ends the whole job."""
    import os
    import shutil
    import subprocess
    import sys

    exe = shutil.which("mpirun") or shutil.which("mpiexec")
    if exe is None:
        return None
    code = HOOK % (list(sys.path[:3]), c["fail"], c["fail"])
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PMI_", "PRTE_"))}
    p = subprocess.Popen([exe, "--allow-run-as-root", "--oversubscribe", "-n", "3", sys.executable, "-c", code], env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=30)
    except subprocess.TimeoutExpired:
        import signal

        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "the job went on after one rank failed"
    if p.returncode == 0:
        return "the job succeeded though one rank failed"
    if "the failing rank" not in out:
        if "RuntimeError" not in out and "rank" not in out:
            return None
        return "the error of the failing rank was not shown: " + out[-400:]
    return None


FALSIFIERS = [
    Falsifier("map", gen_map, check_map, n=120, thorough=2000, ranks=(1, 2, 3, 4),
              fixed=[{"n": 9, "method": "rand", "root": None, "comm": "world", "kind": "list"}, {"n": 9, "method": "alt", "root": 1, "comm": "world", "kind": "list"}]),
    Falsifier("collectives", gen_coll, check_coll, n=80, thorough=1000, ranks=(1, 2, 3)),
    Falsifier("blocks", gen_blocks, check_blocks, n=150, thorough=2500, ranks=(1, 2, 3, 5)),
    Falsifier("active", gen_active, check_active, n=8, thorough=60, ranks=(1, 2, 3, 5)),
    Falsifier("rows-to-file", gen_h5, check_h5, n=30, thorough=300, ranks=(1, 2, 3)),
    Falsifier("resources", gen_mem, check_mem, n=80, thorough=500, ranks=(1, 2, 4)),
    Falsifier("log", gen_log, check_log, n=300, thorough=2000),
    Falsifier("abort", gen_hook, check_hook, n=0, thorough=3, fixed=[{"fail": 1}]),
]

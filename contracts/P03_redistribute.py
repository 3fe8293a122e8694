"""Redistribution and gathering preserve the global array."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "array rank 1 to 3 (each pair of axes proved separately); extents, communicator size, rank and root unbounded",
    "element types which MPI does not know are sent as bytes (evaluated at run time only)",
]
MA = "caput.mpiarray:MPIArray."


# ---------------------------------------------------------------- proofs
def _havoc(e, a, name):
    """Arbitrary contents, as left by earlier iterations."""
    nd = len(a._map)
    e.fresh_n += 1
    f = z3.Function(f"{name}!{e.fresh_n}", *([z3.IntSort()] * nd), U)
    a._store.fn = lambda idx: SVal(f(*[zi(i) for i in idx]))


def _plain(e):
    from contracts import mpi_model as M

    M.install()
    P = Int("P", lo=1)
    r = Int("rank", lo=0)
    e.assume(r < P)
    nd = 1 + e.choose(3, "ndim")
    axis = e.choose(nd, "axis")
    shape = M.shape_inputs(e, nd)
    e.inputs["axis"], e.inputs["ndim"] = axis, nd
    e.assumed |= {M.A_SPLIT, M.A_NP}
    return M, P, r, nd, axis, shape


def _content(e, M, r, gshape, axis, part, comm, want, name):
    x = M.local_index(e, r.shape)
    gi = [x[d] + part.start(comm.rank) if d == axis else x[d] for d in range(len(gshape))]
    if axis is not None:
        e.ghost.get("touch", lambda g: None)(gi)
    e.prove(name, SBool(r.local_array[x].z == want(gi).z))


class _G:
    cur = None


def inv_redist(L):
    from contracts import mpi_model as M

    e = eng()
    if L["__phase"] == "entry":
        return []
    if L["__phase"] == "assume":
        return M.same_iteration(L)
    if e.ghost.get("same-iteration") is not None:
        return []
    g = _G.cur
    t = L["target_arr"]
    x = M.local_index(e, t.shape)
    gi = [x[d] + g.new.start(g.rank) if d == g.to else x[d] for d in range(len(x))]
    o = g.old.owner(gi[g.axis])
    return [("received-so-far", Implies(g.dist(o) < L["__k"], SBool(t[x].z == g.G.at(*gi).z)))]


def heap_redist(L):
    e = eng()
    g = _G.cur
    for n in ("send_buffer", "recv_buffer"):
        _havoc(e, L[n], n)
    from pv.rt import UNBOUND

    L["sendsl"][g.to] = L["targetsl"][g.axis] = L["recvsl"][g.axis] = UNBOUND
    if e.ghost.get("same-iteration") is None:
        g.target = L["target_arr"]


def hv_redist(name, old, L):
    return NotImplemented


def p_redist(e):
    """Any number of ranks: after k steps, the data of the k ranks before this one (cyclically) are in place."""
    if e.mode == "unroll":
        return p_redist_few(e)
    M, P, r, nd, axis, shape = _plain(e)
    if nd == 1:
        raise PathEnd
    to = e.choose(nd, "to")
    if to == axis:
        raise PathEnd
    g = _G.cur = type("Ghost", (), {})()
    g.axis, g.to, g.rank = axis, to, r

    def run(comm):
        arr, G, part = M.make_mpiarray(e, shape, axis, comm)
        return arr.redistribute(to - nd if neg else to), arr, G

    neg = nd == 2 and e.choose(2, "negative") == 1
    g.G = M.GlobalArray(shape, "G")
    g.old, g.new = M.partition(shape[axis], P), M.partition(shape[to], P)
    g.dist = lambda o: Ite(r >= o, r - o, r - o + P)
    comm = M.SpmdComm(r, P, peer=run)
    # the invariant is what is known of the target: elements of ranks already heard from
    lc = e.loop_contracts.get(MA + "redistribute#1")

    def heap(L):
        heap_redist(L)
        if e.ghost.get("same-iteration") is not None:
            return
        t = L["target_arr"]
        f = z3.Function("junk_target", *([z3.IntSort()] * nd), U)
        K = e.fresh("done")
        g.K = K

        def fn(idx):
            gi = [idx[d] + g.new.start(r) if d == to else idx[d] for d in range(nd)]
            o = g.old.owner(gi[axis])
            return SVal(z3.If((g.dist(o) < SInt(K)).z, g.G.at(*gi).z, f(*[zi(i) for i in idx])))

        t._store.fn = fn

    def inv(L):
        out = inv_redist(L)
        if L["__phase"] == "assume" and e.ghost.get("same-iteration") is None:
            out.append(("done", SBool(zi(L["__k"]) == g.K)))
        return out

    if lc is not None:
        e.loop_contracts[MA + "redistribute#1"] = LoopContract(inv, None, heap)
    e.cover("pre")
    res, arr, G = run(comm)
    e.cover("path-end")
    M.meta_ok(e, res, to, shape, g.new, comm, "redistribute:")
    x = M.local_index(e, res.shape)
    gi = [x[d] + g.new.start(r) if d == to else x[d] for d in range(nd)]
    g.old.owner(gi[axis])
    e.prove("redistribute:value", SBool(res.local_array[x].z == G.at(*gi).z))
    y = M.local_index(e, arr.shape)
    gy = [y[d] + g.old.start(r) if d == axis else y[d] for d in range(nd)]
    e.prove("redistribute:source-unchanged", SBool(arr.local_array[y].z == G.at(*gy).z))


def p_same(e):
    """The same axis: the array itself."""
    M, P, r, nd, axis, shape = _plain(e)
    comm = M.SymComm(r, P)
    arr, G, part = M.make_mpiarray(e, shape, axis, comm)
    e.cover("pre")
    res = arr.redistribute(axis - nd if e.choose(2, "negative") else axis)
    e.prove("redistribute:same-axis-is-the-same-array", SBool(z3.BoolVal(res is arr)))


def _spread(e, nd, gather):
    """gather/allgather: after k steps, the data of the first k ranks are in place."""

    def inv(L):
        from contracts import mpi_model as M

        if L["__phase"] == "entry":
            return []
        g = _G.cur
        if L["__phase"] == "assume":
            out = M.same_iteration(L)
            if e.ghost.get("same-iteration") is None and g.holds:
                out.append(("done", SBool(zi(L["__k"]) == g.K)))
            return out
        if e.ghost.get("same-iteration") is not None or not g.holds:
            return []
        a = L["arr"]
        x = M.local_index(e, a.shape)
        return [("received-so-far", Implies(SBool(zi(x[g.axis]) < g.old._raw(zi(L["__k"]))), SBool(a[x].z == g.G.at(*x).z)))]

    def heap(L):
        g = _G.cur
        if e.ghost.get("same-iteration") is not None or not g.holds:
            return
        a = L["arr"]
        K = g.K = e.fresh("done")
        f = z3.Function("junk_target", *([z3.IntSort()] * nd), U)

        def fn(idx):
            return SVal(z3.If(zi(idx[g.axis]) < g.old._raw(K), g.G.at(*idx).z, f(*[zi(i) for i in idx])))

        a._store.fn = fn

    return LoopContract(inv, None, heap)


def p_gather(e):
    """Any number of ranks and any root."""
    if e.mode == "unroll":
        return p_gather_few(e)
    M, P, r, nd, axis, shape = _plain(e)
    every = e.choose(2, "all") == 1
    root = Int("root", lo=0)
    e.assume(root < P)
    g = _G.cur = type("Ghost", (), {})()
    g.axis, g.rank = axis, r
    g.G = M.GlobalArray(shape, "G")
    g.old = M.partition(shape[axis], P)
    g.holds = every or bool(r == root)

    def run(comm):
        arr, G, part = M.make_mpiarray(e, shape, axis, comm)
        return arr.allgather() if every else arr.gather(rank=root)

    comm = M.SpmdComm(r, P, peer=run)
    for n in ("gather#1", "allgather#1"):
        if MA + n in e.loop_contracts:
            e.loop_contracts[MA + n] = _spread(e, nd, not every)
    e.cover("pre")
    res = run(comm)
    e.cover("path-end")
    if not g.holds:
        e.prove("gather:nothing-on-the-other-ranks", SBool(z3.BoolVal(res is None)))
        return
    e.prove("gather:a-plain-array", SBool(z3.BoolVal(res is not None and type(res) is SArr)))
    e.prove("gather:shape", And(*[SInt(zi(a)) == b for a, b in zip(res.shape, shape)]))
    x = M.local_index(e, shape)
    e.prove("gather:value", SBool(res[x].z == g.G.at(*x).z))


class _Few:
    """Two or three ranks: each is run once to record what it sends, then again with what it receives."""

    def __init__(self, e, m):
        self.e, self.m, self.sent, self.used = e, m, {}, []
        self.sent_at, self.waits = {}, []  # blocking call in which a message leaves; what each blocking call waits for

    def comm(self, M, rank, first):
        few = self
        calls = [0]

        class Comm(M.SymComm):
            def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=None, recvtag=0, status=None):
                self.Isend(sendbuf, dest, sendtag)
                self.Irecv(recvbuf, source, recvtag).Wait()
                calls[0] += 1

            def Isend(self, buf, dest, tag=0):
                if first:
                    few.sent.setdefault((rank, int(dest), int(tag)), []).append(buf[0].copy())
                    few.sent_at.setdefault((rank, int(dest), int(tag)), []).append(calls[0])
                return M._Req()

            def Irecv(self, buf, source, tag=0):
                return M._Req(lambda: few.deliver(buf[0], (int(source), rank, int(tag)), first, calls[0]))

            def Bcast(self, buf, root=0):
                if first:
                    if rank == int(root):
                        few.sent.setdefault(("b", int(root)), []).append(buf[0].copy())
                elif rank != int(root):
                    few.deliver(buf[0], ("b", int(root)), False)

        return Comm(rank, self.m)

    def deliver(self, b, key, first, at=0):
        if first:
            return
        q = self.sent.get(key)
        k = self.used.count(key)
        if key[0] == "b":
            k = 0
        if not q or k >= len(q):
            self.e.prove("message:every-receive-has-a-matching-send", SBool(z3.BoolVal(False)))
            raise PathEnd
        self.e.prove("message:buffer-sizes-match", SBool(z3.And(*[zi(x) == zi(y) for x, y in zip(b.shape, q[k].shape)])))
        self.used.append(key)
        if key[0] != "b":
            self.waits.append(((key[1], at), (key[0], self.sent_at[key][k])))
        b[...] = q[k]

    def progress(self):
        """Every blocking call is reached: repeatedly complete those whose message has left."""
        need = {}
        for (r, k), (s, j) in self.waits:
            need.setdefault((r, k), []).append((s, j))
        done = [0] * self.m  # blocking calls completed
        top = [max([k + 1 for (r2, k) in need if r2 == r], default=0) for r in range(self.m)]
        moved = True
        while moved:
            moved = False
            for r in range(self.m):
                while done[r] < top[r] and all(done[s] >= j for s, j in need.get((r, done[r]), [])):
                    done[r] += 1
                    moved = True
        self.e.prove("message:no-deadlock", SBool(z3.BoolVal(done == top)))

    def run(self, M, fn):
        if self.m > 1:
            for r in range(self.m):
                fn(self.comm(M, r, True))
        out = []
        for r in range(self.m):
            out.append(fn(self.comm(M, r, self.m == 1)))
        self.progress()
        return out


def p_redist_few(e):
    from contracts import mpi_model as M

    M.install()
    m = 1 + e.choose(3, "ranks")
    nd = 2 + e.choose(2, "ndim")
    axis, to = e.choose(nd, "axis"), e.choose(nd, "to")
    if axis == to:
        raise PathEnd
    shape = M.shape_inputs(e, nd)
    srcs = {}

    def fn(comm):
        arr, G, part = M.make_mpiarray(e, shape, axis, comm)
        srcs["G"] = G
        r = arr.redistribute(to)
        M.meta_ok(e, r, to, shape, M.partition(shape[to], m), comm, "redistribute:")
        return r

    few = _Few(e, m)
    outs = few.run(M, fn)
    who = e.choose(m, "rank")
    new = M.partition(shape[to], m)
    x = M.local_index(e, outs[who].shape)
    gi = [x[d] + new.start(who) if d == to else x[d] for d in range(nd)]
    old = M.partition(shape[axis], m)
    for k in range(m):
        old.touch(k)
    e.prove("redistribute:value", SBool(outs[who].local_array[x].z == srcs["G"].at(*gi).z))


def p_gather_few(e):
    from contracts import mpi_model as M

    M.install()
    m = 1 + e.choose(3, "ranks")
    nd = 1 + e.choose(2, "ndim")
    axis = e.choose(nd, "axis")
    every = e.choose(2, "all") == 1
    root = 0 if every else e.choose(m, "root")
    shape = M.shape_inputs(e, nd)
    Gs = {}

    def fn(comm):
        arr, Gs["G"], part = M.make_mpiarray(e, shape, axis, comm)
        return arr.allgather() if every else arr.gather(rank=root)

    outs = _Few(e, m).run(M, fn)
    old = M.partition(shape[axis], m)
    for k in range(m):
        old.touch(k)
    x = M.local_index(e, shape)
    for r, out in enumerate(outs):
        if every or r == root:
            e.prove("gather:value", SBool(out[x].z == Gs["G"].at(*x).z))
        else:
            e.prove("gather:nothing-on-the-other-ranks", SBool(z3.BoolVal(out is None)))


def to_redist(name, model):
    nd = model.get("ndim")
    if not isinstance(nd, int):
        return []
    shape = [min(int(model.get(f"n{i}", 3)), 9) for i in range(nd)]
    return [("redist", {"shape": s, "axis": model["axis"], "to": list(range(nd)) + [0, nd - 1], "dtype": "f8", "root": 1, "pre": None})
            for s in (shape, [5, 7, 3][:nd], [2, 3, 4][:nd])]


_F = "caput/mpiarray.py:MPIArray."
PROOFS = [
    Proof("redistribute", p_redist, [_F + "redistribute", _F + "_prep_buf", "caput/util/mpitools.py:split_all"],
          loops={MA + "redistribute#1": LoopContract(inv_redist)}, to_cases=to_redist, budget=400),
    Proof("redistribute-same", p_same, [_F + "redistribute"]),
    Proof("gathers", p_gather, [_F + "gather", _F + "allgather", _F + "_prep_buf"],
          loops={MA + "gather#1": LoopContract(inv_redist), MA + "allgather#1": LoopContract(inv_redist)}, to_cases=to_redist, budget=400),
]


# ---------------------------------------------------------------- falsifiers


def gen(rng, i):
    from contracts.mpi_plain import DTYPES

    nd = rng.choice([1, 2, 2, 3, 3, 4])
    shape = [rng.choice([0, 1, 2, 3, 4, 5, 7, 9]) if rng.random() < 0.9 else rng.randrange(0, 14) for _ in range(nd)]
    c = {"shape": shape, "axis": rng.randrange(nd), "to": [rng.randrange(-nd, nd) for _ in range(rng.choice([1, 1, 2, 3]))],
         "dtype": rng.choice([*DTYPES, "struct"]), "root": rng.randrange(0, 5),
         "pre": None}
    if rng.random() < 0.35:
        p = list(range(nd))
        rng.shuffle(p)
        c["pre"] = p
    return c


def check(c):
    import numpy as np

    from contracts.mpi_plain import comm_world, dist, garray, meta, same

    comm = comm_world()
    G = garray(c["shape"], c["dtype"])
    axis = c["axis"]
    a = dist(G, axis, comm)
    if c["pre"]:
        a = a.transpose(tuple(c["pre"]))
        G = G.transpose(tuple(c["pre"]))
        axis = c["pre"].index(axis)
    m = gathers(a, G, c, comm, "before")
    if m:
        return m
    cur = a
    for t in c["to"]:
        nxt = cur.redistribute(axis=t)
        m = meta(nxt, G, t % G.ndim, comm, f"redistribute(axis={t})")
        if m:
            return m
        # the source is left as it was
        cur = nxt
    m = meta(a, G, axis, comm, "source after redistribute")
    if m:
        return m
    return gathers(cur, G, c, comm, "after")


def gathers(a, G, c, comm, when):
    from contracts.mpi_plain import same

    root = c["root"] % comm.size
    g = a.gather(rank=root)
    if comm.rank == root:
        if g is None:
            return "gather returned None on the root"
        m = same(g, G, f"gather {when}")
        if m:
            return m
    elif g is not None:
        return "gather returned data on another rank"
    g = a.allgather()
    return same(g, G, f"allgather {when}")


FIXED = [
    {"shape": [5, 7], "axis": 0, "to": [1, 0], "dtype": "f8", "root": 1, "pre": None},
    {"shape": [5, 7], "axis": 0, "to": [-1], "dtype": "f8", "root": 1, "pre": None},
    {"shape": [2, 9, 4], "axis": 1, "to": [2, 0, 1], "dtype": "c16", "root": 0, "pre": [2, 0, 1]},
    {"shape": [3, 1], "axis": 1, "to": [0], "dtype": "struct", "root": 2, "pre": None},
    {"shape": [120, 130], "axis": 0, "to": [1], "dtype": "f8", "root": 0, "pre": None},
]


# -- gathering of plain local arrays --------------------------------------------
def gen_gl(rng, i):
    nd = rng.choice([1, 2, 3])
    shape = [rng.choice([1, 2, 3, 5, 8]) for _ in range(nd)]
    return {"shape": shape, "axis": rng.randrange(nd), "root": rng.randrange(0, 5), "mode": rng.choice(["gather", "transpose"]),
            "dtype": rng.choice(["f8", "c16", "i4"])}


def check_gl(c):
    """mpitools.gather_local / transpose_blocks on raw blocks."""
    import numpy as np

    from caput.util import mpitools
    from contracts.mpi_plain import bounds, comm_world, garray, same, share

    comm = comm_world()
    G = garray(c["shape"], c["dtype"])
    ax = c["axis"]
    loc = np.ascontiguousarray(share(G, ax, comm))
    if c["mode"] == "gather":
        root = c["root"] % comm.size
        out = np.zeros_like(G) if comm.rank == root else np.zeros_like(G)
        start = [0] * G.ndim
        start[ax] = bounds(G.shape[ax], comm.size)[comm.rank]
        mpitools.gather_local(out, loc, tuple(start), root=root, comm=comm)
        if comm.rank == root:
            return same(out, G, "gather_local")
        return None
    if G.ndim < 2:
        return None
    r = mpitools.transpose_blocks(np.ascontiguousarray(share(G, 0, comm)), G.shape, comm=comm)
    return same(r, share(G, G.ndim - 1, comm), "transpose_blocks")


# -- datasets of a tree -----------------------------------------------------------
def gen_conv(rng, i):
    from contracts.mpi_plain import DTYPES

    nd = rng.choice([1, 2, 2, 3])
    shape = [rng.choice([1, 2, 3, 5, 7, 0]) for _ in range(nd)]
    steps = [rng.choice([["dist", rng.randrange(nd)], ["common"], ["redist", rng.randrange(nd)], ["common"]]) for _ in range(rng.randrange(1, 6))]
    return {"shape": shape, "dtype": rng.choice(DTYPES), "start": rng.choice([None, 0, nd - 1]), "steps": steps, "path": rng.choice(["d", "g/d", "/g/h/d"]),
            "through": rng.choice(["group", "disk"]), "sub": rng.random() < 0.3}


def check_conv(c):
    import warnings

    import numpy as np

    from caput.memdata import MemDiskGroup, MemGroup
    from contracts.mpi_plain import comm_world, dist, garray, meta, same

    comm = comm_world()
    G = garray(c["shape"], c["dtype"])
    root = MemGroup(distributed=True, comm=comm)
    H = garray([4], "f8")
    root.create_dataset("other", data=H.copy())
    if c["start"] is None:
        root.create_dataset(c["path"], data=G.copy())
    else:
        root.create_dataset(c["path"], data=dist(G, c["start"], comm), distributed=True, distributed_axis=c["start"])
    root[c["path"]].attrs["units"] = "K"
    axis = c["start"]
    g = MemDiskGroup(root) if c["through"] == "disk" else root
    name = c["path"]
    if c["sub"] and c["through"] == "group" and name.strip("/").startswith("g/"):
        g, name = root["g"], name.strip("/")[2:]
    warnings.simplefilter("ignore")
    for st in c["steps"]:
        if st[0] == "dist":
            d = g.dataset_common_to_distributed(name, distributed_axis=st[1])
            axis = st[1]
        elif st[0] == "common":
            d = g.dataset_distributed_to_common(name)
            axis = None
        else:
            d = root[c["path"]]
            if axis is None:
                continue
            d.redistribute(st[1])
            axis = st[1]
        for what, x in (("returned", d), ("stored", root[c["path"]])):
            if bool(x.distributed) != (axis is not None):
                return f"after {st}: the {what} dataset is {'distributed' if x.distributed else 'common'}"
            if axis is None:
                m = same(np.asarray(x[:]), G, f"{what} dataset after {st}")
            else:
                m = meta(x[:], G, axis, comm, f"{what} dataset after {st}")
                if not m and x.distributed_axis != axis:
                    m = f"axis {x.distributed_axis} instead of {axis}"
            if m:
                return m
            if dict(x.attrs) != {"units": "K"}:
                return f"attributes {dict(x.attrs)} after {st}"
    return same(np.asarray(root["other"][:]), H, "another dataset")


FALSIFIERS = [
    Falsifier("redist", gen, check, n=120, thorough=2500, ranks=(1, 2, 3, 4, 5), fixed=FIXED),
    Falsifier("convert", gen_conv, check_conv, n=120, thorough=1500, ranks=(1, 2, 3)),
    Falsifier("blocks", gen_gl, check_gl, n=60, thorough=1000, ranks=(1, 2, 3, 5)),
]

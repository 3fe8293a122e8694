"""Threaded random numbers depend only on the seed and fill every element."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "numpy's Generator methods fill the array or draw the number of variates they are asked for",
    "the quotient of the number of elements and threads is exact in double precision (fewer than 2**53 elements)",
    "a thread pool runs each submitted call exactly once, in any order, and wait() returns when all are done",
]
RULE = "random methods, parameters, shapes, element types, thread counts and thread delays; reference statistics of the distributions"

A_ = "caput/algorithms/random.py:"
R_ = "caput/pipeline/tasklib/random.py:"


# ---------------------------------------------------------------- proofs
def p_fill(e):
    """Any number of elements, 1 to 4 threads, any order of execution: every element is filled exactly once."""
    import numpy as np
    from caput.algorithms import random as R

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    kind = e.choose(3, "method")
    name, nparam, defdtype, has_dtype, has_out = [("random", 0, np.float64, True, True), ("normal", 2, np.float64, False, False), ("integers", 2, np.int64, True, False)][kind]
    t = 1 + e.choose(4, "threads")
    n = Int("n")
    e.assume(n >= 0)
    thr = Int("threshold")
    e.assume(thr >= 1)
    gens = [f"generator{i}" for i in range(t)]
    calls, direct = [], []

    class Fake:
        pass

    me = Fake()

    def draw(gen, *args, **kw):
        if gen is me:
            direct.append((args, dict(kw)))
            return "direct"
        k = gens.index(gen)
        if "out" in kw:
            o = kw.pop("out")
            calls.append((k, args, dict(kw), o.shape[0]))
            o[...] = SReal(z3.RealVal(k + 1))
            return o
        size = kw.pop("size")
        calls.append((k, args, dict(kw), size))
        return SArr._make(lambda idx: SReal(z3.RealVal(k + 1)), (size,), float)

    draw.__doc__ = "doc"
    draw.__name__ = name

    class Gen:
        pass

    setattr(Gen, name, staticmethod(draw))

    class Rnd:
        Generator = Gen

        def __getattr__(self, k):
            return getattr(np.random, k)

    keepnp, keepcf = R.np, R.concurrent

    class Shim:
        random = Rnd()

        def __getattr__(self, k):
            return getattr(keepnp, k)

        def empty(self, shape, dtype=float, **kw):
            made.append(np.dtype(dtype))
            shape = shape if isinstance(shape, tuple) else (shape,)
            return SArr._make(lambda idx: SReal(z3.RealVal(-1)), shape, np.dtype(dtype).type).copy()

    made = []

    class Future:
        def __init__(self, fn, a, k):
            self.job, self.ex, self.done = (fn, a, k), None, False

        def exception(self, timeout=None):
            if not self.done:
                raise Unsupported("a future was read before it was waited for")
            return self.ex

        def result(self, timeout=None):
            if not self.done:
                run([self])
            if self.ex is not None:
                raise self.ex
            return self.res

    pending = []

    def run(fs):
        for f in fs:
            if not f.done:
                fn, a, k = f.job
                f.done = True
                try:
                    f.res = fn(*a, **k)
                except (PathEnd, Unsupported):
                    raise
                except Exception as ex:  # noqa: BLE001
                    f.ex = ex

    class Pool:
        def submit(self, fn, *a, **k):
            f = Future(fn, a, k)
            pending.append(f)
            return f

    rev = e.choose(2, "order") == 1

    class CF:
        ThreadPoolExecutor = Pool

        @staticmethod
        def wait(fs, *a, **k):
            run(list(fs)[::-1] if rev else list(fs))

    class CFm:
        futures = CF

    me._threads, me._random_generators, me._executor, me._parallel_threshold = t, gens, Pool(), thr
    params = {"random": (), "normal": (Real("mean"), Real("std")), "integers": (Int("low"), Int("high"))}[name]
    R.np, R.concurrent = Shim(), CFm
    how = e.choose(3 if has_out else 2, "size_given_as")
    e.cover("pre")
    try:
        fn = R.MultithreadedRNG._build_method(me, name, nparam, defdtype, has_dtype, has_out)
        real_scalar = np.isscalar
        out0 = None
        if how == 0:
            r = fn(*params, size=n)
        elif how == 1:
            r = fn(*params, n)
        else:
            out0 = SArr._make(lambda idx: SReal(z3.RealVal(-1)), (n,), float).copy()
            import types

            out0.__dict__["_flags"] = types.SimpleNamespace(carray=True, c_contiguous=True, contiguous=True, writeable=True, aligned=True, f_contiguous=True)
            r = fn(*params, out=out0)
    finally:
        R.np, R.concurrent = keepnp, keepcf
    if direct:
        e.prove("fill:direct-call-alone", T if len(direct) == 1 and not calls else F)
        a, k = direct[0]
        got = a[nparam] if len(a) > nparam else k.get("size", None if out0 is None else k["out"].shape[0])
        e.prove("fill:direct-call-has-the-size", SBool(zi(got) == n.z))
        return
    e.prove("fill:all-threads-done", T if all(f.done and f.ex is None for f in pending) else F)
    e.prove("fill:generators-used-once-each", T if len({c[0] for c in calls}) == len(calls) else F)
    same = all(len(c[1]) == len(params) and all(x is y for x, y in zip(c[1], params)) for c in calls)
    e.prove("fill:parameters-passed-to-every-thread", T if same else F)
    tot = z3.IntVal(0)
    for c in calls:
        tot = tot + zi(c[3])
    e.prove("fill:number-of-draws-is-the-number-of-elements", SBool(tot == n.z))
    if out0 is not None:
        e.prove("fill:returns-the-given-array", T if r is out0 else F)
    else:
        e.prove("fill:type", T if made == [np.dtype(defdtype)] else F)
    e.prove("fill:shape", SBool(z3.And(z3.BoolVal(len(r.shape) == 1), zi(r.shape[0]) == n.z)))
    i = Int("i")
    e.assume((i >= 0) & (i < n))
    v = r[i]
    v = v.z if isinstance(v, (SReal, SInt)) else z3.RealVal(v)
    if z3.is_int(v):
        v = z3.ToReal(v)
    e.prove("fill:every-element-drawn", SBool(z3.Or(*[v == k + 1 for k in range(t)])))
    # together with the number of draws: exactly once


def p_seed(e):
    """RandomTask: the seed of a rank is a function of the configured seed, the class and the rank, different on every rank."""
    from caput.pipeline.tasklib import random as TR
    from caput.pipeline.tasklib import base

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    seed = Int("seed")
    size = Int("size")
    ranks = [Int("r1"), Int("r2")]
    e.assume((seed >= 0) & (size >= 1))
    for r in ranks:
        e.assume((r >= 0) & (r < size))
    given = e.choose(2, "seed_given") == 1
    agreed = Int("agreed")
    e.assume(agreed >= 0)

    class Comm:
        def __init__(self, r):
            self.rank, self.size = r, size

        def bcast(self, obj, root=0):
            log.append(root)
            return agreed

        def Get_rank(self):
            return self.rank

    log = []
    keep = base.MPILoggedTask.__init__

    class Log:
        def __getattr__(self, k):
            return lambda *a, **k: None

    class Mine(TR.RandomTask):
        pass

    out = []
    e.cover("pre")
    for r in ranks:
        def init(self, r=r):
            self.comm, self._log = Comm(r), Log()

        base.MPILoggedTask.__init__ = init
        try:
            t = Mine.__new__(Mine)
            t.__dict__["seed"] = None
            if given:
                Mine.seed = seed
            else:
                Mine.seed = None
            t.__dict__.pop("seed")
            t.__init__()
        finally:
            base.MPILoggedTask.__init__ = keep
        out.append(t.local_seed)
    e.prove("seed:unset-seed-agreed-between-ranks", T if (len(log) == 0 if given else len(log) == 2 and len(set(log)) == 1) else F)
    base_seed = seed if given else agreed
    e.prove("seed:usable", SBool(out[0].z >= 0))
    e.prove("seed:different-ranks-differ", SBool(z3.Implies(ranks[0].z != ranks[1].z, out[0].z != out[1].z)))
    e.prove("seed:same-rank-same-seed", SBool(z3.Implies(ranks[0].z == ranks[1].z, out[0].z == out[1].z)))
    # a function of nothing else
    free = {str(d) for o in out for d in _consts(o.z)}
    allowed = {str(x.z) for x in (base_seed, *ranks)}
    e.prove("seed:depends-on-seed-class-and-rank-only", T if free <= allowed else F)
    e.prove("seed:depends-on-the-seed", T if str(base_seed.z) in free else F)


def _consts(z):
    if z3.is_const(z):
        return [z] if z.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    return [c for x in z.children() for c in _consts(x)]


PROOFS = [
    Proof("fill", p_fill, [A_ + "MultithreadedRNG._build_method"], bound="1 to 4 threads; any number of elements, threshold and parameters; two orders of execution"),
    Proof("seed", p_seed, [R_ + "RandomTask.__init__", R_ + "RandomTask.local_seed"]),
]


# ---------------------------------------------------------------- falsifiers
METH = ["random", "integers", "uniform", "normal", "standard_normal", "poisson", "power"]


def gen(rng, i):
    m = rng.choice(METH)
    nd = rng.choice([0, 1, 1, 2, 3])
    size = rng.choice([999, 1000, 1001, 1003, 2000, 4099, 12345]) if nd == 0 else [rng.choice([1, 2, 3, 7, 40]) for _ in range(nd - 1)] + [rng.choice([400, 1000, 1021, 3001])]
    dt = None
    if m in ("random", "standard_normal"):
        dt = rng.choice([None, "f4", "f8"])
    if m == "integers":
        dt = rng.choice([None, "i4", "u1", "i8"])
    return {"m": m, "size": size, "dtype": dt, "threads": rng.choice([1, 2, 3, 4, 7, 16, None]), "seed": rng.randrange(10**6), "delay": rng.randrange(10**6),
            "pos": rng.random() < 0.4, "out": m in ("random", "standard_normal") and rng.random() < 0.5, "order": rng.choice(["C", "C", "F", "strided"]),
            "p": [round(rng.uniform(0.5, 6), 2), round(rng.uniform(0.2, 3), 2)], "env": rng.choice([None, "2", "5"]), "n": rng.choice([1, 2, 3])}


def _params(c):
    a, b = c["p"]
    return {"random": (), "integers": (2, 2 + int(5 + 20 * b)), "uniform": (-a, a + b), "normal": (a, b), "standard_normal": (), "poisson": (a * 3,), "power": (a,)}[c["m"]]


def _stats(c):
    """mean, standard deviation, lowest, highest (with inclusive bounds)."""
    p = _params(c)
    m = c["m"]
    if m == "random":
        return 0.5, 12**-0.5, 0, 1
    if m == "integers":
        lo, hi = p
        k = hi - lo
        return (lo + hi - 1) / 2, ((k * k - 1) / 12) ** 0.5, lo, hi - 1
    if m == "uniform":
        return (p[0] + p[1]) / 2, (p[1] - p[0]) / 12**0.5, p[0], p[1]
    if m == "normal":
        return p[0], p[1], -1e300, 1e300
    if m == "standard_normal":
        return 0, 1, -1e300, 1e300
    if m == "poisson":
        return p[0], p[0] ** 0.5, 0, 1e9
    a = p[0]
    return a / (a + 1), (a / ((a + 1) ** 2 * (a + 2))) ** 0.5, 0, 1


def check(c):
    import concurrent.futures
    import os
    import random
    import time

    import numpy as np
    from caput.algorithms.random import MultithreadedRNG

    submit = concurrent.futures.ThreadPoolExecutor.submit

    def run(delay):
        """The same calls under a different schedule of the threads."""
        rnd = random.Random(delay)

        def slow(self, fn, /, *a, **k):
            d = rnd.choice([0, 0, 0.0005, 0.002])

            def f(*a, **k):
                time.sleep(d)
                return fn(*a, **k)

            return submit(self, f, *a, **k)

        concurrent.futures.ThreadPoolExecutor.submit = slow
        env = os.environ.get("OMP_NUM_THREADS")
        if c["env"] is None:
            os.environ.pop("OMP_NUM_THREADS", None)
        else:
            os.environ["OMP_NUM_THREADS"] = c["env"]
        try:
            r = MultithreadedRNG(c["seed"], threads=c["threads"])
            outs = []
            for _ in range(c["n"]):
                size = c["size"] if isinstance(c["size"], int) else tuple(c["size"])
                # poison the memory the allocator will hand out
                np.full(size, np.nan)
                kw = {} if c["dtype"] is None else {"dtype": np.dtype(c["dtype"]).type}
                if c["out"]:
                    dt = c["dtype"] or "f8"
                    if c["order"] == "strided":
                        s = size if isinstance(size, tuple) else (size,)
                        o = np.full((*s[:-1], s[-1] * 2), np.nan, dt)[..., ::2]
                    else:
                        o = np.full(size, np.nan, dt, order=c["order"])
                    try:
                        if c["pos"]:
                            x = getattr(r, c["m"])(None, np.dtype(dt).type, o)
                        else:
                            x = getattr(r, c["m"])(out=o, **kw)
                    except (ValueError, TypeError):
                        if c["order"] == "C":
                            raise
                        outs.append(None)
                        continue
                    if x is not o:
                        return "the array given to be filled is not the one returned"
                elif c["pos"]:
                    x = getattr(r, c["m"])(*_params(c), size, *([kw["dtype"]] if kw else []))
                else:
                    x = getattr(r, c["m"])(*_params(c), size=size, **kw)
                outs.append(x)
            return outs
        finally:
            concurrent.futures.ThreadPoolExecutor.submit = submit
            if env is None:
                os.environ.pop("OMP_NUM_THREADS", None)
            else:
                os.environ["OMP_NUM_THREADS"] = env

    a, b = run(c["delay"]), run(c["delay"] + 1)
    for x in (a, b):
        if isinstance(x, str):
            return x
    size = c["size"] if isinstance(c["size"], int) else tuple(c["size"])
    shape = (size,) if isinstance(size, int) else size
    mean, sd, lo, hi = _stats(c)
    ref = getattr(np.random.default_rng(0), c["m"])(*_params(c), size=3, **({} if c["dtype"] is None else {"dtype": np.dtype(c["dtype"]).type}))
    for x, y in zip(a, b):
        if x is None or y is None:
            if (x is None) != (y is None):
                return "the same call failed in one run only"
            continue
        if x.shape != shape:
            return f"shape {x.shape} instead of {shape}"
        if x.dtype != ref.dtype:
            return f"variates of type {x.dtype}, numpy's are {ref.dtype}"
        if not np.array_equal(x, y):
            return "the same seed and number of threads gave different numbers under another schedule"
        if not np.all(np.isfinite(x)) or x.min() < lo or x.max() > hi:
            return f"variates outside of their range: {x.min()} .. {x.max()}"
        n = x.size
        # 7 standard errors (with the Poisson and power tails well inside)
        if abs(float(np.mean(x, dtype=float)) - mean) > 8 * sd / n**0.5 + 1e-6:
            return f"mean {np.mean(x)} of {n} variates, expected {mean}"
        if abs(float(np.std(x, dtype=float)) - sd) > 0.45 * sd:
            return f"standard deviation {np.std(x)}, expected {sd}"
        if c["dtype"] in (None, "f8") and c["m"] not in ("integers", "poisson"):
            if len(np.unique(x)) < n - (1 if c["m"] != "power" else 3):
                return f"{n - len(np.unique(x))} of {n} variates are repeated"
        f = np.asarray(x).ravel()
        # no block of the numbers comes twice (runs of equal length are compared by a window)
        if n >= 64 and c["m"] in ("integers", "poisson") or c["dtype"] == "f4":
            w = np.lib.stride_tricks.sliding_window_view(f, 24)
            if c["m"] != "integers" or c["p"][1] > 0.3:
                k = {t.tobytes() for t in w}
                if len(k) < len(w):
                    return "a block of numbers is repeated"
    for x, y in zip(a[:-1], a[1:]):
        if x is not None and y is not None and np.array_equal(x, y):
            return "two calls gave the same numbers"
    return None


def gen_small(rng, i):
    return {"m": rng.choice(METH), "kind": rng.choice(["scalar", "small", "array", "bad", "endpoint", "other"]), "seed": rng.randrange(1000), "p": [round(rng.uniform(0.5, 6), 2), round(rng.uniform(0.2, 3), 2)]}


def check_small(c):
    """Calls that are not split behave as numpy's."""
    import numpy as np
    from caput.algorithms.random import MultithreadedRNG, default_rng

    r = MultithreadedRNG(c["seed"], threads=3)
    p = _params(c)
    k = c["kind"]
    f = getattr(r, c["m"])
    ref = getattr(np.random.default_rng(1), c["m"])
    if k == "scalar":
        x, y = f(*p), ref(*p)
        return None if np.ndim(x) == 0 and type(x) is type(y) else f"a scalar draw gave {x!r}"
    if k == "small":
        x, y = f(*p, size=(3, 5)), ref(*p, size=(3, 5))
        return None if x.shape == (3, 5) and x.dtype == y.dtype else f"a small draw gave {x.shape} {x.dtype}, numpy {y.dtype}"
    if k == "array":
        if not p:
            return None
        q = [np.full((1500, 2), v) for v in p]
        if c["seed"] % 3 == 0:
            q = [x[:1] for x in q]  # broadcast against the size
            x = f(*q, size=(1500, 2))
            return None if x.shape == (1500, 2) else f"array parameters with a size gave {x.shape}"
        if c["m"] in ("normal", "poisson"):
            q[0][:, 1] += 1000
        x = f(*q) if c["seed"] % 2 else f(*q, size=(1500, 2))
        if x.shape != (1500, 2):
            return f"array parameters gave {x.shape}"
        if c["m"] in ("normal", "poisson") and x[:, 1].min() < x[:, 0].max():
            return "array parameters were not applied to their elements"
        return None
    if k == "bad":
        bad = {"normal": (0, -1), "poisson": (-1,), "power": (-2,), "integers": (5, 2)}.get(c["m"])
        if bad is None:
            return None
        try:
            f(*bad, size=5000)
            return "invalid parameters were accepted"
        except Exception:
            pass
        # and the generator still works
        x = f(*p, size=5000)
        return None if x.shape == (5000,) else "no more numbers after an error"
    if k == "endpoint":
        x = r.integers(0, 3, size=6000, endpoint=True)
        if set(np.unique(x)) != {0, 1, 2, 3}:
            return f"integers with endpoint gave {set(np.unique(x))}"
        x = r.integers(7, size=6000)
        if set(np.unique(x)) != set(range(7)):
            return f"integers(7) gave {set(np.unique(x))}"
        x = r.normal(loc=50.0, scale=0.5, size=6000)
        if abs(x.mean() - 50) > 0.1 or abs(x.std() - 0.5) > 0.1:
            return f"named parameters ignored: {x.mean()} {x.std()}"
        x = r.uniform(high=3.0, low=2.0, size=(2, 3000))
        if x.min() < 2 or x.max() > 3 or x.shape != (2, 3000):
            return "named parameters of uniform ignored"
        return None
    # methods without a threaded version; default generator is one object
    s = MultithreadedRNG(c["seed"], threads=3)
    if not np.array_equal(r.exponential(size=4000), s.exponential(size=4000)):
        return "an unthreaded method does not depend on the seed alone"
    if default_rng() is not default_rng():
        return "default_rng() is not one generator"
    t = MultithreadedRNG(c["seed"] + 1, threads=3)
    if np.array_equal(f(*p, size=4000), getattr(t, c["m"])(*p, size=4000)) and c["m"] != "x":
        return "another seed gave the same numbers"
    u, v = MultithreadedRNG(None, threads=2), MultithreadedRNG(None, threads=2)
    if np.array_equal(u.random(2000), v.random(2000)):
        return "unseeded generators gave the same numbers"
    return None


def gen_task(rng, i):
    return {"seed": rng.choice([None, 0, 1, 12345, 2**40]), "threads": rng.choice([None, 1, 3])}


def check_task(c):
    import numpy as np
    from caput.pipeline.tasklib.random import RandomTask
    from contracts.mpi_plain import comm_world

    comm = comm_world()

    class First(RandomTask):
        pass

    class Second(RandomTask):
        pass

    p = {k: v for k, v in c.items() if v is not None}

    def mk(cls):
        return cls._from_config(dict(p)) if hasattr(cls, "_from_config") else None

    a, b, s = mk(First), mk(First), mk(Second)
    if a is None:
        return None
    seeds = comm.allgather(a.local_seed)
    if len(set(seeds)) != comm.size:
        return f"ranks share a seed: {seeds}"
    steps = {seeds[k + 1] - seeds[k] for k in range(comm.size - 1)}
    x, y, z = (t.rng.random(3000) for t in (a, b, s))
    if a.rng is not a.rng:
        return "a task has more than one generator"
    if (c["seed"] is not None) != np.array_equal(x, y):
        return "two tasks of the same class: equal numbers exactly if the seed is set" + str(c)
    if np.array_equal(x, z):
        return "tasks of different classes with the same seed draw the same numbers"
    xs = comm.allgather(x)
    for r in range(comm.size):
        if r != comm.rank and np.array_equal(xs[r], x):
            return "two ranks draw the same numbers"
    # an unset seed is agreed on by all the ranks: the seed of the rank minus the class part
    if comm.size > 2 and len(steps) != 1:
        return f"the seeds of the ranks {seeds} do not come from one agreed seed"
    return None


FALSIFIERS = [
    Falsifier("threaded", gen, check, n=120, thorough=3000,
              fixed=[{"m": "random", "size": 1003, "dtype": None, "threads": 4, "seed": 5, "delay": 1, "pos": True, "out": True, "order": "C", "p": [1, 1], "env": None, "n": 2},
                     {"m": "random", "size": [4, 1003], "dtype": None, "threads": 4, "seed": 5, "delay": 1, "pos": False, "out": True, "order": "strided", "p": [1, 1], "env": None, "n": 1},
                     {"m": "poisson", "size": 5000, "dtype": None, "threads": 4, "seed": 5, "delay": 1, "pos": False, "out": False, "order": "C", "p": [1, 1], "env": None, "n": 1}]),
    Falsifier("direct", gen_small, check_small, n=150, thorough=2000),
    Falsifier("task", gen_task, check_task, n=12, thorough=100, ranks=(1, 2, 3)),
]

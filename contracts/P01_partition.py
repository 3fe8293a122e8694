"""Work division: contiguous, exact, balanced."""

import itertools

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = ["numpy integers do not overflow (treated as mathematical)"]


class Comm:
    """Stand-in communicator: only rank and size are consulted."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


def lemma_cumsum(e, base, rem):
    """Ghost lemma: closed form of the prefix sums the code takes, by induction.

    Called back with (summand function, length) whenever the code takes prefix
    sums; the closed form replaces the sums only once base and step are proved.
    """

    def lemma(f, n):
        zero = SInt(z3.IntVal(0))
        for cl in (
            lambda j: j * base + Ite(j < rem, j, rem),
            lambda j: (j + 1) * base + Ite(j + 1 < rem, j + 1, rem),
        ):
            if e._check(z3.Not(zi(f((zero,))) == zi(cl(zero)))) != z3.unsat:
                continue
            j = SInt(e.fresh("ind"))
            ok = e.prove("lemma:prefix-sums:base", Or(SInt(zi(n)) <= 0, SInt(zi(f((zero,)))) == cl(zero)))
            ok &= e.prove(
                "lemma:prefix-sums:step",
                Implies(And(j >= 0, j + 1 < n), cl(j) + f((j + 1,)) == cl(j + 1)),
            )
            return cl if ok else None
        return None

    e.ghost["cumsum_lemma"] = lemma


def spec(e, n, m, pre=""):
    base, rem = n // m, n % m
    start = lambda i: i * base + Ite(i < rem, i, rem)  # noqa: E731
    lemma_cumsum(e, base, rem)
    return base, rem, start


def prove_tiling(e, n, m, start, pre):
    """The closed form itself is an exact balanced tiling of [0, n)."""
    base, rem, _ = spec(e, n, m)
    i = SInt(e.fresh("i"))
    e.prove(pre + "first-start-is-0", start(SInt(z3.IntVal(0))) == 0)
    e.prove(pre + "last-end-is-n", start(m) == n)
    e.prove(
        pre + "balanced-larger-first",
        Implies(And(i >= 0, i < m), start(i + 1) - start(i) == base + Ite(i < rem, 1, 0)),
    )


def p_split_m(e):
    from caput.util.arraytools import split_m

    n, m = Int("n", lo=0), Int("m", lo=1)
    e.cover("pre")
    base, rem, start = spec(e, n, m)
    r = split_m(n, m)
    e.prove("ensures:shape", And(SBool(z3.BoolVal(r.ndim == 2 and r.shape[0] == 3)), SInt(zi(r.shape[1])) == m))
    i = Int("i", lo=0)
    e.assume(i < m)
    e.prove("ensures:start", SInt(zi(r[1, i])) == start(i))
    e.prove("ensures:end", SInt(zi(r[2, i])) == start(i + 1))
    e.prove("ensures:count", SInt(zi(r[0, i])) == start(i + 1) - start(i))
    prove_tiling(e, n, m, start, "lemma:")


def p_split_comm(e):
    import sys

    from caput.util import mpitools

    n, m = Int("n", lo=0), Int("m", lo=1)
    k = Int("rank", lo=0)
    e.assume(k < m)
    comm = Comm(k, m)
    e.cover("pre")
    base, rem, start = spec(e, n, m)
    which = e.choose(2, "fn")
    if which == 0:
        r = mpitools.split_local(n, comm)
        e.prove("split_local:count", SInt(zi(r[0])) == start(k + 1) - start(k))
        e.prove("split_local:start", SInt(zi(r[1])) == start(k))
        e.prove("split_local:end", SInt(zi(r[2])) == start(k + 1))
    else:
        r = mpitools.split_all(n, comm=comm)
        e.prove("split_all:columns", SInt(zi(r.shape[1])) == m)
        e.prove("split_all:start", SInt(zi(r[1, k])) == start(k))
        e.prove("split_all:end", SInt(zi(r[2, k])) == start(k + 1))
        e.prove("split_all:count", SInt(zi(r[0, k])) == start(k + 1) - start(k))


def _full(e, N):
    F = z3.Function("full", z3.IntSort(), U)
    return F, SSeq(N, lambda k: SVal(F(zi(k))))


def _part_post(e, res, F, N, n, i, method, pre):
    base, rem, start = spec(e, N, n)
    ln = SInt(zi(res.n if isinstance(res, SSeq) else len(res)))
    k = SInt(e.fresh("k"))
    if method == "con":
        e.prove(pre + "con:length", ln == start(i + 1) - start(i))
        e.assume(And(k >= 0, k < ln))
        e.prove(pre + "con:item-k-is-full[start+k]", SBool(res[k].z == F(zi(start(i) + k))))
    else:
        e.assume(And(k >= 0, k < ln))
        e.prove(pre + "alt:item-k-is-full[i+k*n]", SBool(res[k].z == F(zi(i + k * n))))
        # every j of [0, N) with j = i mod n appears: j = i + k n with k < length
        j = SInt(e.fresh("jj"))
        t = SInt(e.fresh("t"))
        e.assume(And(t >= 0, j == i + t * n, j < N))
        e.prove(pre + "alt:complete", t < ln)


def p_partition_list(e):
    from caput.util.arraytools import partition_list

    N, n = Int("N", lo=0), Int("n", lo=1)
    i = Int("i", lo=0)
    e.assume(i < n)
    F, full = _full(e, N)
    method = ["con", "alt"][e.choose(2, "method")]
    e.inputs["method"] = method
    e.cover("pre")
    spec(e, N, n)
    res = partition_list(full, i, n, method=method)
    _part_post(e, res, F, N, n, i, method, "")


def p_partition_mpi(e):
    from caput.util import mpitools

    N, n = Int("N", lo=0), Int("n", lo=1)
    i = Int("i", lo=0)
    e.assume(i < n)
    F, full = _full(e, N)
    method = ["con", "alt"][e.choose(2, "method")]
    e.inputs["method"] = method
    e.cover("pre")
    spec(e, N, n)
    res = mpitools.partition_list_mpi(full, method=method, comm=Comm(i, n))
    _part_post(e, res, F, N, n, i, method, "mpi:")


def p_mpirange(e):
    from caput.util import mpitools

    a, b, n = Int("a"), Int("b"), Int("n", lo=1)
    i = Int("i", lo=0)
    e.assume(i < n)
    method = ["con", "alt"][e.choose(2, "method")]
    e.inputs["method"] = method
    e.cover("pre")
    N = Ite(b > a, b - a, 0)
    base, rem, start = spec(e, N, n)
    res = mpitools.mpirange(a, b, method=method, comm=Comm(i, n))
    ln = SInt(zi(res.n if isinstance(res, SSeq) else len(res)))
    k = SInt(e.fresh("k"))
    if method == "con":
        e.prove("mpirange:con:length", ln == start(i + 1) - start(i))
        e.assume(And(k >= 0, k < ln))
        e.prove("mpirange:con:item", SInt(zi(res[k])) == a + start(i) + k)
    else:
        e.assume(And(k >= 0, k < ln))
        e.prove("mpirange:alt:item", SInt(zi(res[k])) == a + i + k * n)
        j, t = SInt(e.fresh("jj")), SInt(e.fresh("t"))
        e.assume(And(t >= 0, j == i + t * n, j < N))
        e.prove("mpirange:alt:complete", t < ln)


PROOFS = [
    Proof("split_m", p_split_m, ["caput.util.arraytools.split_m"], covers=["pre"],
          to_cases=lambda o, m: [("split", {"n": m["n"], "m": m["m"]})]),
    Proof("split_comm", p_split_comm, ["caput.util.mpitools.split_local", "caput.util.mpitools.split_all"],
          covers=["pre"], to_cases=lambda o, m: [("split", {"n": m["n"], "m": m["m"]})]),
    Proof("partition_list", p_partition_list, ["caput.util.arraytools.partition_list"], covers=["pre"],
          to_cases=lambda o, m: [("partition", {"N": m["N"], "n": m["n"], "method": m["method"]})]),
    Proof("partition_list_mpi", p_partition_mpi, ["caput.util.mpitools.partition_list_mpi"], covers=["pre"],
          to_cases=lambda o, m: [("partition", {"N": m["N"], "n": m["n"], "method": m["method"]})]),
    Proof("mpirange", p_mpirange, ["caput.util.mpitools.mpirange"], covers=["pre"],
          to_cases=lambda o, m: [("mpirange", {"args": [m["a"], m["b"]], "n": m["n"], "method": m["method"]})]),
]


# -- run-time evaluation ------------------------------------------------------
def _spec_bounds(n, m):
    base, rem = divmod(n, m)
    b = [0]
    for i in range(m):
        b.append(b[-1] + base + (1 if i < rem else 0))
    return b


def gen_split(rng, i):
    hi = rng.choice([3, 20, 200, 5000])
    return {"n": rng.randrange(0, hi), "m": rng.randrange(1, rng.choice([3, 12, 60, 400]))}


def check_split(c):
    from caput.util import arraytools, mpitools

    n, m = c["n"], c["m"]
    if n > 10**6 or m > 10**5:
        return None
    b = _spec_bounds(n, m)
    want = [[b[i + 1] - b[i] for i in range(m)], b[:-1], b[1:]]
    got = arraytools.split_m(n, m)
    if [list(map(int, r)) for r in got] != want:
        return f"split_m({n},{m}) = {got.tolist()}"
    got = mpitools.split_all(n, comm=Comm(0, m))
    if [list(map(int, r)) for r in got] != want:
        return f"split_all({n}) over {m} = {got.tolist()}"
    for r in {0, m - 1, m // 2}:
        g = mpitools.split_local(n, comm=Comm(r, m))
        if [int(x) for x in g] != [w[r] for w in want]:
            return f"split_local({n}) rank {r}/{m} = {g}"
    return None


def gen_part(rng, i):
    return {"N": rng.randrange(0, rng.choice([3, 15, 100])), "n": rng.randrange(1, rng.choice([3, 9, 40])),
            "method": rng.choice(["con", "alt"])}


def check_part(c):
    from caput.util import arraytools, mpitools

    N, n = c["N"], c["n"]
    if N > 10**5 or n > 10**4:
        return None
    full = [("item", j) for j in range(N)]
    for fn in (
        lambda i: arraytools.partition_list(list(full), i, n, method=c["method"]),
        lambda i: mpitools.partition_list_mpi(list(full), method=c["method"], comm=Comm(i, n)),
    ):
        parts = [fn(i) for i in range(n)]
        if c["method"] == "con":
            b = _spec_bounds(N, n)
            want = [full[b[i] : b[i + 1]] for i in range(n)]
        else:
            want = [full[i::n] for i in range(n)]
        if parts != want:
            return f"partitions {parts} expected {want}"
    return None


def gen_range(rng, i):
    args = [rng.randrange(-20, 60) for _ in range(rng.choice([1, 2, 3]))]
    if len(args) == 3 and args[2] == 0:
        args[2] = 1
    return {"args": args, "n": rng.randrange(1, 9), "method": rng.choice(["con", "alt"])}


def check_range(c):
    from caput.util import mpitools

    n = c["n"]
    full = list(range(*c["args"]))
    if len(full) > 10**5 or n > 10**4:
        return None
    parts = [mpitools.mpirange(*c["args"], method=c["method"], comm=Comm(i, n)) for i in range(n)]
    b = _spec_bounds(len(full), n)
    want = [full[b[i] : b[i + 1]] if c["method"] == "con" else full[i::n] for i in range(n)]
    if [list(p) for p in parts] != want:
        return f"mpirange{tuple(c['args'])} over {n}: {parts} expected {want}"
    # order and coverage
    if sorted(itertools.chain(*parts)) != sorted(full):
        return "lost or duplicated"
    return None


FALSIFIERS = [
    Falsifier("split", gen_split, check_split, n=400, thorough=20000),
    Falsifier("partition", gen_part, check_part, n=300, thorough=8000),
    Falsifier("mpirange", gen_range, check_range, n=300, thorough=8000),
]

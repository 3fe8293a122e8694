"""Every pipeline task is set up, run and finished exactly once, in order."""

from contracts import pipe_plain as pp
from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "user methods are arbitrary: they return a value, None or raise PipelineStopIteration; they do not call pipeline internals",
    "tasks are listed after the tasks whose keys they use",
]
RULE = "random acyclic task graphs (up to six tasks, up to three inputs, fan-out, requirements, limits, priorities, skipped outputs) in random topological listings"


# ---------------------------------------------------------------- proofs
class Q:
    """A FIFO with an arbitrary prefix: items lo.. of an uninterpreted sequence, up to hi."""

    def __init__(self, e, name):
        self.f = z3.Function(name, z3.IntSort(), U)
        self.lo = Int(name + "_lo", lo=0)
        self.hi = Int(name + "_hi", lo=0)
        e.assume(self.lo <= self.hi)
        self.took = 0
        self.lo0, self.hi0, self.put_ = self.lo, self.hi, []

    def empty(self):
        return self.lo == self.hi

    def qsize(self):
        return self.hi - self.lo

    def get(self, *a, **k):
        eng().prove("queue:get-only-when-not-empty", self.lo < self.hi)
        v = SVal(self.f(self.lo.z))
        self.lo = self.lo + 1
        self.took += 1
        return v

    get_nowait = get

    def put(self, v, *a, **k):
        self.put_.append(v)
        self.hi = self.hi + 1

    put_nowait = put


def mk_task(e, nreq=None, nin=None):
    """A task with arbitrary user methods in an arbitrary reachable state (the invariant)."""
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline._pipeline import Task

    calls = []

    def result(tag, stop=False):
        k = e.choose(3 if stop else 2, tag)
        if k == 0:
            return None
        if k == 1:
            return SVal(z3.FreshConst(U, tag))
        raise PipelineStopIteration

    class T(Task):
        def setup(self, *a):
            calls.append(("setup", a))
            return result("setup_out")

        def next(self, *a):
            calls.append(("next", a))
            return result("next_out", True)

        def finish(self):
            calls.append(("finish", ()))
            return result("finish_out")

    nreq = e.choose(3, "nreq") if nreq is None else nreq
    nin = e.choose(4, "nin") if nin is None else nin
    t = T()
    t._setup_keys([f"i{k}" for k in range(nin)], ["o"], [f"r{k}" for k in range(nreq)])
    e.prove("setup_keys:starts-in-setup-with-nothing-called", SBool(z3.BoolVal(t._pipeline_state == "setup" and not calls)))
    return t, calls


STATES = ("setup", "next", "finish", "raise")


def arbitrary(e, t, nreq, nin):
    """Put the task into an arbitrary state satisfying the invariant; ghost counters of past calls."""
    st = STATES[e.choose(4, "state")]
    g = {"setup": Int("past_setup", lo=0, hi=1), "next": Int("past_next", lo=0), "finish": Int("past_finish", lo=0, hi=1)}
    t._pipeline_state = st
    t._num_iters = Int("num_iters", lo=0)
    lim = OptInt("limit", lo=1)
    t.__dict__["limit_outputs"] = lim
    e.assume(t._num_iters <= g["next"])
    if st == "setup":
        e.assume(And(g["setup"] == 0, g["next"] == 0, g["finish"] == 0, t._num_iters == 0))
        t._requires = [SVal(z3.Const(f"req{k}", U)) if e.choose(2, f"have_req{k}") else None for k in range(nreq)]
        t._in = [Q(e, f"in{k}") for k in range(nin)]
    else:
        t._requires = None
        if st == "next":
            e.assume(And(g["setup"] == 1, g["finish"] == 0))
            t._in = [Q(e, f"in{k}") for k in range(nin)]
            if lim is not None:
                e.assume(t._num_iters < lim)
        else:
            t._in = None
            e.assume(g["finish"] == (0 if st == "finish" else 1))
            if lim is not None:
                e.assume(t._num_iters <= lim)
            e.assume(Implies(g["next"] > 0, g["setup"] == 1))
    return st, g, lim


def invariant(e, t, g, calls, lim, what):
    for m, _ in calls:
        g[m] = g[m] + 1
    st = t._pipeline_state
    ok = {
        "setup": And(g["setup"] == 0, g["next"] == 0, g["finish"] == 0),
        "next": And(g["setup"] == 1, g["finish"] == 0),
        "finish": And(g["setup"] <= 1, g["finish"] == 0, Implies(g["next"] > 0, g["setup"] == 1)),
        "raise": And(g["setup"] <= 1, g["finish"] == 1, Implies(g["next"] > 0, g["setup"] == 1)),
    }
    e.prove(what + ":calls-match-state", ok[st] if st in ok else SBool(z3.BoolVal(False)))
    if lim is not None:
        e.prove(what + ":limit-on-outputs", t._num_iters <= lim)
        if st == "next":
            e.prove(what + ":limit-ends-processing", t._num_iters < lim)
    return st


def p_step(e):
    from caput.pipeline._pipeline import _PipelineFinished, _PipelineMissingData

    nreq, nin = e.choose(3, "nreq"), e.choose(4, "nin")
    t, calls = mk_task(e, nreq, nin)
    st, g, lim = arbitrary(e, t, nreq, nin)
    queues = list(t._in) if t._in is not None else []
    reqs = list(t._requires) if t._requires is not None else []
    iters = t._num_iters
    e.cover("pre")
    e.cover(st)
    try:
        out, how = t._pipeline_next(), "ok"
    except _PipelineMissingData:
        how = "missing"
    except _PipelineFinished:
        how = "finished"
    names = [m for m, _ in calls]
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    new = invariant(e, t, g, calls, lim, "step")
    e.prove("step:finished-only-at-the-end", T if (how == "finished") == (st == "raise") else F)
    if how == "finished":
        e.prove("step:nothing-after-the-end", T if not names else F)
        return
    if how == "missing":
        e.prove("step:missing-changes-nothing", T if not names and new == st and all(q.took == 0 for q in queues) else F)
        miss = F
        if st == "setup":
            miss = T if any(r is None for r in reqs) else F
        elif st == "next":
            for q in queues:
                miss = Or(miss, q.lo0 == q.hi0)
        e.prove("step:missing-only-if-something-is-missing", miss)
        return
    e.prove("step:exactly-one-call", T if names == [st] else F)
    if st == "setup":
        e.prove("setup:given-the-requirements", T if len(calls[0][1]) == len(reqs) and all(a is b and a is not None for a, b in zip(calls[0][1], reqs)) else F)
        e.prove("setup:then-processing", T if new == "next" else F)
    if st == "finish":
        e.prove("finish:then-the-end", T if new == "raise" else F)
    if st == "next":
        # stays in processing unless it signalled the end or the limit is reached
        if out is not None:
            e.prove("next:output-counted", t._num_iters == iters + 1)
            if lim is None:
                e.prove("next:continues", T if new == "next" else F)
            else:
                e.prove("next:ends-exactly-at-limit", SBool(z3.BoolVal(new == "finish")) == (iters + 1 == lim) if new in ("next", "finish") else F)
        else:
            e.prove("next:no-output-not-counted", t._num_iters == iters)
            e.prove("next:continues-or-finishes", T if new in ("next", "finish") else F)


def p_advance(e):
    """The manager gives up waiting: the task moves on towards its end and calls nothing."""
    nreq, nin = e.choose(3, "nreq"), e.choose(4, "nin")
    t, calls = mk_task(e, nreq, nin)
    st, g, lim = arbitrary(e, t, nreq, nin)
    missing = st == "setup" and any(r is None for r in t._requires)
    e.cover("pre")
    if st == "setup" and not missing:
        return  # only reached by completing setup, see step
    if st == "finish":
        return
    t._pipeline_advance_state()
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    e.prove("advance:calls-nothing", T if not calls else F)
    new = invariant(e, t, g, calls, lim, "advance")
    e.prove("advance:towards-the-end", T if (st, new) in {("setup", "finish"), ("next", "finish"), ("raise", "raise")} else F)


def p_stop(e):
    """The end signal: processing ends, nothing is output."""
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline._pipeline import Task

    class T(Task):
        def next(self, *a):
            if e.choose(2, "stops"):
                raise PipelineStopIteration
            return None

    nin = e.choose(4, "nin")
    t = T()
    t._setup_keys([f"i{k}" for k in range(nin)], ["o"], [])
    st, g, lim = arbitrary(e, t, 0, nin)
    if st != "next":
        return
    for q in t._in:
        e.assume(q.lo < q.hi)
    e.cover("pre")
    signalled = []
    orig = t.next

    def spy(*a):
        try:
            return orig(*a)
        except PipelineStopIteration:
            signalled.append(1)
            raise

    t.next = spy
    out = t._pipeline_next()
    e.prove("stop:no-output", SBool(z3.BoolVal(out is None)))
    e.prove("stop:ends-processing-iff-signalled", SBool(z3.BoolVal((t._pipeline_state == "finish") == bool(signalled))))


_T = "caput.pipeline._pipeline.Task."
_F = [_T + "_pipeline_next", _T + "_pipeline_advance_state", _T + "_setup_keys"]
_B = "up to two requirements and three input positions (states, queue contents, past history, limit unbounded)"
PROOFS = [
    Proof("step", p_step, _F, covers=["pre", *STATES], bound=_B),
    Proof("advance", p_advance, _F, covers=["pre"], bound=_B),
    Proof("stop", p_stop, _F, covers=["pre"], bound=_B),
]


# ---------------------------------------------------------------- run time
def check(c):
    ref = pp.reference(c["tasks"])
    logs, left = pp.run(c)
    if logs is None:
        return left
    if left:
        return f"tasks left over: {left}"
    for t, (got, want) in enumerate(zip(logs, ref["logs"])):
        g, w = [m for m, _ in got], [m for m, _ in want]
        if g != w:
            return f"task {t} called {g}, expected {w}"
    return None


def gen(rng, i):
    c = pp.gen_graph(rng, i)
    c["interactive"] = rng.random() < 0.1
    return c


FALSIFIERS = [Falsifier("graphs", gen, check, n=700, thorough=15000)]

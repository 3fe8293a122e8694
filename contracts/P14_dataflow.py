"""Every product reaches every consumer once, in order, whatever the schedule."""

from contracts import pipe_plain as pp
from contracts.P13_lifecycle import *  # noqa: F403
from contracts.P13_lifecycle import Q, arbitrary, mk_task

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "tasks are listed after the tasks whose keys they use",
    "with in-order delivery per position and inputs taken from the heads (both proved), a task graph is a Kahn process network, whose streams do not depend on the schedule (pen-and-paper step)",
]
RULE = "random acyclic task graphs in random topological listings and priorities, against the streams computed task by task"


# ---------------------------------------------------------------- proofs
def p_queue(e):
    """Delivery of one product to one task."""
    from caput.pipeline.exceptions import PipelineRuntimeError

    nreq, nin = e.choose(3, "nreq"), e.choose(4, "nin")
    t, calls = mk_task(e, nreq, nin)
    st, g, lim = arbitrary(e, t, nreq, nin)
    # which of the names coincide is arbitrary
    names = ["a", "b"]
    t._in_keys = [names[e.choose(2, f"ik{k}")] for k in range(nin)]
    t._requires_keys = [names[e.choose(2, f"rk{k}")] for k in range(nreq)]
    reqs = list(t._requires) if t._requires is not None else None
    queues = list(t._in) if t._in is not None else None
    prod = SVal(z3.Const("product", U))
    e.cover("pre")
    try:
        r = t._pipeline_queue_product("a", prod)
        err = False
    except PipelineRuntimeError:
        err = True
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    rq = [k for k in range(nreq) if t._requires_keys[k] == "a"]
    iq = [k for k in range(nin) if t._in_keys[k] == "a"]
    late = (rq and reqs is None) or (rq and any(reqs[k] is not None for k in rq)) or (iq and queues is None)
    e.prove("queue:refused-iff-it-can-no-longer-be-used", T if err == bool(late) else F)
    e.prove("queue:calls-nothing", T if not calls and t._pipeline_state == st else F)
    if err:
        return
    e.prove("queue:reports-acceptance", T if bool(r) == bool(rq or iq) else F)
    for k in range(nin):
        if queues is None:
            continue
        q = queues[k]
        e.prove("queue:appended-once-to-each-matching-position", T if len(q.put_) == (1 if k in iq else 0) and all(x is prod for x in q.put_) else F)
        e.prove("queue:nothing-taken", T if q.took == 0 and t._in[k] is q else F)
    for k in range(nreq):
        if reqs is None:
            continue
        e.prove("queue:requirement-stored-where-named", T if t._requires[k] is (prod if k in rq else reqs[k]) else F)


def p_take(e):
    """Inputs are the heads of the queues, in key order."""
    from caput.pipeline._pipeline import _PipelineMissingData

    nin = e.choose(4, "nin")
    t, calls = mk_task(e, 0, nin)
    st, g, lim = arbitrary(e, t, 0, nin)
    if st != "next":
        return
    queues = list(t._in)
    e.cover("pre")
    try:
        t._pipeline_next()
    except _PipelineMissingData:
        return
    e.cover("run")
    args = calls[0][1]
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    e.prove("take:one-from-each-position", T if len(args) == nin and all(q.took == 1 for q in queues) else F)
    for k, (a, q) in enumerate(zip(args, queues)):
        e.prove("take:the-oldest-at-its-position", SBool(a.z == q.f(q.lo0.z)))


class Stub:
    def __init__(self, e, k, avail):
        self.k = k
        self.base_priority = Int(f"bprio{k}")
        self._pipeline_priority = Int(f"prio{k}")
        self._pipeline_is_available = avail


def p_choice(e):
    """The scheduler: something that can run, else the first unfinished task."""
    from caput.pipeline._pipeline import Manager

    n = e.choose(4, "n") + 1
    m = Manager()
    m.tasks = []
    for k in range(n):
        s = e.choose(3, f"task{k}")
        m.tasks.append(None if s == 0 else Stub(e, k, s == 1))
    alive = [k for k in range(n) if m.tasks[k] is not None]
    m._task_head = alive[0] if alive else 0
    m._task_idx = e.choose(n, "idx")
    before = list(m.tasks)
    e.cover("pre")
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    try:
        t = m._next_task()
    except StopIteration:
        e.prove("choice:ends-only-when-all-tasks-ended", T if not alive else F)
        return
    e.prove("choice:ends-when-all-tasks-ended", T if alive else F)
    e.prove("choice:tasks-unchanged", T if m.tasks == before and m.tasks[m._task_idx] is t else F)
    av = [k for k in alive if m.tasks[k]._pipeline_is_available]
    if av:
        e.prove("choice:one-that-can-run", T if t.k in av else F)
    else:
        e.prove("choice:else-the-first-unfinished", T if t.k == alive[0] else F)


def p_available(e):
    """Ready tasks are exactly those whose next step has everything it needs."""
    nreq, nin = e.choose(3, "nreq"), e.choose(4, "nin")
    t, calls = mk_task(e, nreq, nin)
    st, g, lim = arbitrary(e, t, nreq, nin)
    e.cover("pre")
    a = t._pipeline_is_available
    a = a if isinstance(a, SBool) else SBool(z3.BoolVal(bool(a)))
    if st == "setup":
        want = SBool(z3.BoolVal(all(r is not None for r in t._requires)))
    elif st == "next":
        want = SBool(z3.BoolVal(nin > 0))
        for q in t._in:
            want = And(want, q.lo < q.hi)
    else:
        want = SBool(z3.BoolVal(True))
    e.prove("available:iff-nothing-is-missing", SBool(zb(a) == zb(want)))


def p_outputs(e):
    """What a task returned becomes one product per key, in order, or is refused."""
    from caput.pipeline.exceptions import PipelineRuntimeError
    from caput.pipeline._pipeline import Manager

    class T:
        pass

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    t = type("T", (), {})()
    nk = e.choose(4, "nkeys")
    keys = [f"k{i}" for i in range(nk)]
    scalar = nk == 1 and e.choose(2, "scalar") == 1
    t._out_keys = tuple(keys) if scalar else keys
    kind = e.choose(5, "out")
    vals = [SVal(z3.Const(f"p{i}", U)) for i in range(kind)]
    out = None if kind == 0 else (vals[0] if scalar and kind == 1 else (tuple(vals) if e.choose(2, "tuple") or scalar else list(vals)))
    e.cover("pre")
    try:
        r = Manager._check_task_output(out, t)
        err = False
    except PipelineRuntimeError:
        err = True
    if out is None or nk == 0:
        e.prove("outputs:nothing-to-deliver", T if not err and r is None else F)
        return
    e.prove("outputs:refused-iff-number-differs", T if err == (len(vals) != nk) else F)
    if not err:
        e.prove("outputs:one-per-key-in-order", T if len(r) == nk and all(a is b for a, b in zip(r, vals)) else F)


_T = "caput.pipeline._pipeline.Task."
_M = "caput.pipeline._pipeline.Manager."
_B = "up to two requirements and three input positions (queue contents, past history unbounded)"
PROOFS = [
    Proof("queue", p_queue, [_T + "_pipeline_queue_product"], covers=["pre"], bound=_B),
    Proof("take", p_take, [_T + "_pipeline_next"], covers=["pre", "run"], bound=_B),
    Proof("choice", p_choice, [_M + "_next_task", _M + "_iter_tasks"], covers=["pre"], bound="up to four tasks (priorities unbounded)"),
    Proof("available", p_available, [_T + "_pipeline_is_available"], covers=["pre"], bound=_B),
    Proof("outputs", p_outputs, [_M + "_check_task_output"], covers=["pre"], bound="up to three keys"),
]


# ---------------------------------------------------------------- run time
def check(c):
    ref = pp.reference(c["tasks"])
    logs, left = pp.run(c)
    if logs is None:
        return left
    for t, (got, want) in enumerate(zip(logs, ref["logs"])):
        g, w = [a for m, a in got if m != "finish"], [a for m, a in want if m != "finish"]
        if g != w:
            return f"task {t} received {g}, expected {w}"
    return None


def gen(rng, i):
    return pp.gen_graph(rng, i)


FALSIFIERS = [Falsifier("streams", gen, check, n=700, thorough=15000)]

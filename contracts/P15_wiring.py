"""A mis-wired pipeline is rejected before it runs; a well-wired one is accepted."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = ["task methods take positional arguments (no required keyword-only arguments)"]
RULE = "random task lists over task classes with different signatures; well-wired ones and ones with one or more faults of the listed kinds"


# ---------------------------------------------------------------- proofs
def _sig(args, defaults, var, name):
    a = [f"a{i}" + ("=None" if i >= args - defaults else "") for i in range(args)] + (["*rest"] if var else [])
    ns = {}
    exec(f"def {name}(self, {', '.join(a)}): pass", ns)
    return ns[name]


def _B(x):
    return SBool(z3.BoolVal(bool(x)))


def p_counts(e):
    """Key counts against the signatures of setup and next."""
    from caput.config import CaputConfigError
    from caput.pipeline._pipeline import Task

    which = ["setup", "next"][e.choose(2, "method")]
    args = e.choose(4, "args")
    defaults = e.choose(args + 1, "defaults")
    var = e.choose(2, "var") == 1
    n = e.choose(5, "keys")
    keys = [f"k{i}" for i in range(n)]
    form = "list"
    given = keys
    if n == 1 and e.choose(2, "scalar"):
        given = keys[0]
    if n == 0 and e.choose(2, "none"):
        given = None
    other = {"setup": "next", "next": "setup"}[which]
    K = type("K", (Task,), {which: _sig(args, defaults, var, which), other: _sig(0, 0, False, other)})
    t = K()
    e.cover("pre")
    ok = args - defaults <= n and (var or n <= args)
    try:
        t._setup_keys(**({"in_": None, "requires": given} if which == "setup" else {"in_": given, "requires": None}), out="o")
        got = True
    except CaputConfigError:
        got = False
    e.prove(f"counts:{which}:accepted-iff-it-fits", _B(got == ok))
    if got:
        r, i = (n, 0) if which == "setup" else (0, n)
        e.prove("counts:one-slot-per-key", _B(len(t._requires) == r and len(t._in) == i and all(x is None for x in t._requires)
                                                and list(t._requires_keys) == (keys if r else []) and list(t._in_keys) == (keys if i else [])))


def p_params(e):
    """Parameters: shared groups in the order listed, later ones win; inline ones as they are."""
    from caput import config
    from caput.pipeline import _pipeline as pl

    groups = {"g1": {}, "g2": {}, "g3": {}}
    for g in groups:
        for k in ("x", "y"):
            if e.choose(2, g + k):
                groups[g][k] = SVal(z3.Const(f"{g}_{k}", U))
    mode = e.choose(5, "mode")
    order = [["g1"], ["g1", "g2"], ["g2", "g1"], ["g1", "g3", "g2"], None][mode]
    got = {}

    class K(pl.Task):
        @classmethod
        def _from_config(cls, conf):
            got.update(conf)
            return cls()

    pl.local_tasks["K"] = K
    try:
        m = pl.Manager()
        m.all_params = dict(groups)
        m.all_tasks_params = {"versions": {}, "pipeline_config": None}
        spec = {"type": "K", "params": dict(groups["g1"]) if order is None else (order[0] if len(order) == 1 and e.choose(2, "scalar") else list(order))}
        missing = order is not None and e.choose(2, "missing") == 1
        if missing:
            spec["params"] = [*order, "nope"]
        keep = {g: dict(v) for g, v in groups.items()}
        e.cover("pre")
        try:
            t = m._get_task_from_spec(spec)
            err = False
        except config.CaputConfigError:
            err = True
        e.prove("params:refused-iff-a-group-is-missing", _B(err == missing))
        e.prove("params:groups-not-modified", _B(all(set(m.all_params[g]) == set(keep[g]) and all(m.all_params[g][k] is keep[g][k] for k in keep[g]) for g in keep)))
        if err:
            return
        want = {"versions": {}, "pipeline_config": None}
        for g in order or ["g1"]:
            want.update(groups[g])
        e.prove("params:exactly-the-merged-ones", _B(set(got) == set(want)))
        for k in ("x", "y"):
            if k in want:
                e.prove("params:later-groups-win", SBool(got[k].z == want[k].z) if k in got else _B(False))
        e.prove("params:right-class", _B(type(t) is K))
    finally:
        pl.local_tasks.pop("K", None)


def p_keys(e):
    """Every input and requirement is produced, every key only once."""
    from caput.config import CaputConfigError
    from caput.pipeline._pipeline import Manager

    specs, outs, uses = [], [], []
    for t in range(3):
        s = {"type": "K"}
        o = e.choose(4, f"out{t}")
        if o == 1:
            s["out"] = "a"
        elif o == 2:
            s["out"] = ["a", "b"]
        elif o == 3:
            s["out"] = None
        outs += [[], ["a"], ["a", "b"], []][o]
        u = e.choose(4, f"use{t}")
        if u == 1:
            s["in"] = "b"
        elif u == 2:
            s["in"] = ["a", "b"]
        elif u == 3:
            s["requires"] = ["a"]
            s["in"] = None
        uses += [[], ["b"], ["a", "b"], ["a"]][u]
        specs.append(s)
    m = Manager()
    m.__dict__["task_specs"] = specs
    e.cover("pre")
    ok = len(set(outs)) == len(outs) and set(uses) <= set(outs)
    try:
        m._validate_task_inputs()
        got = True
    except CaputConfigError:
        got = False
    e.prove("keys:accepted-iff-produced-once-and-not-missing", _B(got == ok))


_T = "caput.pipeline._pipeline.Task."
_M = "caput.pipeline._pipeline.Manager."
PROOFS = [
    Proof("counts", p_counts, [_T + "_setup_keys", "caput.pipeline._pipeline._format_product_keys"], covers=["pre"], bound="signatures with up to three arguments, up to four keys"),
    Proof("params", p_params, [_M + "_get_task_from_spec"], covers=["pre"], bound="up to three parameter groups with two names (values unbounded)"),
    Proof("keys", p_keys, [_M + "_validate_task_inputs"], covers=["pre"], bound="three tasks, two keys"),
]


# ---------------------------------------------------------------- run time
SIGS = [("none", 0, 0, False), ("one", 1, 0, False), ("two", 2, 0, False), ("opt", 1, 1, False), ("oneopt", 2, 1, False), ("var", 0, 0, True),
        ("onevar", 1, 0, True), ("threeopt", 3, 2, False)]


def _fits(sig, n):
    _, a, d, v = SIGS[sig]
    return a - d <= n and (v or n <= a)


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4])
    specs, keys = [], []
    for t in range(n):
        nin = rng.choice([0, 0, 1, 1, 2, 3]) if keys else 0
        nrq = rng.choice([0, 0, 0, 1, 2]) if keys else 0
        si = rng.choice([k for k in range(len(SIGS)) if _fits(k, nin)])
        sr = rng.choice([k for k in range(len(SIGS)) if _fits(k, nrq)])
        out = [f"k{t}{c}" for c in "ab"[: rng.choice([0, 1, 1, 2])]]
        specs.append({"next": si, "setup": sr, "in": [rng.choice(keys) for _ in range(nin)], "requires": [rng.choice(keys) for _ in range(nrq)], "out": out,
                      "params": rng.choice([None, None, "inline", "inline", "group", "groups", "groups2"]), "style": rng.choice(["scalar", "list", "null"]),
                      "import": rng.choice([True, False, False])})
        keys += out
    fault = rng.choice([None, None, None, "missing_in", "missing_req", "dup", "dup_in_task", "few", "many", "few_req", "many_req", "badtype", "badmodule", "noattr", "notype", "extra",
                        "nogroup", "badparam", "wrongparam", "nonstr", "nopipeline", "notype_missing", "fewboth"])
    return {"specs": specs, "fault": fault, "at": rng.randrange(n), "keyed": rng.random() < 0.5, "pick": rng.randrange(100)}


CLS = '''
from caput.pipeline import Task
from caput import config
calls = []
def _mk(name, s, n):
    def f(self, *a):
        calls.append(name)
    ns = {}
    exec(f"def setup(self, {s}):\\n    import contracts_p15_mod as m; m.calls.append('setup')\\ndef next(self, {n}):\\n    import contracts_p15_mod as m; m.calls.append('next')\\n", ns)
    return type(name, (Task,), {"setup": ns["setup"], "next": ns["next"], "num": config.Property(proptype=int, default=5), "word": config.Property(proptype=str, default="w"), "seq": config.Property(proptype=list, default=[])})
'''


def check(c):
    import sys
    import types

    import yaml

    from caput import config
    from caput.pipeline import Manager
    from caput.pipeline import _pipeline as pl

    def sig(k):
        _, a, d, v = SIGS[k]
        return ", ".join([f"a{i}" + ("=None" if i >= a - d else "") for i in range(a)] + (["*rest"] if v else []))

    mod = types.ModuleType("contracts_p15_mod")
    exec(CLS, mod.__dict__)
    sys.modules["contracts_p15_mod"] = mod
    specs, expect = [], []
    doc = {"pipeline": {"tasks": specs}, "g1": {"num": 11}, "g2": {"word": "z", "num": 12}, "g3": {"seq": [1, 2]}}
    names = []
    f, at = c["fault"], c["at"]
    try:
        for t, d in enumerate(c["specs"]):
            K = mod._mk(f"K{t}", sig(d["setup"]), sig(d["next"]))
            setattr(mod, f"K{t}", K)
            pl.local_tasks[f"K{t}"] = K
            names.append(f"K{t}")
            s = {"type": f"contracts_p15_mod.K{t}" if d["import"] else f"K{t}"}
            for key in ("in", "out", "requires"):
                v = list(d[key])
                if len(v) == 1 and d["style"] == "scalar":
                    s[key] = v[0]
                elif v:
                    s[key] = v
                elif d["style"] == "null":
                    s[key] = None
                elif d["style"] == "list":
                    s[key] = []
            p = {"num": 5, "word": "w", "seq": []}
            if d["params"] == "inline":
                s["params"] = {"num": 7 + t, "limit_outputs": 3}
                p["num"] = 7 + t
            elif d["params"] == "group":
                s["params"] = "g2"
                p.update(doc["g2"])
            elif d["params"] == "groups":
                s["params"] = ["g1", "g2", "g3"]
                p.update(doc["g1"]), p.update(doc["g2"]), p.update(doc["g3"])
            elif d["params"] == "groups2":
                s["params"] = ["g2", "g1"]
                p.update(doc["g2"]), p.update(doc["g1"])
            expect.append(p)
            specs.append(s)
        bad = False
        s = specs[at]
        lst = lambda k: ([] if s.get(k) is None else list(s[k]) if isinstance(s[k], list) else [s[k]])
        sn, ss = c["specs"][at]["next"], c["specs"][at]["setup"]
        some = [k for x in c["specs"] for k in x["out"]]
        if f == "missing_in" and _fits(sn, len(lst("in")) + 1):
            v = lst("in")
            v.insert(c["pick"] % (len(v) + 1), "nobody")
            s["in"] = v if len(v) > 1 or c["pick"] % 2 else v[0]
            bad = True
        elif f == "missing_req" and _fits(ss, len(lst("requires")) + 1):
            v = lst("requires")
            v.insert(c["pick"] % (len(v) + 1), "nobody")
            s["requires"] = v
            bad = True
        elif f == "dup" and some:
            k = some[c["pick"] % len(some)]
            s["out"] = [*lst("out"), k] if c["keyed"] else k
            others = [x for j, q in enumerate(specs) if j != at for x in (q.get("out") if isinstance(q.get("out"), list) else [q.get("out")] if q.get("out") else [])]
            if k not in others and not c["keyed"]:
                s["out"] = ["q1", "q2", "q1"]
            bad = True
        elif f == "dup_in_task":
            s["out"] = ["q1", "q1"]
            bad = True
        elif f in ("few", "few_req"):
            kind, si = ("in", sn) if f == "few" else ("requires", ss)
            v = lst(kind)
            if v and not _fits(si, len(v) - 1):
                s[kind] = v[:-1] or None
                bad = True
        elif f in ("many", "many_req") and some:
            kind, si = ("in", sn) if f == "many" else ("requires", ss)
            v = lst(kind) + [some[0]]
            if not _fits(si, len(v)):
                s[kind] = v
                bad = True
        elif f == "badtype":
            s["type"] = ["Nowhere", "", 3][c["pick"] % 3]
            bad = True
        elif f == "badmodule":
            s["type"] = ["no_such_module_x.K", "contracts_p15_mod.sub.K"][c["pick"] % 2]
            bad = True
        elif f == "noattr":
            s["type"] = "contracts_p15_mod.Missing"
            bad = True
        elif f == "notype":
            del s["type"]
            bad = True
        elif f == "notype_missing" and _fits(sn, len(lst("in")) + 1):
            del s["type"]
            s["in"] = [*lst("in"), "nobody"]
            bad = True
        elif f == "extra":
            s[["inn", "input", "Type", "output", "in_"][c["pick"] % 5]] = "k"
            bad = True
        elif f == "nogroup":
            s["params"] = "g9" if c["keyed"] else ["g1", "g9"]
            bad = True
        elif f == "badparam":
            s["params"] = {"num": 1, "numm": 2}
            bad = True
        elif f == "wrongparam":
            s["params"] = {"num": ["x", [1], {}][c["pick"] % 3]}
            bad = True
        elif f == "nonstr":
            k = ["out", "in", "requires"][c["pick"] % 3]
            s[k] = 3 if c["keyed"] else [*lst(k), 3]
            bad = True
        elif f == "nopipeline":
            doc = [{"tasks": specs}, {"pipeline": specs}, {"pipelines": {"tasks": specs}}, [], None, {"pipeline": None}][c["pick"] % 6]
            bad = True
        for wired in specs:
            pass
        try:
            m = Manager.from_yaml_str(yaml.safe_dump(doc))
            err = None
        except config.CaputConfigError as e:
            err = e
        except Exception as e:  # noqa: BLE001
            return f"{'mis-wired' if bad else 'well-wired'} pipeline ({f}): {type(e).__name__}: {e}"
        if mod.calls:
            return f"task methods were called: {mod.calls}"
        if bad and not err:
            return f"accepted a pipeline with fault {f} at task {at}: {specs[at]}"
        if not bad and err:
            return f"rejected a good pipeline: {err}; {err.__cause__}; {getattr(err.__cause__, '__cause__', '')}"
        if err:
            return None
        if len(m.tasks) != len(specs):
            return f"{len(m.tasks)} tasks for {len(specs)} entries"
        for t, (task, p, d) in enumerate(zip(m.tasks, expect, c["specs"])):
            if type(task).__name__ != f"K{t}":
                return f"task {t} is {type(task)}"
            got = {k: getattr(task, k) for k in p}
            if got != p:
                return f"task {t} parameters {got}, expected {p}"
            if task.limit_outputs != (3 if d["params"] == "inline" else None):
                return f"task {t} limit {task.limit_outputs}"
        return None
    finally:
        for nm in names:
            pl.local_tasks.pop(nm, None)
        sys.modules.pop("contracts_p15_mod", None)


FALSIFIERS = [Falsifier("configs", gen, check, n=700, thorough=15000)]

"""Random task graphs, the data-flow (Kahn network) reference, and a run of the real pipeline."""


def gen_graph(rng, i, small=False):
    """Tasks in a topological order; streams are finite; keys produced at most once per config."""
    n = rng.choice([1, 2, 3, 4, 5, 6] if not small else [1, 2, 3])
    tasks = []
    keys = []  # (key, producer)
    for t in range(n):
        avail = [k for k, _ in keys]
        nin = rng.choice([0, 0, 1, 1, 1, 2, 3]) if avail else 0
        in_ = [rng.choice(avail) for _ in range(nin)]
        nout = rng.choice([0, 1, 1, 1, 2])
        out = [f"k{t}{c}" for c in "ab"[:nout]]
        tasks.append({
            "in": in_, "in_style": rng.choice(["list", "scalar"]) if nin == 1 else "list",
            "out": out, "out_style": rng.choice(["list", "scalar"]) if nout == 1 else "list",
            "requires": [],
            "setup_out": rng.random() < 0.15, "finish_out": rng.random() < 0.3,
            "skip": sorted({rng.randrange(6) for _ in range(rng.choice([0, 0, 0, 1, 3]))}),  # next calls returning None
            "stop": rng.randrange(0, 5),  # for tasks without inputs: number of successful calls
            "limit": rng.choice([None, None, None, 1, 2, 3]),
            "prio": rng.choice([0, 0, 0, 3, -3, 100, -100]),
            "passthru": rng.random() < 0.15,
        })
        keys += [(k, t) for k in out]
    ref = reference(tasks)
    # requirements: keys that are produced at most once (unknown before the streams are)
    for t in range(n):
        single = [k for k, p in keys if p < t and len(ref["streams"][k]) <= 1]
        if single and rng.random() < 0.5:
            tasks[t]["requires"] = [rng.choice(single) for _ in range(rng.choice([1, 1, 2]))]
            ref = reference(tasks)
    # a task that takes inputs only ends early if nothing arrives afterwards
    for t in tasks:
        if t["in"]:
            m = min(len(ref["streams"][k]) for k in t["in"])
            produced = m - len([s for s in t["skip"] if s < m])
            if max(len(ref["streams"][k]) for k in t["in"]) > m or (t["limit"] is not None and t["limit"] < produced):
                t["limit"] = None
            if t["limit"] is not None and any(s >= 0 for s in t["skip"]):
                t["limit"] = None
            if rng.random() < 0.2 and m and max(len(ref["streams"][k]) for k in t["in"]) == m and t["limit"] is None:
                t["stop_in"] = m - 1  # ends itself on the last set of inputs
            ref = reference(tasks)
    # keep the requirement condition true after those changes
    for t in tasks:
        if any(len(ref["streams"][k]) > 1 for k in t["requires"]):
            t["requires"] = []
            ref = reference(tasks)
    order = list(range(n))
    # another topological listing
    if rng.random() < 0.5:
        order = []
        left = list(range(n))
        while left:
            prod = {k for t in order for k in tasks[t]["out"]}
            ok = [t for t in left if all(k in prod for k in tasks[t]["in"] + tasks[t]["requires"])]
            x = rng.choice(ok)
            order.append(x)
            left.remove(x)
    return {"tasks": tasks, "order": order, "opaque": rng.random() < 0.3}


def _prod(t, what, outs, args=None):
    return [f"{what}:{t}:{k}" for k in outs]


def reference(tasks):
    """Streams per key and call log per task, computed task by task."""
    streams, logs = {}, []
    for t, d in enumerate(tasks):
        log = []
        out = {k: [] for k in d["out"]}

        def emit(what, args=()):
            vals = [args[0]] * len(d["out"]) if d["passthru"] and args else _prod(t, what, d["out"])
            for k, v in zip(d["out"], vals):
                out[k].append(v)

        reqs = [streams[k] for k in d["requires"]]
        if all(len(r) for r in reqs):
            log.append(["setup", [r[0] for r in reqs]])
            if d["setup_out"]:
                emit("s")
            count = 0
            if d["in"]:
                m = min(len(streams[k]) for k in d["in"])
            else:
                m = d["stop"] + 1
            for c in range(m):
                args = [streams[k][c] for k in d["in"]]
                log.append(["next", args])
                if (not d["in"] and c == d["stop"]) or d.get("stop_in") == c:
                    break
                if c in d["skip"]:
                    continue
                emit(f"n{c}", args)
                count += 1
                if d["limit"] is not None and count >= d["limit"]:
                    break
        log.append(["finish", []])
        if d["finish_out"]:
            emit("f")
        streams.update(out)
        logs.append(log)
    return {"streams": streams, "logs": logs}


class Opaque:
    """A product whose comparison has no truth value, like an array."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        raise ValueError("the truth value of a comparison is ambiguous")

    __hash__ = None

    def __len__(self):
        return 1

    def __bool__(self):
        raise ValueError("ambiguous")


def _plain(args):
    return [a.v if isinstance(a, Opaque) else a for a in args]


def spec(d, name):
    s = {"type": name}

    def put(key, keys, style):
        if keys:
            s[key] = keys[0] if style == "scalar" else list(keys)

    put("in", d["in"], d["in_style"])
    put("out", d["out"], d["out_style"])
    put("requires", d["requires"], "list")
    p = {}
    if d["limit"] is not None:
        p["limit_outputs"] = d["limit"]
    if d["prio"]:
        p["base_priority"] = d["prio"]
    if p:
        s["params"] = p
    return s


def run(c):
    """Run the real pipeline on a case; returns the call log of every task."""
    import yaml

    from caput.pipeline import Manager, Task
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline import _pipeline as pl

    tasks = c["tasks"]
    logs = [[] for _ in tasks]

    wrap = Opaque if c.get("opaque") else (lambda v: v)

    def make(t, d):
        def value(what, args=()):
            vals = [args[0]] * len(d["out"]) if d["passthru"] and args else [wrap(v) for v in _prod(t, what, d["out"])]
            if not vals:
                return "ignored"
            return vals[0] if len(vals) == 1 and d["out_style"] == "scalar" else tuple(vals)

        def setup(self, *req):
            logs[t].append(["setup", _plain(req)])
            return value("s") if d["setup_out"] else None

        def nxt(self, *args):
            i = sum(1 for m, _ in logs[t] if m == "next")
            logs[t].append(["next", _plain(args)])
            if i > 60:
                raise RuntimeError("runaway task")
            if (not d["in"] and i == d["stop"]) or d.get("stop_in") == i:
                raise PipelineStopIteration
            if i in d["skip"]:
                return None
            return value(f"n{i}", args)

        def finish(self):
            logs[t].append(["finish", []])
            if sum(1 for m, _ in logs[t] if m == "finish") > 5:
                raise RuntimeError("finish repeats")
            return value("f") if d["finish_out"] else None

        return type(f"T{t}", (Task,), {"setup": setup, "next": nxt, "finish": finish})

    names = []
    for t, d in enumerate(tasks):
        pl.local_tasks[f"T{t}"] = make(t, d)
        names.append(f"T{t}")
    doc = {"pipeline": {"tasks": [spec(tasks[t], names[t]) for t in c["order"]]}}
    try:
        m = Manager.from_yaml_str(yaml.safe_dump(doc))
        if c.get("interactive"):
            m.interactive = True
            for steps, _ in enumerate(m.runner()):
                if steps > 3000:
                    return None, "does not end"
        else:
            m.run()
    finally:
        for nm in names:
            pl.local_tasks.pop(nm, None)
    return logs, [x for x in m.tasks if x is not None]

"""Queued pipeline jobs leave earlier jobs alone and are what was configured."""

from pv.api import *

LEVEL = "proof"
ASSUMPTIONS = [
    "pathlib, open, mkdir and copyfile act on the file system as documented; other processes do not touch the job directory while the job is prepared",
    "str.format, os.path.expandvars, yaml and toml of the Python libraries",
]
RULE = "random queue systems, job settings, prior job directories and overwrite policies in a scratch directory, with a recording program in place of the scheduler"

S_ = "caput/pipeline/runner/_scheduler/__init__.py:"
C_ = "caput/pipeline/runner/_core.py:"

BASE = {"name": "job", "nodes": 2, "time": 60, "ompnum": 3, "pernode": 4, "ppn": 8, "queue": "q", "mem": "4G", "account": "acc"}


# ---------------------------------------------------------------- proofs
class _World:
    """A file system below one root: what exists is symbolic, what is written is recorded."""

    ROOT = "/pv-fake"

    def __init__(self, e):
        self.e = e
        self.facts = {}
        self.effects = []
        self.written = {}

    def fact(self, k):
        if k not in self.facts:
            self.facts[k] = Bool("fact:" + k)
        return self.facts[k]

    def mine(self, p):
        return str(p).startswith(self.ROOT)

    def exists(self, p):
        p = str(p)
        if p in self.written:
            return True
        if p.endswith("/job"):
            return bool(self.fact(p))
        if p.endswith("/job/STATUS"):
            return bool(self.fact(p[:-7])) and bool(self.fact(p))
        if p.endswith("/venv/bin/activate"):
            return bool(self.fact(p))
        raise NotImplementedError(f"existence of {p}")

    def contents(self, p):
        w = self

        class Contents(str):
            def __contains__(self, x):
                if str(x) != "FINISHED":
                    raise NotImplementedError("contents of STATUS")
                return bool(w.fact("FINISHED:" + str(p)))

        return Contents("?")

    def put(self, kind, p, what=None):
        self.effects.append((kind, str(p), what))
        self.written[str(p)] = what


def _install(e, w):
    import builtins
    import os
    import pathlib
    import shutil
    import subprocess

    from caput.pipeline.runner import _core, _scheduler as sch

    class FakePath(pathlib.PurePosixPath):
        def expanduser(self):
            s = str(self)
            return FakePath(w.ROOT + "/home" + s[1:]) if s.startswith("~") else self

        def resolve(self, strict=False):
            return self if self.is_absolute() else FakePath(w.ROOT + "/cwd") / self

        absolute = resolve

        def exists(self):
            return w.exists(self)

        def is_dir(self):
            return w.exists(self) and not str(self).endswith("STATUS")

        def is_file(self):
            return w.exists(self) and str(self).endswith("STATUS")

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if w.exists(self):
                if not exist_ok:
                    raise FileExistsError(str(self))
                return
            if not parents:
                raise NotImplementedError("mkdir without parents")
            w.put("mkdir", self)

        def read_text(self, *a, **k):
            return w.contents(self)

        def write_text(self, s, *a, **k):
            w.put("write", self, s)

    class Writer:
        def __init__(self, p):
            self.p, self.s = p, ""

        def __enter__(self):
            return self

        def __exit__(self, *a):
            w.put("write", self.p, self.s)
            return False

        def write(self, s):
            self.s += s

    class Reader(Writer):
        def __exit__(self, *a):
            return False

        def read(self):
            return w.contents(self.p)

    def fopen(p, mode="r", *a, **k):
        if not w.mine(p):
            raise NotImplementedError("open " + str(p))
        return Reader(p) if mode == "r" else Writer(p)

    def run(cmd, *a, **k):
        w.effects.append(("run", list(cmd), str(k.get("cwd"))))

    sch.__dict__["Path"] = FakePath
    sch.__dict__["open"] = fopen
    for m in ("copyfile", "copy", "copy2"):
        setattr(shutil, m, lambda s, d, **k: w.put("copy", d, str(s)))
    for m in ("run", "check_call", "call", "check_output"):
        setattr(subprocess, m, run)
    os.environ["PV_ROOT"] = w.ROOT
    return sch, _core


def p_queue(e):
    """Every prior state of the job directories, policy and fault: what is left alone, what is written, and when nothing is."""
    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    w = _World(e)
    sch, core = _install(e, w)
    policy = ("never", "failed", "always")[e.choose(3, "overwrite")]
    temp = e.choose(2, "temp_directory") == 1
    fault = ("", "missing", "mail", "venv", "format", "system")[e.choose(6, "fault")]
    submit, mail, venv = Bool("submit"), e.choose(2, "email") == 1 or fault == "mail", e.choose(2, "venv") == 1 or fault == "venv"
    sch.REGISTERED_SYSTEMS["sys"] = {
        "command": "thecmd", "required": ["name", "directory", "nodes", "pernode"],
        "script": "{name:s} {nodes:d} {mpiproc:d} {workdir:s} {finaldir:s} {statuspath:s} {configpath:s} {usetemp:d} {venv:s}",
        "mail": {"types": ["END"], "options": "--to={email} --on={mailtype}"},
    }
    conf = {**BASE, "system": "sys", "directory": "$PV_ROOT/final"}
    if temp:
        conf["temp_directory"] = "~/temp"
    if venv:
        conf["venv"] = w.ROOT + "/venv"
    if fault == "missing":
        del conf["name"]
    if fault == "format":
        conf["name"] = 3
    if fault == "system":
        conf["system"] = "unknown"
    import caput.pipeline.runner._core as core_mod

    core_mod._load_config = lambda f: {"cluster": conf}
    linted = []
    core_mod.lint_config = lambda f: linted.append(f)
    venv_ok = w.fact(w.ROOT + "/venv/bin/activate") if venv else T
    work = w.ROOT + "/home/temp" if temp else w.ROOT + "/final"
    final = w.ROOT + "/final"
    e.cover("pre")
    failed = False
    try:
        sch.queue(w.ROOT + "/in.yaml", submit=submit, overwrite=policy, email="me" if mail else None,
                  mailtype=("NO" if fault == "mail" else "END") if mail else None)
    except (ValueError, KeyError, TypeError):
        failed = True
    left = F
    for d in {work, final}:
        j = w.fact(d + "/job")
        fin = SBool(z3.And(j.z, w.fact(d + "/job/STATUS").z, w.fact("FINISHED:" + d + "/job/STATUS").z))
        left = SBool(z3.Or(left.z, {"never": j.z, "failed": fin.z, "always": F.z}[policy]))
    bad = SBool(z3.Not(venv_ok.z)) if fault == "venv" or venv else F
    bad = T if fault not in ("", "venv") else bad
    early = fault in ("missing", "system")
    e.prove("queue:refused-iff-at-fault", bad if failed else SBool(z3.Or(z3.Not(bad.z), z3.And(left.z, z3.BoolVal(not early)))))
    if failed:
        e.prove("queue:nothing-is-written-when-refused", T if not w.effects else F)
        return
    if not w.effects:
        e.prove("queue:left-alone-only-if-the-policy-says-so", left)
        return
    e.prove("queue:an-earlier-job-is-left-alone", ~left)
    puts = {p: (k, what) for k, p, what in w.effects if k != "run"}
    job = work + "/job"
    e.prove("queue:only-the-job-directory-is-written", T if all(p == job or p in (job + "/config.yaml", job + "/jobscript.sh") for p in puts) else F)
    if job not in puts:
        e.prove("queue:the-job-directory-exists", w.fact(job))
    e.prove("queue:the-configuration-is-copied", T if puts.get(job + "/config.yaml") == ("copy", w.ROOT + "/in.yaml") else F)
    v = w.ROOT + "/venv/bin/activate" if venv else "/dev/null"
    want = f"job 2 8 {work} {final} {job}/STATUS {job}/config.yaml {int(temp)} {v}"
    e.prove("queue:the-script-is-the-filled-template", T if puts.get(job + "/jobscript.sh") == ("write", want) else F)
    runs = [x for x in w.effects if x[0] == "run"]
    e.prove("queue:submitted-iff-asked", submit if len(runs) == 1 else ~submit if not runs else F)
    if runs:
        opts = ["--to=me", "--on=END"] if mail else []
        e.prove("queue:submitted-last-and-as-configured", T if w.effects[-1] is runs[0] and runs[0] == ("run", ["thecmd", *opts, "jobscript.sh"], job) else F)
    e.prove("queue:linted-first", T if linted == [w.ROOT + "/in.yaml"] else F)


def p_settings(e):
    """A configuration is accepted iff its system is known and has every required setting (any subset of three)."""
    from caput.pipeline.runner import _scheduler as sch

    T, F = SBool(z3.BoolVal(True)), SBool(z3.BoolVal(False))
    keys = ("a", "b", "c")
    req = [k for k in keys if e.choose(2, "required-" + k)]
    have = [k for k in keys if e.choose(2, "given-" + k)]
    name = ("sys", "old", "none")[e.choose(3, "system")]
    sch.REGISTERED_SYSTEMS["sys"] = {"command": "c", "script": "s", "required": req}
    sch.REGISTERED_CLUSTERS["old"] = "sys"
    cl = {"system": name, **{k: "v" + k for k in have}}
    e.cover("pre")
    try:
        r = sch._resolve_system_config({"cluster": dict(cl)})
    except ValueError:
        e.prove("settings:refused-only-if-unknown-or-missing", T if name == "none" or not set(req) <= set(have) else F)
        return
    e.prove("settings:accepted-only-if-known-and-complete", T if name != "none" and set(req) <= set(have) else F)
    e.prove("settings:the-settings-are-kept", T if {**r, "system": "sys"} == {**cl, "system": "sys"} else F)
    e.prove("settings:the-system-is-resolved", T if r["system"] == "sys" else F)


PROOFS = [
    Proof("queue", p_queue, [S_ + "queue", S_ + "_resolve_system_config", S_ + "_resolve_job_directories", S_ + "_resolve_job_script", S_ + "_create_job_environment_strings", S_ + "_expand_path"],
          assumes=["the configuration file parses to the given settings", "STATUS exists only inside an existing job directory"]),
    Proof("settings", p_settings, [S_ + "_resolve_system_config"], bound="systems with up to three required settings"),
]


# ---------------------------------------------------------------- falsifiers
_SCRIPT = ("#!/bin/sh\nname {name:s} {time:s}\nproc {nodes:d} {pernode:d} {mpiproc:d}\n{modules:s}\nsource {venv:s}\ncd {workdir:s}\n"
           "{invoke:s} {invoke_args:s} run {profile:s} {profiler:s} {psutil:s} {configpath:s} > {logpath:s}\n{statuspath:s}\nif {usetemp:d} mv {workdir:s} {finaldir:s} {{}}\n")


def gen_queue(rng, i):
    sysn = rng.choice(["mine", "mine", "mine", "plain", "slurm", "pbs", "cedar", "gpc", "nosuch"])
    drop = rng.choice([None, None, None, None, "name", "nodes", "directory", "pernode", "ompnum", "account", "ppn", "mem", "queue", "time", "system", "cluster"])
    return {
        "system": sysn, "drop": drop, "policy": rng.choice(["never", "failed", "always"]),
        "dir": rng.choice(["$PV_D/out", "${PV_D}/x/out", "~/out", "{abs}/out", "{abs}/a b"]),
        "temp": rng.choice([None, None, "$PV_D/tmp/t", "~/t", "{abs}/out", "{abs}/o2"]),
        "prior": {k: rng.choice([None, None, "empty", "FINISHED\n", "RUNNING\n", "CRASHED\n", "FAILED\n"]) for k in ("work", "final")},
        "venv": rng.choice([None, None, "$PV_D/venv", "~/venv", "{abs}/novenv"]),
        "mods": rng.choice([None, None, "m1", ["m1", "m2/3.4"], []]), "modpath": rng.choice([None, None, "/p", ["/p", "/q"]]),
        "invoke": rng.choice([None, None, "myrun"]), "args": rng.choice([None, None, "-n {mpiproc:d}", "-x"]),
        "mail": rng.choice([None, None, ["a@b", "END"], ["a@b", "NOPE"], ["a@b", "abe"], ["a@b", None]]),
        "submit": rng.random() < 0.6, "profile": rng.choice([None, None, "", "pyinstrument"]), "psutil": rng.random() < 0.3,
        "lint": rng.choice([None, None, None, "good", "bad"]), "inplace": rng.random() < 0.1, "time": rng.choice(["1:00:00", 30, "10:00"]),
        "odd": rng.choice([None] * 8 + ["nodes", "name"]),
    }


def _snapshot(d):
    import os

    out = {}
    for r, ds, fs in os.walk(d):
        out[r] = None
        for f in fs:
            p = os.path.join(r, f)
            out[p] = open(p).read() if os.path.isfile(p) else "?"
    return out


def check_queue(c):
    import logging
    import os
    import shutil
    import stat
    import sys
    import tempfile

    import yaml

    from caput.pipeline.runner import _scheduler as sch

    logging.disable(logging.CRITICAL)
    d = os.path.realpath(tempfile.mkdtemp(prefix="pv27"))
    env, cwd, systems, mails = dict(os.environ), os.getcwd(), dict(sch.REGISTERED_SYSTEMS), list(sch.MAIL_TYPES)
    try:
        os.environ.update(PV_D=d, HOME=d + "/home", PATH=d + "/bin:" + env.get("PATH", ""))
        for x in ("home", "bin", "log"):
            os.mkdir(f"{d}/{x}")
        for x in ("mysub", "sbatch", "qsub"):
            with open(f"{d}/bin/{x}", "w") as f:
                f.write(f'#!/bin/sh\nfor a in "$0" "$PWD" "$@"; do echo "$a" >> {d}/log/calls; done\ncp jobscript.sh {d}/log/seen\n')
            os.chmod(f"{d}/bin/{x}", stat.S_IRWXU)
        for h in ("venv", "home/venv"):
            os.makedirs(f"{d}/{h}/bin")
            os.makedirs(f"{d}/{h}/lib/python{sys.version_info[0]}.{sys.version_info[1]}/site-packages")
            open(f"{d}/{h}/bin/activate", "w").close()
        tom = (f"[mine]\ncommand = \"mysub\"\ninvoke = \"go\"\ninvoke_args = \"-N {{nodes:d}}\"\nrequired = [\"name\", \"nodes\", \"pernode\", \"directory\", \"time\"]\nscript = '''{_SCRIPT}'''\n"
               f"[mine.mail]\ntypes = [\"END\", \"ALL\"]\noptions = \"-u {{email}} -t {{mailtype}}\"\n"
               f"[plain]\ncommand = \"mysub\"\nscript = '''{_SCRIPT}'''\n")
        with open(f"{d}/log/s.toml", "w") as f:
            f.write(tom)
        sch.register_system(f"{d}/log/s.toml")
        ex = lambda p: p.replace("{abs}", d).replace("${PV_D}", d).replace("$PV_D", d).replace("~", d + "/home")
        conf = {**BASE, "system": c["system"], "directory": c["dir"].replace("{abs}", d), "time": c["time"]}
        if c["temp"] is not None:
            conf["temp_directory"] = c["temp"].replace("{abs}", d)
        if c["venv"]:
            conf["venv"] = c["venv"].replace("{abs}", d)
        for k, n in (("mods", "module_list"), ("modpath", "module_path"), ("invoke", "invoke"), ("args", "invoke_args")):
            if c[k] is not None:
                conf[n] = c[k]
        if c["odd"] == "nodes":
            conf["nodes"] = "two"
        if c["odd"] == "name":
            conf["name"] = 7
        if c["drop"] in conf:
            del conf[c["drop"]]
        final = ex(c["dir"])
        work = ex(c["temp"]) if c["temp"] is not None else final
        for k, p in (("work", work), ("final", final)):
            st = c["prior"][k]
            if st is not None:
                os.makedirs(p + "/job", exist_ok=True)
                with open(p + "/job/old", "w") as f:
                    f.write("old " + k)
                if st != "empty":
                    with open(p + "/job/STATUS", "w") as f:
                        f.write(st)
        tasks = [] if c["lint"] != "bad" else [{"type": "no.such.Task"}]
        full = {"pipeline": {"tasks": tasks}, "cluster": conf}
        if c["drop"] == "cluster":
            del full["cluster"]
        cfg = f"{d}/log/cfg.yaml"
        if c["inplace"]:
            os.makedirs(work + "/job", exist_ok=True)
            cfg = work + "/job/config.yaml"
        text = "# kept\n" + yaml.safe_dump(full)
        with open(cfg, "w") as f:
            f.write(text)
        before = _snapshot(d)
        status = {p: (None if not os.path.isdir(p + "/job") else open(p + "/job/STATUS").read() if os.path.exists(p + "/job/STATUS") else "") for p in {work, final}}
        left = any(s is not None and (c["policy"] == "never" or (c["policy"] == "failed" and "FINISHED" in s)) for s in status.values())
        # what should happen
        sysn = {"cedar": "slurm", "gpc": "pbs"}.get(c["system"], c["system"])
        refuse = c["drop"] in ("cluster", "system", "directory") or sysn == "nosuch" or (c["lint"] == "bad")
        reg = sch.REGISTERED_SYSTEMS.get(sysn)
        late = False
        script = None
        if not refuse:
            req = reg.get("required", [])
            refuse = c["drop"] in req and c["drop"] is not None
        venv_bad = c["venv"] is not None and "novenv" in c["venv"]
        lint_exit = c["lint"] and venv_bad and c["drop"] != "cluster"
        if not refuse:
            mods = [c["mods"]] if isinstance(c["mods"], str) else c["mods"] or []
            paths = [c["modpath"]] if isinstance(c["modpath"], str) else c["modpath"] or []
            lines = (["module --force purge"] if mods or paths else []) + [f"module use {x}" for x in paths] + [f"module load {x}" for x in mods]
            val = {**{k: v for k, v in conf.items()}, "time": str(c["time"]), "modules": "\n".join(lines), "venv": ex(c["venv"]) + "/bin/activate" if c["venv"] else "/dev/null",
                   "workdir": work, "finaldir": final, "statuspath": work + "/job/STATUS", "configpath": work + "/job/config.yaml", "logpath": work + "/job/jobout.log",
                   "usetemp": int(work != final), "invoke": c["invoke"] or reg.get("invoke", "mpirun"), "profile": "--profile" if c["profile"] is not None else "",
                   "profiler": "--profiler=" + (c["profile"] or "cProfile") if c["profile"] is not None else "", "psutil": "--psutil" if c["psutil"] else "", "system": sysn}
            if "nodes" in conf and "pernode" in conf and not isinstance(conf["nodes"], str):
                val["mpiproc"] = conf["nodes"] * conf["pernode"]
            try:
                val["invoke_args"] = (c["args"] if c["args"] is not None else reg.get("invoke_args", "")).format(**val)
                val["mpiproc"], conf["nodes"]
                if c["drop"] == "time":
                    val.pop("time")
                script = reg["script"].format(**val)
            except (KeyError, ValueError, TypeError):
                late = True
            late = late or venv_bad
            if c["mail"] is not None and "mail" in reg and c["mail"][1] not in reg["mail"]["types"]:
                late = True
        kw = {}
        if c["mail"] is not None:
            kw.update(email=c["mail"][0], mailtype=c["mail"][1])
        if c["profile"] is not None:
            kw["profile"] = True
            if c["profile"]:
                kw["profiler"] = c["profile"]
        path0, prefix0 = list(sys.path), sys.prefix
        err = None
        try:
            sch.queue(cfg, submit=c["submit"], lint=bool(c["lint"]), psutil=c["psutil"], overwrite=c["policy"], **kw)
        except (Exception, SystemExit) as x:
            err = x
        path1 = list(sys.path)
        sys.path[:] = path0
        sys.prefix = prefix0
        if hasattr(sys, "real_prefix"):
            del sys.real_prefix
        after = _snapshot(d)
        changed = sorted(set(before) ^ set(after) | {p for p in before if p in after and before[p] != after[p]})
        if err is not None:
            if isinstance(err, (UnboundLocalError, AttributeError, NameError)):
                return f"queue failed with {type(err).__name__}: {err}"
            if changed:
                return f"the job was refused ({type(err).__name__}: {err}) but {changed[0]} was changed"
            if not (refuse or late or lint_exit):
                return f"the job was refused: {type(err).__name__}: {err}"
            return None
        if refuse or lint_exit:
            return "a job with missing or unknown settings was accepted"
        if left:
            return f"an earlier job was to be left alone but {changed[0]} was changed" if changed else None
        if late:
            return "a job with missing or invalid settings was accepted"
        if c["lint"] and c["venv"] and not any(p.startswith(ex(c["venv"]) + "/lib/") for p in path1):
            return "linting did not use the packages of the virtual environment"
        job = work + "/job"
        exp = {job + "/config.yaml": text, job + "/jobscript.sh": None}
        for p, x in exp.items():
            if p not in after:
                return f"{p} was not written"
            if x is not None and after[p] != x:
                return "the configuration copied to the job directory differs from the given one"
        strip = lambda s: [ln for ln in s.split("\n") if ln.strip()]
        if strip(after[job + "/jobscript.sh"]) != strip(script):
            return f"job script {after[job + '/jobscript.sh']!r}, expected {script!r}"
        allowed = set(exp) | {f"{d}/log/calls", f"{d}/log/seen"}
        q = job
        while len(q) > len(d):
            if q not in before:
                allowed.add(q)
            q = os.path.dirname(q)
        if set(changed) - allowed:
            return f"{sorted(set(changed) - allowed)[0]} was changed"
        called = after.get(f"{d}/log/calls")
        if (called is not None) != c["submit"]:
            return "submitted unasked" if called else "not submitted"
        if called:
            opts = reg["mail"]["options"].format(email=c["mail"][0], mailtype=c["mail"][1]).split() if c["mail"] and "mail" in reg else []
            want = [job, *opts, "jobscript.sh"]
            got = called.split("\n")[:-1]
            if got[1:] != want or os.path.basename(got[0]) != reg["command"]:
                return f"submitted with {got}, expected {want}"
            if after[f"{d}/log/seen"] != after[job + "/jobscript.sh"]:
                return "the job script was changed after it was submitted"
        return None
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        sch.REGISTERED_SYSTEMS.clear()
        sch.REGISTERED_SYSTEMS.update(systems)
        sch.MAIL_TYPES[:] = mails
        shutil.rmtree(d, ignore_errors=True)
        logging.disable(logging.NOTSET)


def gen_template(rng, i):
    n = rng.randrange(1, 4)
    vals = [[f"v{j}{k}" + rng.choice(["", "=", "-x", " y", ":"]) for k in range(rng.randrange(1, 4))] for j in range(n)]
    return {"vals": vals, "order": rng.sample(range(n), n), "queue": rng.random() < 0.6, "policy": rng.choice(["never", "failed", "always"]),
            "prior": [[rng.randrange(40), rng.choice(["FINISHED", "CRASHED"])] for _ in range(rng.randrange(0, 3))], "miss": rng.random() < 0.1}


def check_template(c):
    import itertools
    import logging
    import os
    import shutil
    import stat
    import tempfile

    from caput.pipeline.runner import _core, _scheduler as sch

    logging.disable(logging.CRITICAL)
    d = os.path.realpath(tempfile.mkdtemp(prefix="pv27"))
    systems, mails, env = dict(sch.REGISTERED_SYSTEMS), list(sch.MAIL_TYPES), dict(os.environ)
    try:
        os.mkdir(d + "/bin")
        with open(d + "/bin/mysub", "w") as f:
            f.write(f'#!/bin/sh\necho "$PWD" >> {d}/calls\n')
        os.chmod(d + "/bin/mysub", stat.S_IRWXU)
        os.environ["PATH"] = d + "/bin:" + env.get("PATH", "")
        with open(d + "/s.toml", "w") as f:
            f.write("[mine]\ncommand = \"mysub\"\nscript = \"s {name:s}\"\n")
        sch.register_system(d + "/s.toml")
        n = len(c["vals"])
        lab = ",".join(f"{{a{j}}}" for j in range(n))
        tmpl = f"# {{{{literal}}}}\npipeline:\n  tasks: []\ncluster:\n  system: mine\n  nodes: 1\n  pernode: 1\n  name: '{lab}'\n  directory: '{d}/{lab}'\n"
        if c["miss"]:
            tmpl += "x: {unknown}\n"
        with open(d + "/t.yaml", "w") as f:
            f.write(tmpl)
        var = [f"a{j}=" + ",".join(c["vals"][j]) for j in c["order"]]
        combos = [",".join(x) for x in itertools.product(*c["vals"])]
        if len(set(combos)) != len(combos):
            return None
        prior = {combos[k % len(combos)]: s for k, s in c["prior"]}
        for k, s in prior.items():
            os.makedirs(f"{d}/{k}/job")
            with open(f"{d}/{k}/job/STATUS", "w") as f:
                f.write(s)
        text = lambda k: tmpl.replace(lab, k).replace("{{literal}}", "{literal}")
        if not c["queue"]:
            seen = []
            try:
                for p in _core._from_template(d + "/t.yaml", var):
                    with open(p) as f:
                        seen.append(f.read())
                    names = p
            except (KeyError, ValueError):
                return None if c["miss"] and not seen else "a complete template was refused"
            if c["miss"]:
                return "a template with an unknown variable was accepted"
            if sorted(seen) != sorted(text(k) for k in combos):
                return f"template expanded to {seen}"
            return "temporary files are left behind" if os.path.exists(names) else None
        try:
            sch.template_queue(d + "/t.yaml", var, c["policy"])
        except (KeyError, ValueError):
            return None if c["miss"] and not os.path.exists(d + "/calls") else "a complete template was refused"
        if c["miss"]:
            return "a template with an unknown variable was accepted"
        run = [k for k in combos if not (k in prior and (c["policy"] == "never" or (c["policy"] == "failed" and prior[k] == "FINISHED")))]
        got = open(d + "/calls").read().split("\n")[:-1] if os.path.exists(d + "/calls") else []
        if sorted(got) != sorted(f"{d}/{k}/job" for k in run):
            return f"submitted {got}, expected the jobs {run}"
        for k in combos:
            p = f"{d}/{k}/job/config.yaml"
            if (k in run) != os.path.exists(p):
                return f"job {k}: configuration " + ("missing" if k in run else "written unasked")
            if k in run and open(p).read() != text(k):
                return f"job {k}: configuration {open(p).read()!r}"
            if k in run and open(f"{d}/{k}/job/jobscript.sh").read() != "s " + k:
                return f"job {k}: job script differs"
        return None
    finally:
        os.environ.clear()
        os.environ.update(env)
        sch.REGISTERED_SYSTEMS.clear()
        sch.REGISTERED_SYSTEMS.update(systems)
        sch.MAIL_TYPES[:] = mails
        shutil.rmtree(d, ignore_errors=True)
        logging.disable(logging.NOTSET)


def gen_register(rng, i):
    return {"sys": [[rng.choice(["command", "script", "both", "none"]), rng.random() < 0.4] for _ in range(rng.randrange(1, 4))]}


def check_register(c):
    import os
    import shutil
    import tempfile

    from caput.pipeline.runner import _scheduler as sch

    d = tempfile.mkdtemp(prefix="pv27")
    systems, mails = dict(sch.REGISTERED_SYSTEMS), list(sch.MAIL_TYPES)
    try:
        s = ""
        for i, (k, m) in enumerate(c["sys"]):
            s += f"[s{i}]\nx = {i}\n"
            if k in ("command", "both"):
                s += "command = 'c'\n"
            if k in ("script", "both"):
                s += "script = 't'\n"
            if m:
                s += f"[s{i}.mail]\ntypes = ['T{i}']\noptions = 'o'\n"
        with open(d + "/f.toml", "w") as f:
            f.write(s)
        ok = all(k == "both" for k, _ in c["sys"])
        try:
            sch.register_system(d + "/f.toml")
        except ValueError:
            return "complete systems were refused" if ok else None
        if not ok:
            return "a system without a script or command was accepted"
        for i, (k, m) in enumerate(c["sys"]):
            r = sch.REGISTERED_SYSTEMS.get(f"s{i}")
            if not r or r["x"] != i or r["command"] != "c" or r["script"] != "t" or ("mail" in r) != m:
                return f"system {i} registered as {r}"
            if m and f"T{i}" not in sch.MAIL_TYPES:
                return "mail type not offered"
        if any(sch.REGISTERED_SYSTEMS.get(k) != v for k, v in systems.items()):
            return "another system was changed"
        return None
    finally:
        sch.REGISTERED_SYSTEMS.clear()
        sch.REGISTERED_SYSTEMS.update(systems)
        sch.MAIL_TYPES[:] = mails
        shutil.rmtree(d, ignore_errors=True)


FALSIFIERS = [
    Falsifier("queue", gen_queue, check_queue, n=400, thorough=4000),
    Falsifier("templates", gen_template, check_template, n=80, thorough=1000),
    Falsifier("systems", gen_register, check_register, n=60, thorough=300),
]

"""Files written under the lock-file protocol appear complete or not at all."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = [
    "POSIX file system: open(.., 'w') creates or empties, rename is atomic and replaces, remove deletes; each may instead raise OSError and change nothing",
    "file name = directory part (empty, or a path and one slash) + non-empty final component; os.path.split/join follow their documentation on such names",
    "the body writes only the temporary name it is given and the file is complete when it returns normally",
]
RULE = "file names, prior directory contents, body behaviour (success, failure before/after creating the file, directory output), preserve flag, rank; every interruption point enumerated"

ABSENT, OLD, PARTIAL, COMPLETE, LOCK = 0, 1, 2, 3, 4


class BodyError(Exception):
    pass


class Crash(BaseException):
    pass


# ---------------------------------------------------------------- ghost file system
class FS:
    def __init__(self, e, D, F):
        self.e, self.D, self.F = e, D, F
        self.final = D + F
        S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
        self.fs0 = z3.Array("fs0", S, I)
        self.dir0 = z3.Array("dir0", S, B)
        self.fs, self.dirs = self.fs0, self.dir0
        self.ops = 0
        self.locks = []
        self.opened = []
        x = z3.FreshConst(S)
        self.x = z3.String("anyname")  # an arbitrary name: unconstrained, so facts about it hold for all

    def t(self, n):
        return SStr.t(n)

    def get(self, n):
        return z3.Select(self.fs, self.t(n))

    def put(self, n, v):
        self.fs = z3.Store(self.fs, self.t(n), z3.IntVal(v) if isinstance(v, int) else v)
        self.point()

    def point(self):
        """A point at which the process may be interrupted."""
        self.ops += 1
        f = z3.Select(self.fs, self.final.z)
        self.e.prove("crash-point:final-name-shows-old-or-complete",
                     SBool(z3.Or(f == z3.Select(self.fs0, self.final.z), f == COMPLETE)))

    def fault(self, what):
        if self.e.choose(2, "fault_" + what) == 0:
            self.faulted = True
            raise OSError(what)

    faulted = False

    # contracts of the os functions
    def rename(self, a, b):
        self.fault("rename")
        if self.e.fork(self.get(a) == ABSENT):
            raise FileNotFoundError("rename")
        v = self.get(a)
        d = z3.Select(self.dirs, self.t(a))
        self.fs = z3.Store(z3.Store(self.fs, self.t(a), z3.IntVal(ABSENT)), self.t(b), v)
        self.dirs = z3.Store(self.dirs, self.t(b), d)
        self.point()

    def remove(self, a):
        if self.e.fork(self.get(a) == ABSENT):
            raise FileNotFoundError("remove")
        if self.e.fork(z3.Select(self.dirs, self.t(a))):
            raise IsADirectoryError("remove")
        self.put(a, ABSENT)

    def rmtree(self, a, ignore_errors=False, onerror=None, **k):
        if self.e.fork(self.get(a) == ABSENT):
            if ignore_errors:
                return
            raise FileNotFoundError("rmtree")
        if self.e.fork(z3.Not(z3.Select(self.dirs, self.t(a)))):
            raise NotADirectoryError("rmtree")
        self.put(a, PARTIAL)  # a half-deleted tree
        self.put(a, ABSENT)

    def open(self, n, mode="r", *a, **k):
        fs = self

        class H:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def write(s, t):
                fs.e.prove("writes-only-to-lock", SBool(fs.t(n) != fs.final.z))

            def close(s):
                pass

        if "w" in mode or "x" in mode or "a" in mode:
            self.dirs = z3.Store(self.dirs, self.t(n), z3.BoolVal(False))
            self.put(n, LOCK)
            self.locks.append(n)
        else:
            raise Unsupported("open for reading")
        return H()


class Path:
    def __init__(self, fs):
        self.fs = fs

    def split(self, p):
        fs = self.fs
        if not fs.e._check(SStr.t(p) != fs.final.z) == z3.unsat:
            raise Unsupported("split of another path")
        return fs.B, fs.F

    def dirname(self, p):
        return self.split(p)[0]

    def basename(self, p):
        return self.split(p)[1]

    def join(self, *parts):
        r = parts[-1]
        for b in reversed(parts[:-1]):
            bz = SStr.t(b)
            if not self.fs.e.fork(bz == z3.StringVal("")):
                r = SStr(z3.Concat(bz, z3.StringVal("/"), SStr.t(r)))
        return r

    def exists(self, p):
        return SBool(self.fs.get(p) != ABSENT)

    lexists = exists

    def isdir(self, p):
        return SBool(z3.And(self.fs.get(p) != ABSENT, z3.Select(self.fs.dirs, SStr.t(p))))

    def isfile(self, p):
        return SBool(z3.And(self.fs.get(p) != ABSENT, z3.Not(z3.Select(self.fs.dirs, SStr.t(p)))))


class Os:
    def __init__(self, fs):
        self.fs = fs
        self.path = Path(fs)
        self.rename = self.replace = fs.rename
        self.remove = self.unlink = fs.remove
        self.rmtree = fs.rmtree

    def fspath(self, p):
        return p

    def __getattr__(self, a):
        raise Unsupported("os." + a)


def _world(e):
    from pv import rt

    F, B = Str("name"), Str("base")
    if e.choose(2, "bare"):
        B = D = SStr(z3.StringVal(""))
    else:
        e.assume(SBool(z3.And(z3.Length(B.z) > 0, z3.Not(z3.SuffixOf(z3.StringVal("/"), B.z)))))
        D = B + "/"
    fs = FS(e, D, F)
    fs.B = B
    e.assume(SBool(z3.And(z3.Length(F.z) > 0, z3.Not(z3.Contains(F.z, z3.StringVal("/"))))))
    o = Os(fs)
    rt.OVERRIDE.clear()
    rt.OVERRIDE.update({"os": o, "shutil": o, "open": fs.open})
    return fs


def _flat(z):
    z = z3.simplify(z)
    out = []

    def go(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                go(c)
        elif z3.is_string_value(t):
            out.extend(z3.StringVal(ch) for ch in t.as_string())
        else:
            out.append(t)

    go(z)
    return out


def _rest(t, d):
    """What follows the prefix d of t (structurally if d is one)."""
    a, b = _flat(t), _flat(d)
    if len(a) > len(b) and all(z3.eq(x, y) for x, y in zip(a, b)):
        r = a[len(b):]
        return r[0] if len(r) == 1 else z3.Concat(*r)
    return z3.SubString(t, z3.Length(d), z3.Length(t) - z3.Length(d))


class Comm:
    def __init__(self, rank):
        self.rank = rank


def p_protocol(e):
    from caput.memdata._io import lock_file

    fs = _world(e)
    preserve = e.choose(2, "preserve") == 0
    e.inputs["preserve"] = preserve
    comm = None
    rank0 = True
    if e.choose(2, "comm"):
        r = Int("rank", lo=0)
        comm = Comm(r)
        rank0 = e.fork(r.z == 0)
    e.inputs["rank0"] = rank0
    e.cover("pre")
    body = e.choose(4, "body")  # ok, fail before creating, fail after partial, fail after complete
    e.inputs["body"] = body
    isdir = e.choose(2, "outdir") == 0
    e.inputs["outdir"] = isdir
    caught = None
    tmp = None
    done = False
    if not rank0:
        body = 0 if body == 0 else 1  # other ranks write through rank 0's file
    try:
        with lock_file(fs.final, preserve=preserve, comm=comm) as tmp:
            e.prove("enter:no-lock-or-file-touched-unless-first-rank", SBool(z3.BoolVal((len(fs.locks) > 0) == rank0)))
            e.prove("enter:temporary-differs-from-final", SBool(SStr.t(tmp) != fs.final.z))
            y = _rest(SStr.t(tmp), fs.D.z)
            e.prove("enter:temporary-in-same-directory",
                    SBool(z3.And(z3.PrefixOf(fs.D.z, SStr.t(tmp)), z3.Not(z3.Contains(y, z3.StringVal("/"))))))
            for L in fs.locks:
                e.prove("enter:lock-is-neither-final-nor-temporary", SBool(z3.And(SStr.t(L) != fs.final.z, SStr.t(L) != SStr.t(tmp))))
            if rank0:
                if body in (0, 2, 3):
                    fs.dirs = z3.Store(fs.dirs, SStr.t(tmp), z3.BoolVal(isdir))
                    fs.put(tmp, PARTIAL)
                elif e.choose(2, "stale"):
                    # nothing written by the body: whatever was there before stays
                    pass
                if body in (0, 3):
                    fs.put(tmp, COMPLETE)
                if body == 2 or body == 3 or body == 1:
                    raise BodyError()
            elif body == 1:
                raise BodyError()
            done = True
    except BodyError as ex:
        caught = ex
    except OSError as ex:
        caught = ex
    if isinstance(caught, OSError):
        if not fs.faulted:
            e.fail("exit:no-spurious-error", repr(caught))
        done = False
    elif body == 0:
        e.prove("exit:success-raises-nothing", SBool(z3.BoolVal(caught is None)))
    else:
        e.prove("exit:original-error-propagates", SBool(z3.BoolVal(isinstance(caught, BodyError))))
    x = fs.x
    now, was = z3.Select(fs.fs, x), z3.Select(fs.fs0, x)
    T = SStr.t(tmp)
    if not rank0:
        e.prove("other-ranks:file-system-untouched", SBool(z3.BoolVal(fs.ops == 0)))
        return
    mine = [x == SStr.t(L) for L in fs.locks] + [x == T]
    e.prove("exit:no-other-file-touched", SBool(z3.Or(now == was, x == fs.final.z, *mine)))
    for L in fs.locks:
        e.prove("exit:lock-removed", SBool(z3.Select(fs.fs, SStr.t(L)) == ABSENT))
    if isinstance(caught, OSError):
        e.prove("fault:final-keeps-old-content", SBool(z3.Select(fs.fs, fs.final.z) == z3.Select(fs.fs0, fs.final.z)))
        return
    if body == 0:
        e.prove("exit:success-final-complete", SBool(z3.Select(fs.fs, fs.final.z) == COMPLETE))
        e.prove("exit:success-no-temporary", SBool(z3.Select(fs.fs, T) == ABSENT))
    else:
        e.prove("exit:failure-final-keeps-old-content", SBool(z3.Select(fs.fs, fs.final.z) == z3.Select(fs.fs0, fs.final.z)))
        if preserve:
            e.prove("exit:failure-preserve-keeps-temporary",
                    SBool(z3.Select(fs.fs, T) == (PARTIAL if body == 2 else COMPLETE if body == 3 else z3.Select(fs.fs0, T))))
        else:
            e.prove("exit:failure-no-temporary", SBool(z3.Select(fs.fs, T) == ABSENT))


def p_remove(e):
    from caput.memdata.fileformats import remove_file_or_dir

    fs = _world(e)
    n = Str("victim")
    e.cover("pre")
    e.assume(SBool(n.z != fs.final.z))
    try:
        remove_file_or_dir(n)
    except Exception as ex:  # noqa: BLE001
        e.fail("remove:never-fails-on-missing", repr(ex))
    e.prove("remove:gone", SBool(z3.Select(fs.fs, n.z) == ABSENT))
    x = fs.x
    e.prove("remove:frame", SBool(z3.Or(x == n.z, z3.Select(fs.fs, x) == z3.Select(fs.fs0, x))))


_FN = ["caput.memdata._io.lock_file.__init__", "caput.memdata._io.lock_file.__enter__", "caput.memdata._io.lock_file.__exit__",
       "caput.memdata._io.lock_file.tmpfile", "caput.memdata._io.lock_file.lockfile", "caput.memdata.fileformats.remove_file_or_dir"]


def _case(o, m):
    base = {"preserve": bool(m.get("preserve")), "rank": 0 if m.get("rank0", True) else 1, "outdir": bool(m.get("outdir")),
            "body": int(m.get("body") or 0)}
    return [("faults", {**base, "name": n, "sub": s, "prior": p, "comm": True}) for n, s, p in (("f.h5", "", "old"), ("a.lock", "d", None), ("f.h5", "", "dir"))]


PROOFS = [
    Proof("protocol", p_protocol, _FN, covers=["pre"], to_cases=_case),
    Proof("remove", p_remove, _FN[-1:], covers=["pre"]),
]


# ---------------------------------------------------------------- run-time evaluation
def gen(rng, i):
    return {"name": rng.choice(["f.h5", "data.zarr", ".hidden", "a b.h5", "x.lock", "..", "f"][:5] + ["f"]), "sub": rng.choice(["", "d", "d/e"]),
            "prior": rng.choice([None, "old", "old", "dir"]), "preserve": rng.random() < 0.3, "rank": rng.choice([0, 0, 0, 1, 3]),
            "comm": rng.random() < 0.5, "outdir": rng.random() < 0.3, "body": rng.randrange(4), "abs": rng.random() < 0.4}


def check(c):
    import os
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="p10")
    cwd = os.getcwd()
    try:
        return _run(c, d, cwd)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _tree(d):
    import os

    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = "dir"
        for n in fs:
            with open(os.path.join(r, n)) as fh:
                out[os.path.relpath(os.path.join(r, n), d)] = fh.read()
    return out


def _rename_fault(c, d, rel, fname, lock_file):
    """The final rename fails (the final name is a non-empty directory)."""
    import os

    os.makedirs(rel)
    with open(os.path.join(rel, "keep"), "w") as fh:
        fh.write("old")
    before = _tree(d)
    caught = None
    try:
        with lock_file(fname, preserve=c["preserve"]) as tmp:
            with open(tmp, "w") as fh:
                fh.write("complete")
    except OSError as ex:
        caught = ex
    if caught is None:
        return "a failing rename raised nothing"
    now = _tree(d)
    now.pop(os.path.relpath(os.path.join(d, tmp), d), None)
    if now != before:
        return f"after a failing rename: {now}, expected {before}"
    return None


def _run(c, d, cwd):
    import os
    import sys

    from caput.memdata import lock_file

    os.makedirs(os.path.join(d, c["sub"]), exist_ok=True)
    os.chdir(d)
    rel = os.path.join(c["sub"], c["name"])
    fname = os.path.join(d, rel) if c.get("abs") else rel
    rank = c["rank"] if c["comm"] else 0
    outdir = c["outdir"]
    if c["prior"] == "old" and not outdir:
        with open(rel, "w") as fh:
            fh.write("old")
    if c["prior"] == "dir":
        return _rename_fault(c, d, rel, fname, lock_file)
    with open(os.path.join(c["sub"], "bystander"), "w") as fh:
        fh.write("x")
    before = _tree(d)
    bad = []

    def look():
        t = _tree(d)
        if outdir:
            v = t.get(rel)
            if v is not None and t.get(os.path.join(rel, "part2")) != "new2":
                bad.append(f"incomplete directory under the final name: {t}")
        elif t.get(rel) not in (before.get(rel), "complete"):
            bad.append(f"final name shows {t.get(rel)!r}")

    def audit(ev, args):
        # every file-system call made under the protocol: look at the state just before it
        if live and ev in ("open", "os.rename", "os.remove", "shutil.rmtree", "os.rmdir", "os.truncate", "os.link"):
            live.clear()
            look()
            live.append(1)

    live = []
    _AUDIT[:] = [audit]
    if not _HOOKED:
        _HOOKED.append(1)
        sys.addaudithook(lambda ev, a: _AUDIT[0](ev, a) if _AUDIT else None)

    class Comm:
        pass

    comm = None
    if c["comm"]:
        comm = Comm()
        comm.rank, comm.size = rank, 4
    caught = None
    tmp = None
    try:
        live.append(1)
        with lock_file(fname, preserve=c["preserve"], comm=comm) as tmp:
            live.clear()
            now = _tree(d)
            if rank == 0 and len(now) <= len(before):
                return f"no lock file while writing: {now}"
            if rank != 0 and now != before:
                return "a rank other than the first touched the file system on entry"
            if os.path.abspath(tmp) == os.path.abspath(fname):
                return "the temporary name is the final name"
            if os.path.dirname(os.path.abspath(tmp)) != os.path.dirname(os.path.abspath(fname)):
                return "temporary file in another directory"
            if rank == 0 and c["body"] in (0, 2, 3):
                if outdir:
                    os.makedirs(tmp)
                    with open(os.path.join(tmp, "part1"), "w") as fh:
                        fh.write("new1")
                    look()
                    if c["body"] != 2:
                        with open(os.path.join(tmp, "part2"), "w") as fh:
                            fh.write("new2")
                else:
                    with open(tmp, "w") as fh:
                        fh.write("partial")
                    look()
                    if c["body"] != 2:
                        with open(tmp, "w") as fh:
                            fh.write("complete")
            live.append(1)
            if c["body"] != 0:
                raise BodyError()
    except BodyError as ex:
        caught = ex
    except OSError as ex:
        return f"raised {ex!r}"
    finally:
        live.clear()
    look()
    if bad:
        return bad[0]
    if (caught is None) != (c["body"] == 0):
        return "the error of the body did not reach the caller"
    now = _tree(d)
    want = dict(before)
    if rank == 0:
        rt = os.path.relpath(os.path.join(d, tmp), d)
        tgt = None
        if c["body"] == 0:
            tgt = rel
        elif c["preserve"] and c["body"] in (2, 3):
            tgt = rt
        if tgt is not None:
            full = c["body"] != 2
            if outdir:
                want[tgt] = "dir"
                want[os.path.join(tgt, "part1")] = "new1"
                if full:
                    want[os.path.join(tgt, "part2")] = "new2"
            else:
                want[tgt] = "complete" if full else "partial"
    if now != want:
        return f"files afterwards {now}, expected {want}"
    return None


_AUDIT, _HOOKED = [], []

FALSIFIERS = [Falsifier("faults", gen, check, n=500, thorough=10000, fixed=[
    {"name": "f.h5", "sub": s, "prior": p, "preserve": k, "rank": r, "comm": True, "outdir": o, "body": b, "abs": s == ""}
    for s in ("", "d") for p in (None, "old") for k in (False, True) for r in (0, 1) for o in (False, True) for b in range(4)])]

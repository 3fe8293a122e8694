"""CBMC as a back end: code contracts on the C text Cython generates from /repo's .pyx files
(the text the extension is compiled from) and on the C/C++ headers they include.

The loop contracts are inserted mechanically on every run: every `prange`/`range` loop of the
named function gets an `assigns` clause made of the function's own scalar locals plus the
objects the contract names, and the invariant of the contract.  Nothing else of the text is changed.
"""

from __future__ import annotations

import json
import os
import re
import subprocess
import sysconfig
import time

PY = "/opt/venv/bin/python"
STUBS = """
PyThreadState *PyEval_SaveThread(void) { return (PyThreadState *)0; }
void PyEval_RestoreThread(PyThreadState *s) { (void)s; }
"""


class NoAttach(Exception):
    """The generated text does not have the shape the contract attaches to."""


def cython_c(root, pyx):
    out = os.path.join(root, "cbmc_" + os.path.basename(pyx)[:-4] + ".c")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        r = subprocess.run([PY, "-m", "cython", "-3", os.path.join(root, pyx), "-o", tmp], capture_output=True, text=True, cwd=root)
        if r.returncode:
            raise NoAttach("cython: " + r.stderr[-800:])
        os.replace(tmp, out)
    with open(out) as f:
        return f.read()


def function_span(src, pattern):
    """Span of the definition whose header line matches the pattern (brace matching at column 0)."""
    for m in re.finditer(pattern, src, re.M):
        i = m.start()
        brace = src.find("{", i)
        semi = src.find(";", i)
        if semi != -1 and semi < brace:
            continue
        j = src.find("\n}\n", brace)
        if brace == -1 or j == -1:
            continue
        return i, j + 3
    raise NoAttach(f"no definition matches {pattern}")


LOOP = re.compile(r"for \((\w+) = (\w+); \1 < (\w+); \1\+\+\)\s*\{|for \((\w+) = (\w+); \4 < (\w+); \4\+=1\)\s*\{")


def scalar_locals(body):
    """Names of the scalar locals the function declares (what its loops may assign)."""
    out = []
    for line in body.splitlines():
        m = re.match(r"\s+(int|Py_ssize_t|float|double|__pyx_t_\w+complex\w*|npy_\w+|__pyx_t_5numpy_\w+) (__pyx_[tv]_\w+);$", line)
        if m:
            out.append(m.group(2))
    return out


def match_brace(text, i):
    """Index of the brace that closes the block opened just before i (comments skipped)."""
    depth = 1
    while i < len(text):
        if text.startswith("/*", i):
            i = text.index("*/", i) + 2
            continue
        if text[i] == "{":
            depth += 1
        elif text[i] == "}":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise NoAttach("unbalanced braces")


def attach(src, pattern, contracts, objects):
    """Give the loops of one function their contracts, in order of appearance.

    contracts: list of (extra objects, invariant text with {i} and {n}); its length must be the
    number of loops in the function."""
    a, b = function_span(src, pattern)
    body = src[a:b]
    loops = list(LOOP.finditer(body))
    if len(loops) != len(contracts):
        raise NoAttach(f"{len(loops)} loops, contract for {len(contracts)}")
    loc = scalar_locals(body)
    if not loc:
        raise NoAttach("no scalar locals recognised")
    out, pos = [], 0
    for m, inv in zip(loops, contracts):
        i = m.group(1) or m.group(4)
        n = m.group(3) or m.group(6)
        out.append(body[pos:m.start()])
        text = m.group(0)[:-1].rstrip()
        inner = body[m.end():match_brace(body, m.end())]
        mine = [x for x in loc if re.search(rf"\b{x} (=|\+=) ", inner) or re.search(rf"\b{x}\.\w+ = ", inner)]
        asg = ", ".join(dict.fromkeys([i, *mine, *objects]))
        out.append(f"{text}\n__CPROVER_assigns({asg})\n__CPROVER_loop_invariant({inv.format(i=i, n=n)})\n{{")
        pos = m.end()
    out.append(body[pos:])
    return src[:a] + "".join(out) + src[b:]


def run(cmd, timeout, cwd):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def verify(root, tag, text, names, dfcc=True, unwind=None, timeout=200, solver=("--fpa", "--cvc5"), lang="c", inc=(), defs=(), checks=False):
    """-> (status, {description: (ok, inputs)}, seconds).  names: the descriptions that must all appear."""
    import numpy

    wd = os.path.join(root, f"cb_{tag}")
    os.makedirs(wd, exist_ok=True)
    f = os.path.join(wd, "h." + ("cpp" if lang == "cpp" else "c"))
    with open(f, "w") as fh:
        fh.write(text)
    t0 = time.time()
    incs = ["-I" + p for p in (sysconfig.get_path("include"), numpy.get_include(), *inc)]
    rc, o, e = run(["goto-cc", *incs, *["-D" + d for d in defs], f, "-o", "a.gb"], timeout, wd)
    if rc != 0:
        return "unsupported: goto-cc: " + (o + e)[-500:], {}, time.time() - t0
    rc, o, e = run(["goto-instrument", "--drop-unused-functions", "a.gb", "b.gb"], timeout, wd)
    if rc != 0:
        return "unsupported: goto-instrument: " + (o + e)[-500:], {}, time.time() - t0
    last = "b.gb"
    if dfcc:
        rc, o, e = run(["goto-instrument", "--dfcc", "main", "--apply-loop-contracts", "b.gb", "c.gb"], timeout, wd)
        if rc != 0:
            return "unsupported: goto-instrument --dfcc: " + (o + e)[-500:], {}, time.time() - t0
        last = "c.gb"
    cmd = ["cbmc", last, *([] if checks else ["--no-standard-checks"]), "--unwinding-assertions", *solver, "--trace", "--json-ui"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    rc, o, e = run(cmd, max(5, timeout - (time.time() - t0)), wd)
    if rc is None:
        return "unknown: timeout", {}, time.time() - t0
    try:
        js = json.loads(o)
    except ValueError:
        return "unsupported: cbmc: " + (o + e)[-500:], {}, time.time() - t0
    res = next((x["result"] for x in js if isinstance(x, dict) and "result" in x), None)
    if res is None:
        msg = " ".join(x.get("messageText", "") for x in js if isinstance(x, dict))
        return "unsupported: cbmc: " + msg[-500:], {}, time.time() - t0
    out = {}
    for p in res:
        d = p["description"]
        ok = p["status"] == "SUCCESS"
        ins = {}
        for s in p.get("trace", []):
            if s.get("stepType") == "assignment" and str(s.get("lhs", "")).startswith("pv_in_"):
                v = s.get("value", {})
                ins[s["lhs"]] = v.get("binary", v.get("data"))
        old = out.get(d)
        if old is None or (old[0] and not ok):
            out[d] = (ok, ins)
    missing = [n for n in names if n not in out]
    if missing:
        return f"unsupported: obligations not generated: {missing}", out, time.time() - t0
    return "done", out, time.time() - t0


def obligations(status, res, secs, names, prefix="", to_cases=None, backend="cbmc+cvc5"):
    """Named obligations of the contract, plus one for everything CBMC generated itself
    (loop invariants established and kept, frame conditions)."""
    out = []
    if status != "done":
        st = "unknown"
        return [{"name": prefix + n, "status": st, "detail": status, "backends": {backend: 1}, "solver_s": secs / max(1, len(names)), "queries": 1} for n in names]
    rest = {d: v for d, v in res.items() if d not in names}
    bad = [d for d, (ok, _) in rest.items() if not ok]
    for n in names:
        ok, ins = res[n]
        o = {"name": prefix + n, "status": "proved" if ok else "refuted", "backends": {backend: 1}, "solver_s": secs / len(names), "queries": 1, "model": ins}
        if not ok and to_cases:
            o["cases"] = to_cases(ins)
        out.append(o)
    if rest:
        o = {"name": prefix + "loop-invariants-and-frame", "status": "refuted" if bad else "proved", "backends": {backend: len(rest)}, "queries": len(rest), "detail": "; ".join(bad)[:600], "solver_s": 0.0}
        if bad:
            ins = next(rest[d][1] for d in bad)
            o["model"] = ins
            if to_cases:
                o["cases"] = to_cases(ins)
        out.append(o)
    return out

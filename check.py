#!/opt/venv/bin/python
"""Decide one property: prove its contracts on /repo's current source, and evaluate
them at run time on the real code.

usage: check.py PROPERTY [--tier quick|thorough]     decide the property
       check.py --replay FILE                        re-run one recorded violation
"""

from __future__ import annotations

import argparse
import concurrent.futures as cf
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
MPI = [
    "mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
    "--mca", "plm", "isolated", "--mca", "mpi_yield_when_idle", "1",
    "--mca", "btl_vader_single_copy_mechanism", "none",
]


def env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="2",
        NO_COLOR="1", HOME=os.environ.get("HOME", "/root"),
    )
    e.pop("PYTHONPATH", None)
    e.pop("CAPUT_NO_OPENMP", None)
    e.pop("CAPUT_SKYFIELD_PATH", None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


def find_module(prop):
    c = glob.glob(os.path.join(HERE, "contracts", f"{prop}_*.py"))
    if len(c) != 1:
        sys.exit(f"no contract module for {prop}")
    return os.path.basename(c[0])[:-3]


def run_group(cmd, timeout, cwd, e):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o


def do_prove(modname, name, root, tier, budget):
    out = os.path.join(root, f"proof_{name}.json")
    rc, o = run_group([PY, os.path.join(HERE, "pv", "prove.py"), modname, name, root, tier, out],
                      budget, root, env())
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    return {"proof": name, "status": "timeout" if rc is None else "error", "why": (o or "")[-2000:],
            "obligations": {}, "functions": [], "assumes": [], "covers": {}, "cases": [], "wall_s": budget,
            "bounded": False}


def do_falsify(modname, fname, root, seed, n, budget, ranks=None, cases=None, tag=""):
    wd = os.path.join(root, f"wd_{fname}_{ranks or 1}_{tag}")
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, "out.json")
    args = {"module": modname, "falsifier": fname, "root": root, "seed": seed, "n": n, "budget": budget,
            "out": out, "ranks": ranks, "cases": cases}
    cmd = [PY, os.path.join(HERE, "pv", "falsify.py"), json.dumps(args)]
    e = env()
    e["TMPDIR"] = wd
    if ranks:
        e["OMP_NUM_THREADS"] = "1"
        cmd = [*MPI, "--mca", "orte_tmpdir_base", wd, "-np", str(ranks), *cmd]
    rc, o = run_group(cmd, budget + 75, wd, e)
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    # the worker died or hung: name the case it was on
    prog = {}
    for p in sorted(glob.glob(out + ".progress*")):
        try:
            with open(p) as f:
                prog[p.rsplit("progress", 1)[1]] = json.loads(f.read().split("\n", 1)[0])
        except ValueError:
            pass
    case = prog.get("0") or next(iter(prog.values()), None)
    if case is None:
        return {"falsifier": fname, "runs": 0, "fails": [], "error": (o or "")[-2500:], "ranks": ranks}
    why = "no progress (deadlock or endless loop)" if rc is None else f"process died (exit {rc})"
    return {"falsifier": fname, "runs": 1, "ranks": ranks, "died": True,
            "fails": [{"falsifier": fname, "case": case, "ranks": ranks,
                       "message": f"{why}; output:\n{(o or '')[-1500:]}"}]}


def load_contract(modname):
    # the declaration lists only; run in the plain world (caput is imported lazily)
    os.environ["PV_WORLD"] = "declare"
    return importlib.import_module("contracts." + modname)


def findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d["property"] == prop:
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="only proofs/falsifiers whose name contains this")
    ap.add_argument("--no-falsify", action="store_true")
    ap.add_argument("--no-prove", action="store_true")
    a = ap.parse_args()
    from pv import build

    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if r.get("case") is None:
            print(json.dumps(r, indent=1))
            return 0
        modname = find_module(r["property"])
        mod = load_contract(modname)
        root = build.scratch()
        try:
            build.prepare(root, getattr(mod, "EXTS", ()))
            res = do_falsify(modname, r["falsifier"], root, 1, 0, 60, ranks=r.get("ranks"), cases=[r["case"]])
        finally:
            shutil.rmtree(root, ignore_errors=True)
        print(json.dumps(res, indent=1))
        return 1 if res["fails"] else 0

    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = find_module(prop)
    mod = load_contract(modname)
    proofs = list(mod.PROOFS)
    fals = list(mod.FALSIFIERS)
    if tier == "quick":
        proofs = [p for p in proofs if getattr(p, "tier", "quick") == "quick"]
    if a.only:
        proofs = [p for p in proofs if a.only in p.name]
        fals = [f for f in fals if a.only in f.name]
    if a.no_prove:
        proofs = []
    if a.no_falsify:
        fals = []
    root = build.scratch()
    rc = 2
    try:
        build.prepare(root, getattr(mod, "EXTS", ()))
        rc = decide(a, prop, tier, seed, modname, mod, proofs, fals, root, t0)
    except RuntimeError as ex:
        print("ERROR", ex)
        rc = 2
    finally:
        if a.keep:
            print("kept", root)
        else:
            shutil.rmtree(root, ignore_errors=True)
    return rc


def decide(a, prop, tier, seed, modname, mod, proofs, fals, root, t0):
    fl_budget = 40 if tier == "quick" else 400
    known_keys = [k for k in findings(prop) if k.get("status") == "open"]
    limit = {"t": t0 + (560 if tier == "quick" else 6 * 3600)}

    def prove_job(p):
        left = min((p.budget + 60) * (3 if tier == "thorough" else 1), limit["t"] - time.time())
        if left < 5:
            return {"proof": p.name, "status": "not run", "why": "a failing input was found first, or no time was left", "obligations": {},
                    "functions": [], "assumes": [], "covers": {}, "cases": [], "wall_s": 0, "bounded": False}
        return do_prove(modname, p.name, root, tier, left)

    def fals_job(f, n, r):
        res = do_falsify(modname, f.name, root, seed, n, fl_budget, r)
        new = [x for x in res["fails"] if not any(
            k["falsifier"] == x["falsifier"] and all(x["case"].get(kk) == vv for kk, vv in k["case"].items()) for k in known_keys)]
        if new and tier == "quick":
            # decided: the proofs only add the names of the obligations that fail
            limit["t"] = min(limit["t"], time.time() + 60)
        return res

    with cf.ThreadPoolExecutor(7) as ex:
        ff = []
        for f in fals:
            n = f.n if tier == "quick" else f.thorough
            for r in f.ranks or (None,):
                ff.append(ex.submit(fals_job, f, n, r))
        pf = [ex.submit(prove_job, p) for p in proofs]
        pres = [x.result() for x in pf]
        fres = [x.result() for x in ff]

    # counterexamples of the solver, replayed on the real code
    viol = []
    replayed = {}
    fal_by_name = {f.name: f for f in mod.FALSIFIERS}
    decided = limit["t"] < t0 + 560
    for p in pres:
        groups = {}
        if decided:
            break
        for on, fname, case in p.get("cases", []):
            groups.setdefault(fname, []).append((on, case))
        for fname, lst in groups.items():
            f = fal_by_name[fname]
            for i, (on, case) in enumerate(lst[:12]):
                if tier == "quick" and time.time() > t0 + 700:
                    break
                for r in f.ranks or (None,):
                    res = do_falsify(modname, fname, root, seed, 0, 30, r, [case], tag=f"cex{p['proof']}{i}")
                    if res["fails"]:
                        replayed[on] = res["fails"][0]
                        break
    flines = [x for r in fres for x in r["fails"]]
    errors = [r for r in fres if r.get("error")]

    # known findings: matched by falsifier and exact case key
    known = [k for k in findings(prop) if k.get("status") == "open"]
    reported = []

    def is_known(f):
        for k in known:
            if k["falsifier"] == f["falsifier"] and all(
                f["case"].get(kk) == vv for kk, vv in k["case"].items()
            ):
                if k not in reported:
                    reported.append(k)
                return True
        return False

    flines = [f for f in flines if not is_known(f)]
    for k in reported:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)

    def record(tag, data):
        path = os.path.join(rdir, f"{prop}-{tag}.json")
        data = {"property": prop, **data, "rerun": f"{PY} /verif/check.py --replay {path}"}
        with open(path, "w") as fh:
            json.dump(data, fh, indent=1, default=str)
        return path

    nobl = ndis = 0
    degraded = []
    bounded_notes = []
    solver_s = 0.0
    backends = {}
    functions = set()
    assumes = set()
    details = []
    undecided = []
    for p in pres:
        functions |= set(p["functions"])
        assumes |= set(p["assumes"])
        solver_s += p.get("solver_s", 0.0) or 0.0
        if p["status"] != "done":
            degraded.append(f"{p['proof']}: {p['status']}: {p.get('why', '')[:600]}")
        if p.get("mode") == "unroll" or p.get("mismatch"):
            degraded.append(f"{p['proof']}: loop contract no longer attaches ({p.get('mismatch')}); bounded run instead")
        elif p.get("unrolled") and not p.get("bound_ok"):
            bounded_notes.append(f"{p['proof']}: {p.get('bound')}")
        elif p.get("bounded"):
            bounded_notes.append(f"{p['proof']}: {p.get('bound')}")
        if p.get("vacuous"):
            degraded.append(f"{p['proof']}: vacuity check failed, not reached: {p['vacuous']}")
        if p["status"] == "done" and not p["obligations"]:
            degraded.append(f"{p['proof']}: generated no obligation")
        for on, ob in p["obligations"].items():
            if p.get("bounded"):
                pass
            nobl += 1
            for b, c in (ob.get("backends") or {ob.get("backend", "?"): 1}).items():
                backends[b] = backends.get(b, 0) + c
            if ob["status"] == "proved" and p["status"] == "done":
                ndis += 1
            elif ob["status"] == "refuted" and p.get("abstract") and on not in replayed:
                undecided.append(f"{p['proof']}/{on}: not proved (abstract counterexample, not reproduced)")
            elif ob["status"] == "refuted":
                viol.append((p, on, ob))
            else:
                undecided.append(f"{p['proof']}/{on}: {ob['status']}")
            details.append({"proof": p["proof"], "obligation": on, "status": ob["status"],
                            "queries": ob.get("queries"), "bounded": bool(p.get("bounded"))})

    for r in fres:
        if r.get("nstale"):
            degraded.append(f"{r['falsifier']}: {r['nstale']} cases use internals that are gone: {r['stale'][0]}")
    lines = []
    if flines:
        f = flines[0]
        path = record("run", {"falsifier": f["falsifier"], "case": f["case"], "ranks": f.get("ranks"),
                              "message": f["message"], "failed_obligations": [on for _, on, _ in viol]})
        lines.append(f"VIOLATION property={prop} replay={path}")
    elif viol:
        hit = [(p, on, ob) for p, on, ob in viol if on in replayed and not is_known(replayed[on])]
        kn = [on for _, on, _ in viol if on in replayed and is_known(replayed[on])]
        if hit:
            p, on, ob = hit[0]
            f = replayed[on]
            path = record("cex", {"falsifier": f["falsifier"], "case": f["case"], "ranks": f.get("ranks"),
                                  "message": f["message"], "failed_obligations": [on], "model": ob.get("model")})
            lines.append(f"VIOLATION property={prop} replay={path}")
        else:
            rest = [(p, on, ob) for p, on, ob in viol if on not in kn]
            if rest:
                p, on, ob = rest[0]
                path = record("obligation", {
                    "case": None, "failed_obligations": [o for _, o, _ in rest], "proof": p["proof"],
                    "verifier_output": {k: ob.get(k) for k in ("status", "model", "formula", "detail", "replay_error")}})
                lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")

    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "proof")
    runs = {f"{r['falsifier']}" + (f"@{r['ranks']}ranks" if r.get("ranks") else ""): r["runs"] for r in fres}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": f"/verif/check.py {prop} --tier {tier}",
            "trusted_base": getattr(mod, "TRUSTED", []) + [
                "pv symbolic executor (pv/sym.py, seq.py, npsym.py, rt.py, loader.py)",
                "CPython, z3, cvc5" + (", cbmc" if getattr(mod, "USES_CBMC", False) else ""),
            ],
            "functions_under_contract": sorted(functions),
            "backends": backends, "solver_s": round(solver_s, 2),
            "bounded": bounded_notes + [f"run-time contract evaluation: {k}: {v} cases" for k, v in runs.items()],
            "degraded": degraded, "undecided": undecided,
            "evaluations": sum(runs.values()),
            "distinct_nontrivial": sum(r.get("distinct", 0) for r in fres),
            "rule": getattr(mod, "RULE", "seeded generation from the contract's input space plus fixed corner cases; "
                            "distinct = different case after JSON encoding"),
            "samples": [{"falsifier": r["falsifier"], "ranks": r.get("ranks"), "case": c}
                        for r in fres for c in r.get("samples", [])[:2]][:20],
            "details": details,
        },
        "assumptions": sorted(assumes) + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 1),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop}: {ndis}/{nobl} obligations discharged, {sum(runs.values())} run-time cases, {wall:.0f}s")
    for d in degraded:
        print("  degraded:", d[:300] if not a.v else d)
    for d in undecided:
        print("  undecided:", d)
    for b in bounded_notes:
        print("  bounded:", b)
    if a.v:
        for p in pres:
            print("  ", p["proof"], p["status"], "paths", p.get("paths"), f"{p['wall_s']:.1f}s",
                  "solver", round(p.get("solver_s") or 0, 1), "covers", p.get("covers"))
            for on, ob in p["obligations"].items():
                print("      ", on, ob["status"], ob.get("queries"), ob.get("backends"), round(ob.get("solver_s") or 0, 2),
                      ob.get("model") or "", (ob.get("formula") or "")[:300])
        for r in fres:
            print("  ", r["falsifier"], r.get("ranks"), r["runs"], "fails", len(r["fails"]))
            for x in r["fails"]:
                print("      ", json.dumps(x["case"])[:400], "\n         ", x["message"][-500:])
    for r in errors:
        print("  falsifier could not run:", r["falsifier"], r["error"][-800:])
    for v in lines:
        print(v)
    if lines:
        return 1
    if errors and not any(r["runs"] for r in fres):
        return 2
    if proofs and nobl == 0 and not fres:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

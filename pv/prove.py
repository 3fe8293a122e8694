"""Worker: discharge one Proof (or External) and print its outcome as JSON."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def guarded(e, fn):
    """One path; an exception the contract does not allow is a failed obligation."""
    from pv import sym

    try:
        fn(e)
    except (TypeError, AttributeError, NotImplementedError, NameError, RecursionError) as ex:
        # may be a limit of the proxies: leave the verdict to the run-time evaluation
        raise sym.Unsupported(f"{type(ex).__name__}: {ex} @ {_where()}") from None
    except Exception as ex:  # noqa: BLE001
        if not _deliberate(ex):
            # raised inside a library that was handed symbolic values
            raise sym.Unsupported(f"{type(ex).__name__}: {ex} @ {_where()}") from None
        e.fail("no-unexpected-exception", f"{type(ex).__name__}: {ex} @ {_where()}")


def _deliberate(ex):
    """Raised by a statement of the code under proof, by the engine's own array or sequence
    semantics, or by the contract itself."""
    last = traceback.extract_tb(ex.__traceback__)[-1]
    if "/pv/" in last.filename or "/contracts/" in last.filename:
        return True
    if "/caput/" in last.filename:
        line = (last.line or "").strip()
        return line.startswith(("raise", "assert")) or isinstance(ex, (KeyError, IndexError, ZeroDivisionError, AssertionError, StopIteration))
    return False


def run(mod, proof, root, tier, unroll_mode=False):
    from pv import sym, rt
    from pv.contract import External

    t0 = time.time()
    if isinstance(proof, External):
        obs = proof.fn(root, tier)
        return {
            "proof": proof.name, "status": "done", "bounded": bool(proof.bound),
            "bound": proof.bound, "functions": proof.functions, "assumes": proof.assumes,
            "obligations": {o["name"]: o for o in obs}, "wall_s": time.time() - t0,
            "paths": None, "covers": {},
        }
    out = None
    mismatch = None
    modes = ["contract", "unroll"] if proof.loops else ["contract"]
    for mode in modes:
        e = sym.Engine(
            timeout_ms=proof.timeout_ms * (3 if tier == "thorough" else 1),
            max_paths=proof.max_paths,
            budget_s=proof.budget * (3 if tier == "thorough" else 1) * (0.5 if mode == "unroll" else 1),
            unroll=proof.unroll,
        )
        e.mode = mode
        if mode == "contract":
            e.loop_contracts = dict(proof.loops)
        status, why = "done", ""
        try:
            e.explore(lambda: guarded(e, proof.fn))
        except rt.ContractMismatch as ex:
            mismatch = str(ex)
            continue
        except sym.Unsupported as ex:
            status, why = "unsupported", str(ex) + " @ " + _where()
        except sym.Budget as ex:
            status, why = "budget", str(ex)
        except Exception as ex:  # an exception escaping the contract
            status, why = "error", "".join(traceback.format_exception(ex))[-3000:]
        res = {
            "proof": proof.name, "status": status, "why": why, "mode": mode,
            "bounded": bool(e.bounded or proof.bound or mode == "unroll"), "unrolled": e.bounded or mode == "unroll",
            "bound": proof.bound or (f"symbolic loops unrolled {proof.unroll} times" if e.bounded or mode == "unroll" else None),
            "functions": proof.functions, "assumes": sorted(set(proof.assumes) | e.assumed),
            "obligations": e.obligations, "wall_s": time.time() - t0, "paths": e.paths,
            "abstract": getattr(proof, "abstract", False), "covers": e.covers, "solver_s": e.solver_s, "mismatch": mismatch,
        }
        refuted = any(o["status"] == "refuted" for o in res["obligations"].values())
        if mode == "contract" and proof.loops and (refuted or status != "done" or any(o["status"] == "unknown" for o in res["obligations"].values())):
            # the loop may be written differently: decide without its invariant, loops unrolled
            first = out = res
            continue
        if mode == "unroll" and out is not None and not refuted:
            # the loops do what they should as far as they were unrolled: the invariant no longer fits
            for o in first["obligations"].values():
                if o["status"] == "refuted":
                    o["status"] = "unknown"
                    o["detail"] = "the loop invariant no longer fits; " + (status if status != "done" else "not refuted with the loops unrolled")
            out = first
            out["mismatch"] = "a loop invariant no longer fits the code"
            break
        out = res
        break
    missing = [c for c in proof.covers if not out["covers"].get(c)]
    out["vacuous"] = missing
    return out


def _where():
    tb = sys.exc_info()[2]
    loc = ""
    for f in traceback.extract_tb(tb):
        if "/caput/" in f.filename:
            loc = f"{f.filename.split('/caput/')[-1]}:{f.lineno}"
    return loc


def main():
    modname, name, root, tier, outfile = sys.argv[1:6]
    from pv import loader
    from pv.contract import External

    os.environ["PV_WORLD"] = "symbolic"
    loader.install(root)
    mod = importlib.import_module("contracts." + modname)
    proof = next(p for p in mod.PROOFS if p.name == name)
    try:
        res = run(mod, proof, root, tier)
    except BaseException as ex:  # noqa: BLE001
        res = {"proof": name, "status": "error", "why": "".join(traceback.format_exception(ex))[-3000:],
               "obligations": {}, "functions": [], "assumes": [], "wall_s": 0, "covers": {}, "bounded": False}
    # solver counterexamples -> concrete cases for the real code
    cases = []
    tc = getattr(proof, "to_cases", None)
    for on, ob in res["obligations"].items():
        if ob["status"] == "refuted":
            if "cases" in ob:
                cases += [[on, f, c] for f, c in ob["cases"]]
            elif tc:
                try:
                    cases += [[on, f, c] for f, c in tc(on, ob.get("model", {}))]
                except Exception as ex:  # noqa: BLE001
                    ob["replay_error"] = repr(ex)
    res["cases"] = cases
    with open(outfile, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()

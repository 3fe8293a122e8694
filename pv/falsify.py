"""Worker: evaluate contracts at run time on the real code (plain CPython, no hooks)."""

from __future__ import annotations

import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def stale_harness(ex):
    """The harness used an internal name or signature that no longer exists: not a violation."""
    import re

    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(os.path.join(HERE, "contracts")):
        return False
    m = str(ex)
    if isinstance(ex, ImportError):
        return "cannot import name" in m or "No module named 'caput" in m
    if isinstance(ex, AttributeError):
        return re.search(r"(module 'caput|type object|object) .*has no attribute '_", m) is not None or "module 'caput" in m
    if isinstance(ex, TypeError):
        return re.search(r"\b_\w+\(\) (got an unexpected keyword|takes \d+ positional|missing \d+ required)", m) is not None
    return False


def main():
    args = json.loads(sys.argv[1])
    sys.path.insert(0, HERE)
    sys.path.insert(0, args["root"])
    os.environ["PV_WORLD"] = "plain"
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("contracts." + args["module"])
    f = next(x for x in mod.FALSIFIERS if x.name == args["falsifier"])
    rank, size, comm = 0, 1, None
    if args.get("ranks"):
        from mpi4py import MPI

        comm = MPI.COMM_WORLD
        rank, size = comm.rank, comm.size
    seed = args["seed"]
    rng = random.Random(f"{seed}:{f.name}:{size}")
    if args.get("cases") is not None:
        cases = args["cases"]
    else:
        cases = None
    deadline = time.time() + args["budget"]
    fails = []
    stale = []
    n = 0
    progress = open(args["out"] + f".progress{rank}", "w")

    def stream():
        if cases is not None:
            yield from cases
            return
        yield from f.fixed
        total = args["n"]
        for i in range(total):
            yield f.gen(rng, i)

    # a case that makes no progress is itself a failure: name it and stop
    import glob
    import threading

    state = {"t": None, "case": None}

    def watchdog():
        while True:
            time.sleep(0.5)
            t = state["t"]
            if t is not None and time.time() - t > args.get("case_timeout", 40):
                notes = ""
                for pth in sorted(glob.glob(args["out"] + ".progress*")):
                    try:
                        with open(pth) as fh:
                            tx = fh.read()
                        if "\n" in tx:
                            notes += f"[rank {pth.rsplit('progress', 1)[1]}] " + tx.split("\n", 1)[1][-900:] + "\n"
                    except OSError:
                        pass
                fails.append({"falsifier": f.name, "case": state["case"], "ranks": size if comm else None,
                              "message": "no progress (deadlock or endless loop)\n" + notes})
                with open(args["out"], "w") as fh:
                    json.dump({"falsifier": f.name, "runs": n + 1, "fails": fails, "ranks": size if comm else None,
                               "distinct": len(seen), "samples": samples}, fh)
                os._exit(3)

    seen, samples = set(), []
    if rank == 0:
        threading.Thread(target=watchdog, daemon=True).start()

    for case in stream():
        stop = time.time() > deadline
        if comm is not None:
            stop = comm.bcast(stop, root=0)
        if stop:
            break
        js = json.dumps(case)
        progress.seek(0)
        progress.truncate()
        progress.write(js)
        progress.flush()
        state["case"], state["t"] = case, time.time()
        seen.add(hash(js))
        if n in (0, 7, 40):
            samples.append(case)
        try:
            msg = f.check(json.loads(json.dumps(case)))
        except AssertionError as ex:
            msg = "assertion: " + (str(ex) or "".join(traceback.format_exception(ex))[-1500:])
        except SystemExit as ex:
            msg = f"SystemExit {ex}"
        except Exception as ex:  # noqa: BLE001
            msg = "exception: " + "".join(traceback.format_exception(ex))[-1500:]
            if stale_harness(ex):
                stale.append(repr(ex)[:300])
                msg = None
        n += 1
        if msg and comm is not None:
            progress.write("\n" + msg)
            progress.flush()
        if comm is not None:
            msgs = comm.allgather(msg)
            bad = [f"[rank {r}] {m}" for r, m in enumerate(msgs) if m]
            msg = "\n".join(bad) if bad else None
        if msg:
            fails.append({"falsifier": f.name, "case": case, "message": msg, "ranks": size if comm else None})
            if len(fails) >= 3 or comm is not None:
                break
    if rank == 0:
        with open(args["out"], "w") as fh:
            json.dump({"falsifier": f.name, "runs": n, "fails": fails, "ranks": size if comm else None,
                       "distinct": len(seen), "samples": samples, "stale": stale[:3], "nstale": len(stale)}, fh)
    state["t"] = None
    progress.close()
    sys.stdout.flush()
    if comm is not None:
        comm.Barrier()
    os._exit(0)


if __name__ == "__main__":
    main()

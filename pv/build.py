"""Scratch copy of /repo's current tree, with the compiled extensions it needs."""

from __future__ import annotations

import os
import shutil
import subprocess
import sysconfig
import tempfile

PY = "/opt/venv/bin/python"
REPO = os.environ.get("PV_REPO", "/repo")
EXTS = {
    "median": ("caput/algorithms/median/weighted.pyx", True),
    "truncate": ("caput/util/truncate.pyx", False),
    "spherical": ("caput/astro/coordinates/_spherical.pyx", False),
    "invert": ("caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", False),
}


def scratch():
    return tempfile.mkdtemp(prefix="pv_")


def prepare(root, exts=()):
    """Copy caput into root and build the named extensions (others: lazy stubs)."""
    src = os.path.join(REPO, "caput")
    dst = os.path.join(root, "caput")
    shutil.copytree(
        src, dst, ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "*.pyc")
    )
    import numpy

    inc = [f"-I{sysconfig.get_path('include')}", f"-I{numpy.get_include()}"]
    procs = []
    for name in exts:
        pyx, cpp = EXTS[name]
        if not os.path.exists(os.path.join(root, pyx)):
            raise RuntimeError(f"{pyx} is gone")
        out = pyx[:-4] + (".cpp" if cpp else ".c")
        so = pyx[:-4] + ".cpython-312-x86_64-linux-gnu.so"
        cc = ["g++", "-std=c++11"] if cpp else ["gcc"]
        gen = [PY, "-m", "cython", *(["--cplus"] if cpp else []), pyx, "-o", out]
        comp = [
            *cc, "-O1", "-fno-math-errno", "-fno-trapping-math", "-fopenmp", "-march=native",
            "-shared", "-fPIC", "-w", out, "-o", so, *inc,
        ]
        sh = " ".join(gen) + " && " + " ".join(comp)
        procs.append((name, subprocess.Popen(["bash", "-c", sh], cwd=root, stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
    for name, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError(f"extension {name} does not build:\n{o[-3000:]}")
    for name, (pyx, _) in EXTS.items():
        if name not in exts:
            with open(os.path.join(root, pyx[:-4] + ".py"), "w") as f:
                f.write(
                    "def __getattr__(n):\n"
                    "    if n.startswith('__'):\n        raise AttributeError(n)\n"
                    "    def ext(*a, **k):\n"
                    f"        raise RuntimeError('extension {name} not built for this check: ' + n)\n"
                    "    return ext\n"
                )
    return root

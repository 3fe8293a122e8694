"""Mechanical reading of a Cython source as Python, redone from /repo's file on every run.

What it drops, completely: C types (of parameters, locals, returns, casts and template
arguments), `cimport`, `ctypedef` blocks, `@cython` directives, `np.import_array()`, and
`nogil`/`parallel`/`prange` (an OpenMP loop is read as the sequential loop over the same
range).  A declaration with an initialiser becomes the assignment; the default construction of a
C++ object becomes a call without arguments.  Every other character of every statement is kept.
C integers and doubles become mathematical integers and reals.
"""

from __future__ import annotations

import re

NAME = r"[A-Za-z_]\w*"


def _split(s, sep=","):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _param(p):
    p = p.strip()
    if not p or p.startswith("*"):
        return p
    default = ""
    if "=" in p:
        p, d = p.split("=", 1)
        default = "=" + d.strip()
    p = re.sub(r"\s+not\s+None$", "", p.strip())
    if re.match(NAME + r"\s*:", p):  # Python annotation
        return p.split(":")[0].strip() + default
    return re.search(r"(" + NAME + r")\s*$", p).group(1) + default


def _unbracket(s):
    """Without what stands in square brackets (types only: parameter lists)."""
    out, depth = "", 0
    for ch in s:
        if ch == "[":
            depth += 1
        if not depth:
            out += ch
        if ch == "]":
            depth -= 1
    return out


def _templates(s, names):
    """X[...] -> X for the named C++ templates."""
    for n in names:
        while True:
            m = re.search(r"\b" + n + r"\[", s)
            if not m:
                break
            i, depth = m.end(), 1
            while depth:
                depth += {"[": 1, "]": -1}.get(s[i], 0)
                i += 1
            s = s[: m.end() - 1] + s[i:]
    return s


def module(root, pyx, name, cpp=(), casts=()):
    """Write the reading of root/pyx next to it and import it through the verifier's loader."""
    import importlib
    import os

    with open(os.path.join(root, pyx)) as f:
        text = to_python(f.read(), cpp, casts)
    out = os.path.join(root, os.path.dirname(pyx), name + ".py")
    tmp = f"{out}.{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, out)
    importlib.invalidate_caches()
    return importlib.import_module(os.path.dirname(pyx).replace("/", ".") + "." + name)


def to_python(text, cpp=(), casts=()):
    """cpp: names of the C++ class templates; casts: type names that occur in <casts>."""
    text = re.sub(r'^( *)(cdef|cpdef|def)\b([^\n(]*)\(([^)]*(?:\([^)]*\)[^)]*)*)\)([^:\n]*):[ \t]*(#.*)?$',
                  lambda m: _header(m), text, flags=re.M)
    out, skip = [], None
    for line in text.split("\n"):
        ind = len(line) - len(line.lstrip())
        s = line.strip()
        if skip is not None:
            if s and ind <= skip:
                skip = None
            else:
                continue
        if re.match(r"(from .* )?cimport\b|from cython\b|import cython\b|np\.import_array|@cython\.", s):
            continue
        if s.startswith("ctypedef"):
            skip = ind
            continue
        pad = line[:ind]
        m = re.match(r"cdef\s+(.*)$", s)
        if m:
            line = _decl(pad, m.group(1), cpp)
            if line is None:
                continue
        line = _templates(line, cpp)
        line = re.sub(r"\bnew (?=[A-Z])", "", line)
        for c in casts:
            line = line.replace(f"<{c}>", "")
        line = re.sub(r"\bwith (nogil|gil)\b[^:]*:", "if True:", line)
        line = re.sub(r"\bwith cython\.\w+\([^()]*\)(\s*,\s*cython\.\w+\([^()]*\))*\s*:", "if True:", line)
        line = re.sub(r"&(" + NAME + r")\[([^\[\]]*)\]", r"pv_ptr(\1, (\2))", line)
        line = re.sub(r"\bprange\(([^,()]+)(,\s*\w+\s*=\s*[^,()]+)*\)", r"range(\1)", line)
        out.append(line)
    return "\n".join(out)


def _header(m):
    pad, kind, left, params = m.group(1), m.group(2), m.group(3), m.group(4)
    name = re.search(r"(" + NAME + r")\s*$", left).group(1)
    if kind == "cdef" and "=" in left:
        return m.group(0)
    return f"{pad}def {name}({', '.join(_param(p) for p in _split(_unbracket(params)))}):"


def _decl(pad, rest, cpp):
    rest = re.sub(r"#.*$", "", rest).strip()
    # the type: a name with optional [...] (template or memoryview) and qualifiers
    m = re.match(r"(?:(?:const|unsigned|signed)\s+)*" + NAME + r"(?:\s*\[[^=]*?\](?=\s+" + NAME + r"))?(?:\s+(?:int|long|double))*[\s*&]+", rest)
    if not m:
        raise ValueError(f"declaration not understood: {rest}")
    ty = rest[: m.end()]
    items = []
    for d in _split(rest[m.end():]):
        if "=" in d:
            a, b = d.split("=", 1)
            items.append(f"{a.strip()} = {b.strip()}")
        else:
            base = re.match(NAME, ty.strip()).group(0)
            if base in cpp and base != "shared_ptr":
                items.append(f"{d.strip()} = {base}()")
    if not items:
        return None
    return pad + "; ".join(items)

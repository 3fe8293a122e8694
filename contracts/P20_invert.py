"""Guarded inversion: reciprocal where safe, exactly zero elsewhere."""

from pv.api import *

EXTS = ("invert",)
LEVEL = "proof"
USES_CBMC = True
PYX = "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"
ASSUMPTIONS = [
    "prange iterations write disjoint elements, so running them one after the other gives the same array (OpenMP pragmas are ignored by CBMC)",
    "the C compiler's complex division is correct and does not overflow when one component of the divisor exceeds the threshold (evaluated at run time)",
    "element types are single and double precision real and complex, native byte order, aligned; an output that partially overlaps the argument is not covered",
    "numpy's empty_like, ravel and reshape follow their documentation (the Python wrapper around the kernel is evaluated at run time, not proved)",
]
RULE = "random bit patterns with weight on zeros, denormals, the threshold, extreme exponents, infinities; every memory layout of argument and output"

# ---------------------------------------------------------------- proofs: the compiled kernel
KINDS = {
    "double": (0, "double", "double", 8, False),
    "double_complex": (1, "__pyx_t_double_complex", "double", 16, True),
    "float": (2, "float", "float", 4, False),
    "float_complex": (3, "__pyx_t_float_complex", "float", 8, True),
}


def kernel(kind, root, tier):
    from pv import cbmc

    # which of Cython's specialisations is the one for this type: by the type its body casts to
    ct, real, size, cplx = KINDS[kind][1:]
    mx = "DBL_MAX" if real == "double" else "FLT_MAX"
    names = ["zero-or-reciprocal", "reciprocal-when-safe", "zero-when-unsafe", "divides-one-by-a-safe-element"]

    def bits(ins):
        n = {"double": 64, "float": 32}[real]
        out = []
        for c in ("re", "im") if cplx else ("re",):
            v = ins.get("pv_in_" + c)
            out.append(int(v, 2) if v and len(v) == n else 0)
        return [("kernel", {"t": kind, "bits": [out]})]

    try:
        import re

        src = cbmc.cython_c(root, PYX)
        pat = None
        for k in range(8):
            p = rf"^static PyObject \*__pyx_fuse_{k}__pyx_f_\w*invert_no_zero__invert_no_zero\("
            try:
                a, b = cbmc.function_span(src, p)
            except cbmc.NoAttach:
                continue
            if re.search(rf"\*\(\({re.escape(ct)} (const )? ?\*\)", src[a:b]):
                pat = p
                break
        if pat is None:
            raise cbmc.NoAttach(f"no specialisation of the kernel for {ct}")
        fn = re.search(r"__pyx_fuse_\w+", src[a:b]).group(0)
        body = src[a:b]
        loop = cbmc.LOOP.search(body)
        if loop is None:
            raise cbmc.NoAttach("no loop in the kernel")
        # divisions by an element are taken at their contract (the stand-in checks its precondition)
        head, tail = body[:loop.start()], body[loop.start():]
        if cplx:
            tail, nd = re.subn(r"__Pyx_c_quot_(double|float)\(", r"pv_quot_\1(", tail)
        else:
            tail, nd = re.subn(r"\(1(\.0)?f? / ", "pv_div(1, ", tail)
        if nd != 1:
            raise cbmc.NoAttach(f"{nd} divisions in the kernel's loop")
        src = src[:a] + head + tail + src[b:]
        thr = f"(1.0 / {mx})"
        if cplx:
            xs, os_, ins = ["pv_a[pv_g].real", "pv_a[pv_g].imag"], ["pv_o[pv_g].real", "pv_o[pv_g].imag"], ["re", "im"]
        else:
            xs, os_, ins = ["pv_a[pv_g]"], ["pv_o[pv_g]"], ["re"]
        safe = "(" + " || ".join(f"PV_ABS({x}) > {thr} * 1.0000001" for x in xs) + ")"
        unsafe = "(" + " && ".join(f"PV_ABS({x}) < {thr} * 0.9999999" for x in xs) + ")"
        zero = "(" + " && ".join(f"{o} == 0" for o in os_) + ")"
        # pv_q*: the quotient of the element watched, whatever the division makes it
        rec = "(" + " && ".join(f"PV_SAME({o}, pv_q{c})" for o, c in zip(os_, ins)) + ")"
        nan = "(" + " || ".join(f"{x} != {x}" for x in xs) + ")"
        post = f"(({zero} || {rec}) && (!({safe} || {nan}) || {rec}) && (!{unsafe} || {zero}))"
        inv = "{i} >= 0 && {i} <= {n} && (!({i} > pv_g) || " + post + ")"
        pre = "#include <stdlib.h>\n#include <float.h>\n#include <Python.h>\nextern long nondet_pv_long(void); extern double nondet_pv_double(void); extern float nondet_pv_float(void);\n"
        pre += "#define PV_ABS(x) ((double)((x) < 0 ? -(x) : (x)))\n#define PV_SAME(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))\n"
        ctype = real
        if cplx:
            ctype = "pv_c"
            pre += f"typedef struct {{ {real} real, imag; }} pv_c;\n"
        pre += f"long pv_g; {ctype} *pv_a, *pv_o; {real} pv_xre, pv_xim, pv_qre, pv_qim;\n"
        safe_b = " || ".join(f"PV_ABS({x}) > {thr} || {x} != {x}" for x in (["b.real", "b.imag"] if cplx else ["b"]))
        if cplx:
            quot = "".join(f"""static __pyx_t_{r}_complex pv_quot_{r}(__pyx_t_{r}_complex a, __pyx_t_{r}_complex b) {{
 __pyx_t_{r}_complex z;
 __CPROVER_assert(a.real == 1 && a.imag == 0 && ({safe_b}), "divides-one-by-a-safe-element");
 if (PV_SAME(b.real, pv_xre) && PV_SAME(b.imag, pv_xim)) {{ z.real = pv_qre; z.imag = pv_qim; }}
 return z; }}
""" for r in ("double", "float"))
        else:
            quot = f"""static {real} pv_div(double a, double b) {{
 {real} z;
 __CPROVER_assert(a == 1 && ({safe_b}), "divides-one-by-a-safe-element");
 if (PV_SAME(b, pv_xre)) z = pv_qre;
 return z; }}
"""
        call = f"""
int main(void) {{
  long n = PV_N;
  __CPROVER_assume(n > 0 && n <= (1L << 40));
  pv_a = malloc(n * {size}); pv_o = malloc(n * {size});
  __CPROVER_assume(pv_a != 0 && pv_o != 0);
  pv_g = PV_G; __CPROVER_assume(pv_g >= 0 && pv_g < n);
  __Pyx_memviewslice A = {{0}}, O = {{0}};
  A.data = (char *)pv_a; A.shape[0] = n; A.strides[0] = {size};
  O.data = (char *)pv_o; O.shape[0] = n; O.strides[0] = {size};
  {' '.join(f'{real} pv_in_{c} = {x}; pv_x{c} = pv_in_{c}; pv_q{c} = nondet_pv_{real}();' for c, x in zip(ins, xs))}
  {fn}(A, O, 0);
  __CPROVER_assert({zero} || {rec}, "zero-or-reciprocal");
  __CPROVER_assert(!({safe} || {nan}) || {rec}, "reciprocal-when-safe");
  __CPROVER_assert(!{unsafe} || {zero}, "zero-when-unsafe");
  return 0;
}}
"""

        def text(annotated, bound):
            s = cbmc.attach(src, pat, [inv], ["__CPROVER_object_whole(__pyx_v_out.data)"]) if annotated else src
            # the stand-in for the division must follow the type definitions
            a, _ = cbmc.function_span(s, pat)
            s = s[:a] + quot + s[a:]
            return pre + f"#define PV_N {'nondet_pv_long()' if annotated else bound}\n#define PV_G {'nondet_pv_long()' if annotated else bound - 1}\n" + s + cbmc.STUBS + call

        defs = ["CYTHON_CCOMPLEX=0"]
        st, res, secs = cbmc.verify(root, "inv_" + kind, text(True, 0), names, defs=defs, timeout=200, solver=())
        if st != "done" or any(not ok for ok, _ in res.values()):
            # the contract may just not fit a rewritten loop: ask again without it, for short arrays
            st2, res2, secs2 = cbmc.verify(root, "inv_" + kind + "_u", text(False, 2), names, dfcc=False, unwind=3, defs=defs, timeout=200, solver=())
            if st2 == "done" and any(not ok for ok, _ in res2.values()):
                return cbmc.obligations(st2, res2, secs2, names, kind + ":", bits, backend="cbmc")
            return cbmc.obligations("unknown: " + st + (" (holds for arrays of up to 2 elements)" if st2 == "done" else " " + st2), {}, secs + secs2, names, kind + ":")
        return cbmc.obligations(st, res, secs, names, kind + ":", bits, backend="cbmc")
    except cbmc.NoAttach as ex:
        return cbmc.obligations(f"unknown: {ex}", {}, 0.0, names, kind + ":")


def division(real, root, tier):
    """Lemma used with the kernel's contract: above the threshold the reciprocal never overflows."""
    from pv import cbmc

    mx = "DBL_MAX" if real == "double" else "FLT_MAX"
    text = f"""#include <float.h>
extern {real} nondet_pv(void);
int main(void) {{ {real} x = nondet_pv(); double t = 1.0 / {mx};
 __CPROVER_assume((x < 0 ? -(double)x : (double)x) > t);
 {real} q = ({real})(1.0 / (double)x);
 __CPROVER_assert(!(q > {mx} || q < -{mx}), "never-infinite");
 __CPROVER_assert(x != 1.0 || q == 1.0, "reciprocal-of-one"); return 0; }}
"""
    names = ["never-infinite", "reciprocal-of-one"]
    st, res, secs = cbmc.verify(root, "div_" + real, text, names, dfcc=False, timeout=200, solver=() if real == "float" else ("--fpa", "--cvc5"))
    return cbmc.obligations(st, res, secs, names, real + ":")


PROOFS = [
    External("kernel_" + k, (lambda k: lambda root, tier: kernel(k, root, tier))(k), ["caput.algorithms._invert_no_zero._invert_no_zero[" + k + "] (C text generated by Cython)"],
             assumes=["contiguous one-dimensional views, as the wrapper passes them"])
    for k in KINDS
] + [
    External("division_" + r, (lambda r: lambda root, tier: division(r, root, tier))(r), [], assumes=["IEEE-754 arithmetic"]) for r in ("double", "float")
]


# ---------------------------------------------------------------- run time
DT = {"double": "float64", "float": "float32", "double_complex": "complex128", "float_complex": "complex64"}


def special(rng, real):
    w = 64 if real == "double" else 32
    eb = 11 if w == 64 else 8
    mb = w - 1 - eb
    k = rng.randrange(8)
    sign = rng.getrandbits(1) << (w - 1)
    if k == 0:
        return sign
    if k == 1:
        return sign | rng.getrandbits(mb)
    if k == 2:  # around 1/MAX: the reciprocal of the largest number is 2^-(bias+1): a denormal with its second bit set
        return sign | ((1 << (mb - 2)) + rng.randint(-3, 3))
    if k == 3:
        return sign | (rng.randrange(1 << eb) << mb) | rng.getrandbits(mb)
    if k == 4:
        return sign | (((1 << eb) - 2) << mb) | rng.getrandbits(mb)
    if k == 5:
        return sign | (rng.choice([1, 2, 3]) << mb) | rng.getrandbits(mb)
    if k == 6:
        import struct

        v = rng.choice([1.0, 2.0, 3.0, 0.1, 1e-3, 7e5])
        return sign | int.from_bytes(struct.pack(">d" if w == 64 else ">f", v), "big")
    return sign | (((1 << eb) - 1) << mb) if rng.random() < 0.5 else sign


def gen_kernel(rng, i):
    t = rng.choice(list(DT))
    real = t.split("_")[0]
    n = rng.choice([0, 1, 2, 3, 7, 64])
    return {"t": t, "bits": [[special(rng, real) for _ in range(2 if "complex" in t else 1)] for _ in range(n)]}


def array(c):
    import numpy as np

    t = c["t"]
    real = t.split("_")[0]
    u = np.uint64 if real == "double" else np.uint32
    flat = np.array([b for p in c["bits"] for b in p], dtype=u)
    return flat.view(DT[t])


def verdict(x, y):
    """The definition, element by element; None or the first element that is wrong."""
    import numpy as np

    x, y = np.asarray(x), np.asarray(y)
    if y.dtype != x.dtype or y.shape != x.shape:
        return f"type {y.dtype} or shape {y.shape} of the result differ from {x.dtype} {x.shape}"
    cplx = x.dtype.kind == "c"
    rt = np.float64 if x.dtype in (np.float64, np.complex128) else np.float32
    mx = float(np.finfo(rt).max)
    thr = 1.0 / mx
    for i in np.ndindex(x.shape):
        a, b = x[i], y[i]
        parts = [abs(float(a.real)), abs(float(a.imag))] if cplx else [abs(float(a))]
        if all(p < thr * 0.9999999 for p in parts):
            if not (b == 0):
                return f"element {a!r} is below the smallest safely invertible value but gives {b!r}"
            continue
        if any(np.isnan(p) for p in parts) or (cplx and any(np.isinf(p) for p in parts)):
            continue
        if not np.isfinite(b):
            return f"element {a!r} gives {b!r}"
        if cplx:
            from fractions import Fraction as Fr

            re, im = Fr(float(a.real)), Fr(float(a.imag))
            m = re * re + im * im
            er, ei = re / m, -im / m
            size = max(abs(er), abs(ei))
            tol = size * Fr(1, 2 ** (40 if rt is np.float64 else 18)) + Fr(8 * float(np.finfo(rt).smallest_subnormal))
            ok = abs(Fr(float(b.real)) - er) <= tol and abs(Fr(float(b.imag)) - ei) <= tol
        else:
            with np.errstate(all="ignore"):
                e = rt(1.0 / np.float64(a)) if rt is np.float32 else np.float64(1.0) / a
            ok = abs(float(b) - float(e)) <= abs(float(e)) * (1e-15 if rt is np.float64 else 2e-7) + 2 * float(np.finfo(rt).smallest_subnormal)
        if not ok and all(p > thr * 1.0000001 for p in parts if p):
            return f"element {a!r} gives {b!r}, not its reciprocal"
        if not ok and not (b == 0):
            return f"element {a!r} gives {b!r}"
    return None


def chk_kernel(c):
    import numpy as np
    from caput.algorithms import invert_no_zero

    x = array(c)
    before = x.tobytes()
    y = invert_no_zero(x)
    if x.tobytes() != before:
        return "the argument was modified"
    return verdict(x, y)


LAY = ["C", "F", "step", "rev", "T3", "ro", "0d"]


def gen_layout(rng, i):
    t = rng.choice(list(DT) + ["int32", "int64", "uint8", "bool"])
    shape = [rng.choice([0, 1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 2, 3]))]
    n = 1
    for s in shape:
        n *= s
    vals = [[rng.choice([0, 0, 1, 2, 4, 0.5, -8, 1e-30]) for _ in range(2)] for _ in range(n)]
    return {"t": t, "shape": shape, "vals": vals, "lay": rng.choice(LAY[:6]), "out": rng.choice([None, None, *LAY[:5], "same"]), "mpi": rng.random() < 0.25, "wrong": rng.random() < 0.06}


def layout(a, lay, np):
    """The same values in a given memory layout."""
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "step":
        b = np.zeros([2 * s + 1 for s in a.shape], dtype=a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if lay == "rev":
        return np.ascontiguousarray(a[(slice(None, None, -1),) * a.ndim])[(slice(None, None, -1),) * a.ndim]
    if lay == "T3":
        p = list(range(a.ndim))
        p = p[1:] + p[:1]
        inv = [p.index(k) for k in range(a.ndim)]
        return np.ascontiguousarray(a.transpose(p)).transpose(inv)
    if lay == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    return np.ascontiguousarray(a).reshape(a.shape)


def chk_layout(c):
    import numpy as np
    from caput.algorithms import invert_no_zero

    cplx = "complex" in c["t"]
    dt = np.dtype(DT.get(c["t"], c["t"]))
    vals = [complex(*v) if cplx else (abs(v[0]) if dt.kind in "ub" else v[0]) for v in c["vals"]]
    a = np.array(vals, dtype=np.complex128 if cplx else np.float64).astype(dt).reshape(c["shape"])
    x = layout(a, c["lay"], np)
    if c["mpi"]:
        from caput import mpiarray

        x = mpiarray.MPIArray.wrap(x, axis=0)
    rd = dt if dt.kind in "fc" else np.dtype(np.float64)
    ref = a.astype(rd)
    before = np.array(x, copy=True)
    o = c["out"]
    out = None
    if o == "same":
        if dt != rd or c["lay"] == "ro":
            o = None
        else:
            out = x
    elif o:
        shp = a.shape if not c["wrong"] else (*a.shape, 2)
        out = layout(np.full(shp, 77, dtype=rd), o, np)
        outbase = out
        if c["mpi"] and not c["wrong"]:
            out = type(x).wrap(out, axis=0)
    if o and c["wrong"] and o != "same":
        try:
            invert_no_zero(x, out=out)
        except ValueError:
            return None if (np.asarray(out) == 77).all() else "refused, but the output was written to"
        return "an output of another shape was accepted"
    y = invert_no_zero(x, out=out) if out is not None else invert_no_zero(x)
    if out is not None and y is not out:
        return "the result is not the given output"
    m = verdict(ref, np.asarray(y))
    if m:
        return m
    if o and o != "same":
        m = verdict(ref, np.asarray(outbase))
        if m:
            return "the memory of the given output: " + m
    if o != "same" and not np.array_equal(np.asarray(x), before):
        return "the argument was modified"
    if c["mpi"]:
        if type(y) is not type(x) or y.axis != x.axis or y.global_shape != x.global_shape or y.local_offset != x.local_offset:
            return "the distribution of the argument was not kept"
    return None


def gen_scalar(rng, i):
    return {"k": rng.choice(["int", "float", "complex", "bool", "list", "nested", "f32", "c64", "0d", "empty"]), "v": rng.choice([0, 1, 2, -4, 0.5])}


def chk_scalar(c):
    import numpy as np
    from caput.algorithms import invert_no_zero

    v = c["v"]
    e = 0.0 if v == 0 else 1.0 / v
    k = c["k"]
    if k == "int":
        v = int(v)
        e = 0.0 if v == 0 else 1.0 / v
    if k == "bool":
        v = bool(v)
        e = float(v)
    x = {"int": v, "float": float(v), "complex": complex(v, 0), "bool": v, "list": [v, 0, 1], "nested": [[v, 2], [0, 1]], "f32": np.float32(v), "c64": np.complex64(v), "0d": np.array(float(v)), "empty": []}[k]
    ex = {"list": [e, 0, 1], "nested": [[e, 0.5], [0, 1]], "empty": []}.get(k, e)
    y = invert_no_zero(x)
    if np.shape(y) != np.shape(x):
        return f"shape {np.shape(y)} for {x!r}"
    if not np.array_equal(np.asarray(y), np.asarray(ex)):
        return f"{x!r} gives {y!r}"
    if k in ("f32", "c64") and np.asarray(y).dtype != x.dtype:
        return f"type of {x!r} became {np.asarray(y).dtype}"
    return None


FALSIFIERS = [
    Falsifier("kernel", gen_kernel, chk_kernel, n=600, thorough=8000,
              fixed=[{"t": "double", "bits": [[0x0004000000000000], [0x0004000000000001], [0x0003FFFFFFFFFFFF], [0x8004000000000000], [0], [1 << 63]]},
                     {"t": "double_complex", "bits": [[0x0004000000000000, 0], [0, 0x0004000000000000], [0x0004000000000000, 0x0004000000000000], [0x0004000000000001, 0], [0, 0x8004000000000001], [0, 1]]},
                     {"t": "float", "bits": [[0x00200000], [0x00200001], [0x001FFFFF], [0x80200000], [0]]},
                     {"t": "float_complex", "bits": [[0x00200000, 0], [0, 0x00200001], [0x00200001, 0x001FFFFF], [0, 0]]}]),
    Falsifier("layout", gen_layout, chk_layout, n=500, thorough=8000,
              fixed=[{"t": t, "shape": [2, 3], "vals": [[k, 0] for k in range(6)], "lay": a, "out": b, "mpi": m, "wrong": False} for t in ("double", "int64") for a in ("C", "F") for b in (None, "C", "F", "step") for m in (False, True)]),
    Falsifier("scalar", gen_scalar, chk_scalar, n=60, thorough=300),
]

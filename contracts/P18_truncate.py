"""Bit truncation stays within the requested error and only clears low bits."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
USES_CBMC = True
HPP = "caput/util/truncate.hpp"
ASSUMPTIONS = [
    "errors, weights and precisions are not negative and not NaN",
    "a shift by a negative distance (which the code makes when rounding carries into the next power of two) yields bits that the following mask removes: true of the x86 instructions and of CBMC's reading, undefined in C",
    "the loops over arrays (truncate.pyx) and the square root and product that give the error of an element are evaluated at run time, not proved",
    "bit_truncate_max_complex works in single precision: elements within the range of normal single-precision numbers",
]
RULE = "random bit patterns with weight on exponent boundaries, denormals, infinities, mantissas next to ties; every array function, contiguous and strided, with one and several threads"

# ---------------------------------------------------------------- proofs: the header, for every bit pattern
INT = """
extern {T} nondet_v(void);
int main(void) {{
  {T} v = nondet_v(), e = nondet_v(), pv_in_v = v, pv_in_e = e;
  __CPROVER_assume(e >= 0 && e < (({T})1 << {emax}) && v > -(({T})1 << {vmax}) && v < (({T})1 << {vmax}));
  {T} r = {fn}(v, e);
  {T} g = 1; /* the power of two larger than the error */
  {smear}
  {T} d = r > v ? r - v : v - r;
  __CPROVER_assert(d <= e, "int:within-the-error");
  __CPROVER_assert((r & (g - 1)) == 0, "int:multiple-of-the-power-of-two-above-the-error");
  __CPROVER_assert(d <= g / 2, "int:nearest-such-multiple");
  __CPROVER_assert(g == 1 || 2 * (unsigned long)d != (unsigned long)g || (r & g) == 0, "int:ties-to-even");
  __CPROVER_assert(e != 0 || r == v, "int:no-error-no-change");
  __CPROVER_assert(pv_reach, "pv-reached");
  return 0;
}}
"""

FLT = """
extern {F} nondet_v(void);
union pv_u {{ {F} f; {U} u; }};
int main(void) {{
  union pv_u a, b, c;
  a.f = nondet_v(); c.f = nondet_v();
  {F} v = a.f, e = c.f;
  {U} pv_in_v = a.u, pv_in_e = c.u;
  __CPROVER_assume(e >= 0);
  b.f = {fn}(v, e);
  {F} r = b.f;
  const int M = {mb}, X = {xmax};
  int p = (int)((a.u >> M) & X), q = (int)((b.u >> M) & X);
  {U} low = (({U})1 << M) - 1;
  int inf_err = ((c.u >> M) & X) == X;
  __CPROVER_assert(!(p == X && !inf_err) || a.u == b.u, "{k}:inf-and-nan-kept");
  __CPROVER_assert(p == X || q != X, "{k}:finite-stays-finite");
  __CPROVER_assert((a.u >> {sb}) == (b.u >> {sb}), "{k}:sign-kept");
  __CPROVER_assert(e != 0 || a.u == b.u, "{k}:no-error-no-change");
  __CPROVER_assert((a.u << 1) != 0 || a.u == b.u, "{k}:zero-kept");
  {W} d = ({W})r - ({W})v;
  if (d < 0) d = -d;
  __CPROVER_assert(p == X || d <= ({W})e, "{k}:within-the-error");
  /* mantissas as integers on the scale of the value: R is the result's */
  int zero = (b.u << 1) == 0;
  __CPROVER_assert(p == X || p == 0 || zero || q == p || (q == p + 1 && (b.u & low) == 0), "{k}:rounded-at-the-scale-of-the-value");
  if (p != X && p != 0 && (zero || q == p || q == p + 1)) {{
    {I} m = (a.u & low) | (({U})1 << M);
    {I} R = zero ? 0 : (({I})((b.u & low) | (({U})1 << M))) << (q - p);
    /* number of units of the last place in the error: g is the power of two above it */
    int k = ((int)((c.u >> M) & X)) - p; /* err = mantissa * 2^(k) units >> M */
    {I} em = (c.u & low) | (({U})1 << M);
    {I} E = ((c.u >> M) & X) == 0 ? (p - 1 <= M ? ({I})(c.u & low) >> (p - 1) : ({I})0) : (k > 6 ? ({I})-2 : k >= 0 ? em << k : (k > -M - 2 ? em >> -k : 0));
    if (E == -2) __CPROVER_assert(zero || a.u == b.u, "{k}:rounds-to-zero-under-a-larger-error");
    if (E >= 0) {{
      {I} g = 1;
      {smear}
      {I} D = R > m ? R - m : m - R;
      int kept = (a.u == b.u) && p == X - 1; /* would overflow */
      __CPROVER_assert(kept || (R & (g - 1)) == 0, "{k}:low-bits-cleared");
      __CPROVER_assert(D <= g / 2, "{k}:nearest");
      __CPROVER_assert(kept || g == 1 || 2 * D != g || (R & g) == 0, "{k}:ties-to-even");
    }}
  }}
  __CPROVER_assert(pv_reach, "pv-reached");
  return 0;
}}
"""


def smear(v, w):
    out = f"{{ {v[1]} s = {v[0]}; "
    k = 1
    while k < w:
        out += f"s |= s >> {k}; "
        k *= 2
    return out + "g = s + 1; }"


def header(kind, root, tier):
    import os

    from pv import cbmc

    if kind.startswith("int"):
        w = int(kind[3:])
        T = f"int{w}_t"
        text = INT.format(T=T, emax=w - 2, vmax=w - 3, fn="bit_truncate" if w == 32 else "bit_truncate_64", smear=smear(("e", T), w))
        names = ["within-the-error", "multiple-of-the-power-of-two-above-the-error", "nearest-such-multiple", "ties-to-even", "no-error-no-change"]
        names = ["int:" + n for n in names]

        def cases(ins):
            def num(s):
                x = int(s, 2)
                return x - (1 << w) if s[0] == "1" else x

            return [("ints", {"w": w, "v": num(ins["pv_in_v"]), "e": num(ins["pv_in_e"])})]
    else:
        f = kind == "float"
        U, I = ("uint32_t", "int64_t") if f else ("uint64_t", "int64_t")
        text = FLT.format(F=kind, U=U, I=I, W="double", fn=f"_bit_truncate_{kind}", mb=23 if f else 52, xmax=255 if f else 2047, sb=31 if f else 63, k=kind, smear=smear(("E", I), 64))
        names = [f"{kind}:{n}" for n in ("inf-and-nan-kept", "finite-stays-finite", "sign-kept", "no-error-no-change", "zero-kept", "within-the-error", "rounded-at-the-scale-of-the-value", "rounds-to-zero-under-a-larger-error", "low-bits-cleared", "nearest", "ties-to-even")]

        def cases(ins):
            return [("scalar", {"t": kind, "v": int(ins["pv_in_v"], 2), "e": int(ins["pv_in_e"], 2)})]

    if not os.path.exists(os.path.join(root, HPP)):
        return cbmc.obligations("unknown: header gone", {}, 0.0, names)
    pre = f'#include <stdint.h>\n#include <stdlib.h>\n#include <math.h>\n#include <float.h>\nint pv_reach;\n#include "{os.path.join(root, HPP)}"\n'
    st, res, secs = cbmc.verify(root, "tr_" + kind, pre + text, names + ["pv-reached"], dfcc=False, unwind=70, timeout=220, solver=())
    if st == "done":
        if res.pop("pv-reached")[0]:
            st = "unknown: vacuous"
        # anything the front end adds (unwinding of loops in a rewritten header) must hold as well
    return cbmc.obligations(st, res, secs, names, "", cases, backend="cbmc")


PROOFS = [
    External("header_" + k, (lambda k: lambda root, tier: header(k, root, tier))(k), fns, assumes=["IEEE-754 arithmetic, two's complement integers"] + extra)
    for k, fns, extra in [
        ("int32", ["truncate.hpp: bit_truncate"], ["|value| < 2^29, error < 2^30"]),
        ("int64", ["truncate.hpp: bit_truncate_64"], ["|value| < 2^61, error < 2^62"]),
        ("float", ["truncate.hpp: _bit_truncate_float, bit_truncate, count_zeros, fast_pow_double"], []),
        ("double", ["truncate.hpp: _bit_truncate_double, bit_truncate_64, count_zeros_64, fast_pow_double"], []),
    ]
]


# ---------------------------------------------------------------- run time
def judge(v, e, r, f32, slack=1e-6, unit=None):
    """The definition for one element (floats as Python floats); e: the error, known up to the slack."""
    import math
    from fractions import Fraction as Fr

    if math.isnan(v):
        return None if math.isnan(r) else f"NaN became {r}"
    if math.isinf(v):
        return None if r == v else f"{v} became {r}"
    if math.isnan(r) or math.isinf(r):
        return f"{v} became {r} (error {e})"
    if math.copysign(1, v) != math.copysign(1, r):
        return f"the sign of {v} changed: {r}"
    if v == 0:
        return None if r == 0 else f"zero became {r}"
    V, R = abs(Fr(v)), abs(Fr(r))
    if math.isinf(e):
        return None
    E = Fr(e)
    if e == 0:
        return None if r == v else f"{v} became {r} with no error allowed"
    if abs(R - V) > E * (1 + Fr(slack)):
        return f"{v} became {r}: off by {float(abs(R - V))}, allowed {e}"
    mb, emin = (23, -126) if f32 else (52, -1022)
    if abs(v) < 2.0 ** emin:
        return None if r == v or r == 0 else f"subnormal {v} became {r}"
    x = math.frexp(v)[1] - 1
    ulp = Fr(2) ** (x - mb)
    m = V / ulp
    n = R / ulp
    lo, hi = int(E * (1 - Fr(slack)) / ulp), int(E * (1 + Fr(slack)) / ulp)
    top = Fr(2) ** ((127 if f32 else 1023) + 1)
    if lo.bit_length() == hi.bit_length():
        g = 1 << lo.bit_length()
        if n % g:
            # kept when rounding up would overflow
            if r == v and V >= top / 2:
                return None
            return f"{v} with error {e} became {r}, which has more bits than needed"
        if g > 1 and abs(n - m) * 2 > g:
            return f"{v} with error {e} became {r}, not the nearest multiple"
        if g > 1 and abs(n - m) * 2 == g and (n // g) % 2 and not (V >= top / 2):
            return f"{v} with error {e}: tie went to {r}"
    return None


def bits(rng, f32):
    w, eb = (32, 8) if f32 else (64, 11)
    mb = w - 1 - eb
    s = rng.getrandbits(1) << (w - 1)
    k = rng.randrange(9)
    bias = (1 << (eb - 1)) - 1
    if k == 0:
        ex = rng.randrange(1 << eb)
    elif k == 1:
        ex = rng.choice([0, 1, 2, (1 << eb) - 1, (1 << eb) - 2, mb, mb - 1, mb - 2, mb + 1])
    else:
        ex = bias + rng.randint(-12, 12)
    man = rng.choice([0, (1 << mb) - 1, rng.getrandbits(mb), rng.getrandbits(mb), rng.getrandbits(8) << (mb - 8), (1 << rng.randrange(mb)) - 1, 1 << rng.randrange(mb)])
    return s | (ex << mb) | man


def val(b, f32):
    import struct

    return struct.unpack(">f", struct.pack(">I", b))[0] if f32 else struct.unpack(">d", struct.pack(">Q", b))[0]


def gen_scalar(rng, i):
    t = rng.choice(["float", "double"])
    f32 = t == "float"
    v = bits(rng, f32)
    w = 31 if f32 else 63
    mb = 23 if f32 else 52
    if rng.random() < 0.7:
        ex = (v >> mb) & ((1 << (w - mb)) - 1)
        ex = min(max(ex - rng.randint(-3, mb + 2), 0), (1 << (w - mb)) - 2)
        e = (ex << mb) | rng.choice([0, rng.getrandbits(mb), 1])
    else:
        e = bits(rng, f32) & ((1 << w) - 1)
    return {"t": t, "v": v, "e": e}


def chk_scalar(c):
    import math

    from caput.util import truncate

    f32 = c["t"] == "float"
    v, e = val(c["v"], f32), val(c["e"], f32)
    fn = truncate.bit_truncate_float if f32 else truncate.bit_truncate_double
    if math.isnan(e):
        try:
            fn(v, e)
        except ValueError:
            return None
        return "a NaN error was accepted"
    return judge(v, e, fn(v, e), f32, slack=0) if not (math.isinf(e)) else None


def gen_ints(rng, i):
    w = rng.choice([32, 64])
    n = rng.randrange(1, w - 3)
    return {"w": w, "v": rng.randint(-(1 << n), 1 << n), "e": rng.choice([0, 1, 2, 3, rng.getrandbits(rng.randrange(1, w - 2))])}


def chk_ints(c):
    from caput.util import truncate

    fn = truncate.bit_truncate_int if c["w"] == 32 else truncate.bit_truncate_long
    v, e = c["v"], c["e"]
    r = fn(v, e)
    g = 1 << e.bit_length()
    if abs(r - v) > e or r % g or 2 * abs(r - v) > g or (g > 1 and 2 * abs(r - v) == g and (r // g) % 2):
        return f"{v} with error {e} became {r}"
    return None


def gen_array(rng, i):
    f32 = rng.random() < 0.5
    n = rng.choice([0, 1, 2, 5, 17, 100, 1000])
    kind = rng.choice(["relative", "weights", "complex"])
    plain = rng.random() < 0.6
    vs = []
    for _ in range(n):
        b = bits(rng, f32)
        if plain:
            w, mb, bias = (31, 23, 127) if f32 else (63, 52, 1023)
            b = (rng.getrandbits(1) << w) | ((bias + rng.randint(-8, 8)) << mb) | rng.getrandbits(mb)
        vs.append(b)
    ws = [rng.choice([0, 0, 1, 4, 100.0, 1e6, 0.25, 1e-4, rng.random() * 1000]) for _ in range(n)]
    return {"k": kind, "f32": f32, "v": vs, "w": ws, "prec": rng.choice([0, 1e-3, 1e-4, 0.1, 0.5, 1.0, rng.random()]), "row": rng.choice([0, 1e-3, 0.1, rng.random()]),
            "step": rng.choice([1, 2, -1]), "rows": rng.choice([1, 2, 5])}


def chk_array(c):
    import numpy as np

    from caput.util import truncate

    f32 = c["f32"]
    dt = np.float32 if f32 else np.float64
    x = np.array(c["v"], dtype=np.uint32 if f32 else np.uint64).view(dt)
    n = len(x)
    prec = c["prec"]
    if c["k"] == "complex":
        with np.errstate(all="ignore"):
            re = np.float64(x).copy()
        re[~((np.abs(re) < 1e37) & (np.abs(re) > 1e-30) | ~np.isfinite(re))] = 3.25
        # rows with an infinity allow any error
        re[np.isinf(re)] = np.nan
        m = max(1, n // (2 * c["rows"]))
        k = min(c["rows"], n // (2 * m)) if n else 0
        if not k:
            return None
        z = (re[: k * m] + 1j * np.roll(re, 1)[: k * m]).reshape(k, m)
        arg = z.copy()
        if c["step"] == 2:
            arg = np.repeat(z, 2, axis=1)[:, ::2]
        out = truncate.bit_truncate_max_complex(arg, prec, c["row"])
        if not np.array_equal(out, arg, equal_nan=True) or not np.shares_memory(out, arg):
            return "the result is not the array given"
        for i in range(k):
            fin = np.isfinite(z[i].real) & np.isfinite(z[i].imag)
            mx = np.abs(z[i][fin]).max() if fin.any() else 0.0
            for j in range(m):
                if not fin[j]:
                    same = np.array_equal(np.array([z[i, j]]), np.array([arg[i, j]]), equal_nan=True) or (np.isnan(arg[i, j].real) == np.isnan(z[i, j].real) and np.isnan(arg[i, j].imag) == np.isnan(z[i, j].imag))
                    if not same:
                        return f"{z[i, j]} became {arg[i, j]}"
                    continue
                e = max(float(np.float32(abs(z[i, j])) * np.float32(prec)), float(np.float32(c["row"])) * mx)
                for v, r in ((z[i, j].real, arg[i, j].real), (z[i, j].imag, arg[i, j].imag)):
                    v32 = float(np.float32(v))
                    msg = judge(v32, e, float(r), True, slack=1e-5) if e else (None if float(r) == v32 else f"{v} became {r} with no error allowed")
                    if msg:
                        return f"[{i},{j}] of {z[i].tolist()}: {msg}"
        return None
    base = np.full(2 * n + 3, dt(7.7), dtype=dt)
    a = base[1 : 1 + n] if c["step"] == 1 else base[1 : 1 + 2 * n : 2] if c["step"] == 2 else base[1 : 1 + n][::-1]
    a[...] = x
    frame = base.copy()
    if c["k"] == "relative":
        out = truncate.bit_truncate_relative(a, prec)
        with np.errstate(all="ignore"):
            err = [abs(float(dt(prec)) * float(v)) for v in x]
        fallback = prec
    else:
        w = np.array(c["w"], dtype=dt)
        w0 = w.copy()
        out = truncate.bit_truncate_weights(a, w, prec)
        if w.tobytes() != w0.tobytes():
            return "the weights were modified"
        err = [abs(float(dt(prec)) * float(v)) if y == 0 else 1.0 / float(y) ** 0.5 for v, y in zip(x, w)]
    if out.dtype != dt or out.shape != (n,) or (n and not np.shares_memory(out, a)) or not np.array_equal(out, a, equal_nan=True):
        return "the result is not the array given"
    # nothing outside the view is touched
    mask = np.ones(len(base), dtype=bool)
    idx = np.arange(len(base))
    mask[idx[1 : 1 + n] if c["step"] != 2 else idx[1 : 1 + 2 * n : 2]] = False
    if base[mask].tobytes() != frame[mask].tobytes():
        return "elements outside the view were changed"
    for i in range(n):
        m = judge(float(x[i]), err[i], float(a[i]), f32, slack=2e-6)
        if m:
            return f"[{i}] {c['k']}: {m}"
    return None


def gen_types(rng, i):
    return {"a": rng.choice(["float32", "float64", "int32", "float16", "complex64"]), "b": rng.choice(["float32", "float64", "int32"]), "n": rng.choice([2, 3]), "fn": rng.choice(["weights", "relative"])}


def chk_types(c):
    import numpy as np

    from caput.util import truncate

    a = np.ones(2, dtype=c["a"])
    b = np.ones(c["n"], dtype=c["b"])
    ok = c["a"] in ("float32", "float64") and (c["fn"] == "relative" or (c["a"] == c["b"] and c["n"] == 2))
    try:
        truncate.bit_truncate_weights(a, b, 0.1) if c["fn"] == "weights" else truncate.bit_truncate_relative(a, 0.1)
    except (RuntimeError, ValueError):
        return "a valid call was refused" if ok else None
    return None if ok else "types or lengths that cannot be truncated were accepted"


FIX = [{"t": "float", "v": v, "e": e} for v in (0x0B1BC4B2, 0x7F7FFFFF, 0x7FFFFFFF, 0x7FC00000, 0x7F800000, 0xFF800000, 0x00000001, 0x007FFFFF, 0x00800000, 0x3F800000, 0x80000000, 0x0B000000, 0x0A800000) for e in (0, 1, 0x3F800000, 0x0B1BC4B2, 0x74000000, 0x7F7FFFFF)]
FIX += [{"t": "double", "v": v, "e": e} for v in ((51 << 52) | 12345, (50 << 52) | 7, (52 << 52) | 99, 0x7FEFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x7FF0000000000000, 1, 1 << 63) for e in (0, 1, 0x3FF0000000000000, 40 << 52, 0x7FEFFFFFFFFFFFFF)]
FALSIFIERS = [
    Falsifier("scalar", gen_scalar, chk_scalar, n=4000, thorough=200000, fixed=FIX),
    Falsifier("ints", gen_ints, chk_ints, n=1000, thorough=50000),
    Falsifier("array", gen_array, chk_array, n=400, thorough=6000,
              fixed=[{"k": k, "f32": f, "v": ([0xBF8CCCCD, 0x3F8CCCCD, 0x7FC00000, 0x7F800000, 0xFF800000, 0] if f else [0xBFF199999999999A, 0x3FF199999999999A, 0x7FF8000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0]), "w": [0] * 6, "prec": 0.01, "row": 0.01, "step": 1, "rows": 1} for k in ("relative", "weights", "complex") for f in (True, False)]),
    Falsifier("types", gen_types, chk_types, n=60, thorough=300),
]

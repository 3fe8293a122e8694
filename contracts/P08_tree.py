"""The in-memory data tree: a path-addressed mapping; copies are independent."""

from pv.api import *

EXTS = ("truncate",)
LEVEL = "proof"
ASSUMPTIONS = []
PROOFS = []
RULE = "random histories of tree operations on MemGroup / MemDiskGroup handles, compared after every step with a nested-dictionary reference"


class RG:
    def __init__(self):
        self.ch, self.at = {}, {}


class RD:
    def __init__(self, v):
        self.v, self.at = v, {}


def _parts(base, path):
    full = path if path.startswith("/") else base + "/" + path
    return [p for p in full.split("/") if p]


def _find(root, parts):
    n = root
    for p in parts:
        if not isinstance(n, RG) or p not in n.ch:
            return None
        n = n.ch[p]
    return n


def _blocked(root, parts):
    """An intermediate of parts is a dataset."""
    n = root
    for p in parts[:-1]:
        if isinstance(n, RD):
            return True
        if p not in n.ch:
            return False
        n = n.ch[p]
    return isinstance(n, RD)


def _mk(root, parts):
    n = root
    for p in parts:
        n = n.ch.setdefault(p, RG())
    return n


def _walk(real, ref, path, memroot):
    import numpy as np

    if list(real) != list(ref.ch):
        return f"{path}: lists {list(real)}, expected {list(ref.ch)}"
    if len(real) != len(ref.ch):
        return f"{path}: len {len(real)}"
    if dict(real.attrs) != ref.at:
        return f"{path}: attrs {dict(real.attrs)} expected {ref.at}"
    want_name = path or "/"
    if real.name != want_name:
        return f"name {real.name!r} expected {want_name!r}"
    for k, c in ref.ch.items():
        p = f"{path}/{k}"
        x = real[k]
        if x.name != p:
            return f"{p}: name is {x.name!r}"
        if isinstance(c, RG):
            if not hasattr(x, "create_group"):
                return f"{p}: expected a group"
            if x.parent.name != want_name or list(x.parent) != list(ref.ch):
                return f"{p}: parent is {x.parent.name!r}"
            m = _walk(x, c, p, memroot)
            if m:
                return m
        else:
            if hasattr(x, "create_group"):
                return f"{p}: expected a dataset"
            d = np.asarray(x[:])
            if d.dtype != c.v.dtype or d.shape != c.v.shape or not np.array_equal(d, c.v):
                return f"{p}: data {d!r} expected {c.v!r}"
            if dict(x.attrs) != c.at:
                return f"{p}: attrs {dict(x.attrs)} expected {c.at}"
            if x.shape != c.v.shape or x.dtype != c.v.dtype or len(x) != len(c.v):
                return f"{p}: shape/dtype/len"
            if x.parent.name != want_name:
                return f"{p}: parent is {x.parent.name!r}"
    return None


NAMES = ["a", "b", "cc", "d", "a b"]
OPS = ["cg", "cg", "cd", "cd", "cd", "rg", "rd", "get", "in", "del", "set", "attr", "dattr", "copy"]


def gen(rng, i):
    ops = []
    for _ in range(rng.choice([3, 8, 20])):
        op = rng.choice(OPS)
        depth = rng.choice([1, 1, 2, 2, 3])
        sep = rng.choice(["/", "/", "/", "//"])
        p = sep.join(rng.choice(NAMES[:3] if rng.random() < 0.8 else NAMES) for _ in range(depth))
        if rng.random() < 0.25:
            p = "/" + p
        if op in ("get", "in") and rng.random() < 0.15:
            p = p + "/"
        ops.append([op, rng.randrange(8), p, rng.randrange(100)])
    return {"kind": rng.choice(["mem", "disk"]), "ops": ops}


def _handles(root, ref):
    out = [(root, [])]

    def rec(n, parts):
        for k, c in n.ch.items():
            if isinstance(c, RG):
                out.append((root["/" + "/".join([*parts, k])], [*parts, k]))
                rec(c, [*parts, k])

    rec(ref, [])
    return out


def _data(v):
    import numpy as np

    kinds = [np.arange(v % 4 + 1, dtype=np.float64) + v, np.arange(6, dtype=np.int32).reshape(2, 3) * v,
             np.array([b"x", b"yy%d" % v]), np.ones((1, 2), dtype=complex) * v]
    return kinds[v % 4]


def check(c):
    import copy

    import numpy as np

    from caput import memdata
    from caput.memdata import MemDiskGroup, MemGroup

    root = MemGroup() if c["kind"] == "mem" else MemDiskGroup()
    ref = RG()
    for step, (op, h, path, v) in enumerate(c["ops"]):
        hs = _handles(root, ref)
        g, base = hs[h % len(hs)]
        parts = _parts("/" + "/".join(base), path)
        node = _find(ref, parts)
        where = f"step {step}: {op} {path!r} from {g.name!r}: "
        exc = None
        res = None
        want_exc = None
        try:
            if op == "cg":
                if node is not None or _blocked(ref, parts):
                    want_exc = (ValueError,)
                else:
                    _mk(ref, parts)
                res = g.create_group(path)
            elif op in ("cd", "rd"):
                if op == "cd" and isinstance(node, RG):
                    continue
                if op == "rd" and isinstance(node, RG):
                    want_exc = (TypeError,)
                elif _blocked(ref, parts):
                    want_exc = (ValueError, TypeError)
                if op == "cd":
                    arr = _data(v)
                    if want_exc is None:
                        _mk(ref, parts[:-1]).ch[parts[-1]] = RD(arr.copy())
                    res = g.create_dataset(path, data=arr)
                else:
                    if want_exc is None and node is None:
                        _mk(ref, parts[:-1]).ch[parts[-1]] = RD(np.zeros((2, 3), dtype=np.float32))
                    res = g.require_dataset(path, (2, 3), np.float32)
            elif op == "rg":
                if isinstance(node, RD):
                    want_exc = (TypeError,)
                elif _blocked(ref, parts):
                    want_exc = (ValueError, TypeError)
                elif node is None:
                    _mk(ref, parts)
                res = g.require_group(path)
            elif op == "get":
                if node is None:
                    want_exc = (KeyError,)
                    if g.get(path, "dflt") != "dflt":
                        return where + "get() of a missing entry"
                res = g[path]
            elif op == "in":
                if (path in g) != (node is not None):
                    return where + f"membership is {path in g}"
            elif op == "del":
                if node is None:
                    want_exc = (KeyError,)
                else:
                    del _find(ref, parts[:-1]).ch[parts[-1]]
                del g[path]
            elif op == "set":
                if not isinstance(node, RD) or node.v.dtype.kind == "S":
                    continue
                node.v[..., 0] = v
                g[path][..., 0] = v
            elif op == "attr":
                if not isinstance(node, RG):
                    continue
                node.at[f"k{v % 3}"] = v
                g[path].attrs[f"k{v % 3}"] = v
            elif op == "dattr":
                if not isinstance(node, RD):
                    continue
                node.at[f"k{v % 3}"] = [v]
                g[path].attrs[f"k{v % 3}"] = [v]
            elif op == "copy":
                m = _copy(root, ref, v, MemGroup)
                if m:
                    return where + m
        except Exception as ex:  # noqa: BLE001
            exc = ex
        if want_exc is None and exc is not None:
            raise exc
        if want_exc is not None and not isinstance(exc, want_exc):
            return where + f"expected {want_exc}, got {exc!r} / {res!r}"
        if want_exc is None and op in ("cg", "cd", "rg", "rd", "get"):
            full = "/" + "/".join(parts)
            if res.name != full:
                return where + f"returned object is named {res.name!r}"
            isg = isinstance(_find(ref, parts), RG)
            if hasattr(res, "create_group") != isg:
                return where + "returned object of the wrong kind"
            if isg and not (res == root[full]):
                return where + "returned group is not the one in the tree"
        m = _walk(root, ref, "", root)
        if m:
            return where + m
        if root.file.name != "/" or list(root.file) != list(ref.ch):
            return where + "file property"
    return None


def _copy(root, ref, v, MemGroup):
    """Deep copies share nothing with the source; shared ones share exactly the named datasets."""
    import copy

    names = []

    def rec(n, p):
        for k, c in n.ch.items():
            if isinstance(c, RD):
                names.append(f"{p}/{k}")
            else:
                rec(c, f"{p}/{k}")

    rec(ref, "")
    shared = []
    if isinstance(root, MemGroup):
        new = MemGroup.from_group(root)
    elif v % 3 == 0:
        new = copy.deepcopy(root)
    elif v % 3 == 1:
        shared = names[:: 2]
        new = root.copy(shared=[s[1:] if v % 2 else s for s in shared])
    else:
        shared = names
        new = root.copy(shallow=True)
    ref2 = copy.deepcopy(ref)
    m = _walk(new, _sorted(ref2), "", new)
    if m:
        return "copy differs: " + m
    # write through the copy: only shared datasets change in the source
    for n in names:
        r = _find(ref, n[1:].split("/"))
        if r.v.dtype.kind == "S":
            continue
        new[n][..., 0] = -7
        new[n].attrs["fresh"] = 1
        if n in shared:
            r.v[..., 0] = -7
            r.at["fresh"] = 1
    new.attrs["copyonly"] = 1
    if names:
        del new[names[0]]
    new.create_group("only_in_copy")
    return None


def _sorted(ref):
    """deep_group_copy visits the entries in sorted order."""
    ref.ch = {k: (_sorted(c) if isinstance(c, RG) else c) for k, c in sorted(ref.ch.items())}
    return ref


# -- restricted names ---------------------------------------------------------
def gen_restr(rng, i):
    return {"names": [rng.choice(["ok1", "ok2", "bad1", "bad2", "ok/x", "bad/x"]) for _ in range(6)],
            "kinds": [rng.choice("gd") for _ in range(6)]}


def check_restr(c):
    import numpy as np

    from caput.memdata import MemDiskGroup

    class R(MemDiskGroup):
        @staticmethod
        def group_name_allowed(name):
            return "bad" not in name

        @staticmethod
        def dataset_name_allowed(name):
            return "bad" not in name

    r = R()
    vis = set()
    for n, k in zip(c["names"], c["kinds"]):
        if n in r:
            continue
        try:
            if k == "g":
                r.create_group(n)
            else:
                r.create_dataset(n, data=np.arange(3))
        except ValueError:
            if "bad" not in n:
                return f"creating {n} refused"
            continue
        if "bad" in n:
            return f"creating {n} allowed"
        vis.add(n.split("/")[0])
    # entries put underneath the restricted view stay hidden
    r._data.create_dataset("bad_hidden", data=np.arange(2))
    r._data.create_group("bad_group")
    if set(r) != vis or len(r) != len(vis):
        return f"lists {set(r)} expected {vis}"
    for n in ("bad_hidden", "bad_group"):
        if n in r:
            return f"{n} visible"
        try:
            r[n]
            return f"{n} accessible"
        except KeyError:
            pass
    return None


FALSIFIERS = [
    Falsifier("history", gen, check, n=700, thorough=20000, fixed=[
        {"kind": "mem", "ops": [["cd", 0, "a", 0], ["in", 0, "a/b", 0], ["cg", 0, "a/b/c", 0], ["copy", 0, "a", 0]]},
        {"kind": "disk", "ops": [["cd", 0, "a/b", 1], ["dattr", 0, "a/b", 1], ["cd", 0, "a/cc", 0], ["copy", 0, "a", 1], ["copy", 0, "a", 2], ["copy", 0, "a", 3], ["del", 1, "b", 0], ["rg", 1, "b", 0]]},
    ]),
    Falsifier("restricted", gen_restr, check_restr, n=100, thorough=1000),
]

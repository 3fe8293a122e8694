"""Load the real caput package with verifier hooks.

Mechanical steps applied to every module of the package on every run (this is
the complete list of what differs from the code CPython runs normally):

* builtins len/isinstance/range/int/float/min/max/sum/abs/enumerate/zip/... are
  replaced by versions that fall through to the original for concrete values
  and build terms for symbolic ones;
* ``for``/``while`` statements call a loop hook (needed to attach invariants;
  concrete iterables are iterated normally);
* list comprehensions / generator expressions go through the same hook;
* ``x.indices(n)``, ``not x``, ``a in b`` and %-formatting call hooks with the
  same meaning for concrete values;
* ``import numpy`` binds the numpy facade of ``pv.npsym`` (delegates to numpy
  for concrete values); ``import math`` likewise.

Docstrings, annotations and everything else are untouched.
"""

from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rt


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.loopn = [0]
        self.n = 0

    # -- scopes -------------------------------------------------------------
    def _scope(self, node):
        self.stack.append(node.name)
        self.loopn.append(0)
        self.generic_visit(node)
        self.loopn.pop()
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._scope(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        return self._scope(node)

    def _key(self):
        self.loopn[-1] += 1
        return f"{self.modname}:{'.'.join(self.stack)}#{self.loopn[-1]}"

    def _rt(self, name, args):
        return ast.Call(
            func=ast.Attribute(value=ast.Name("__pv__", ast.Load()), attr=name, ctx=ast.Load()),
            args=args,
            keywords=[],
        )

    @staticmethod
    def _assigned(stmts, target=None):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(self, n):
                names.add(n.name)

            def visit_Lambda(self, n):
                pass

            def _comp(self, n):
                pass

            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        for s in stmts:
            V().visit(s)
        if target is not None:
            V().visit(target)
        return sorted(names)

    def _havoc(self, lv, mod):
        """if lv.sym: (a, b) = lv.havoc(locals(), ('a', 'b'))."""
        out = []
        call_locals = ast.Call(ast.Name("locals", ast.Load()), [], [])
        for m in mod:
            out.append(
                ast.Assign(
                    targets=[ast.Name(m, ast.Store())],
                    value=ast.Call(
                        func=ast.Attribute(ast.Name(lv, ast.Load()), "havoc1", ast.Load()),
                        args=[ast.Constant(m), call_locals],
                        keywords=[],
                    ),
                )
            )
        begin = ast.Expr(
            ast.Call(
                func=ast.Attribute(ast.Name(lv, ast.Load()), "begin", ast.Load()),
                args=[call_locals],
                keywords=[],
            )
        )
        ready = ast.Expr(
            ast.Call(
                func=ast.Attribute(ast.Name(lv, ast.Load()), "ready", ast.Load()),
                args=[call_locals],
                keywords=[],
            )
        )
        return ast.If(
            test=ast.Attribute(ast.Name(lv, ast.Load()), "contracted", ast.Load()),
            body=[begin, *out, ready],
            orelse=[],
        )

    def visit_For(self, node):
        key = self._key()
        self.generic_visit(node)
        self.n += 1
        lv = f"__pvl{self.n}"
        mod = [m for m in self._assigned(node.body)]
        setup = ast.Assign(
            targets=[ast.Name(lv, ast.Store())],
            value=self._rt("loop", [node.iter, ast.Constant(key)]),
        )
        after = ast.Expr(
            ast.Call(
                func=ast.Attribute(ast.Name(lv, ast.Load()), "after", ast.Load()),
                args=[ast.Call(ast.Name("locals", ast.Load()), [], [])],
                keywords=[],
            )
        )
        node.iter = ast.Name(lv, ast.Load())
        node.orelse = [after, *node.orelse]
        res = [setup, self._havoc(lv, mod), node]
        for r in res:
            ast.copy_location(r, node)
        return res

    def visit_While(self, node):
        key = self._key()
        self.generic_visit(node)
        self.n += 1
        lv = f"__pvl{self.n}"
        mod = self._assigned(node.body)
        setup = ast.Assign(
            targets=[ast.Name(lv, ast.Store())],
            value=self._rt("wloop", [ast.Constant(key)]),
        )
        again = ast.Call(
            func=ast.Attribute(ast.Name(lv, ast.Load()), "again", ast.Load()),
            args=[ast.Call(ast.Name("locals", ast.Load()), [], [])],
            keywords=[],
        )
        node.test = ast.BoolOp(ast.And(), [again, node.test])
        res = [setup, self._havoc(lv, mod), node]
        for r in res:
            ast.copy_location(r, node)
        return res

    # -- comprehensions -------------------------------------------------------
    def _comp_iters(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = self._rt("compiter", [g.iter])
        return node

    def visit_ListComp(self, node):
        single = len(node.generators) == 1 and not node.generators[0].is_async
        if single and not node.generators[0].ifs and not self.in_class_scope():
            self.generic_visit(node)
            g = node.generators[0]
            names = self._assigned([], g.target)
            # __pv__.listcomp(lambda it: [elt for target in (it,)][0], iter)
            inner = ast.ListComp(
                elt=node.elt,
                generators=[
                    ast.comprehension(
                        target=g.target,
                        iter=ast.Tuple([ast.Name("__pvx", ast.Load())], ast.Load()),
                        ifs=[],
                        is_async=0,
                    )
                ],
            )
            lam = ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[ast.arg("__pvx")], kwonlyargs=[], kw_defaults=[], defaults=[]
                ),
                body=ast.Subscript(inner, ast.Constant(0), ast.Load()),
            )
            del names
            return ast.copy_location(self._rt("listcomp", [lam, g.iter]), node)
        return self._comp_iters(node)

    def in_class_scope(self):
        return False

    visit_SetComp = _comp_iters
    visit_DictComp = _comp_iters

    def visit_GeneratorExp(self, node):
        return self._comp_iters(node)

    # -- expressions -----------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        if (
            isinstance(node.func, ast.Attribute)
            and node.func.attr == "indices"
            and len(node.args) == 1
            and not node.keywords
        ):
            return ast.copy_location(self._rt("indices", [node.func.value, node.args[0]]), node)
        if isinstance(node.func, ast.Name) and node.func.id in rt.CALLS:
            # only a call of the builtin (checked at run time: the name may be rebound)
            return ast.copy_location(
                ast.Call(self._rt("callee", [ast.Name(node.func.id, ast.Load())]), node.args, node.keywords),
                node,
            )
        return node

    def _display(self, node):
        self.generic_visit(node)
        if isinstance(getattr(node, "ctx", None), ast.Load) and any(
            isinstance(x, ast.Starred) for x in node.elts
        ):
            parts = [
                ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load())
                for x in node.elts
            ]
            name = "disp_list" if isinstance(node, ast.List) else "disp_tuple"
            return ast.copy_location(self._rt(name, [ast.List(parts, ast.Load())]), node)
        return node

    visit_List = visit_Tuple = _display

    def visit_Subscript(self, node):
        # index tuples with starred parts stay native (numpy keys have concrete rank)
        node.value = self.visit(node.value)
        if isinstance(node.slice, ast.Tuple):
            node.slice.elts = [self.visit(x) for x in node.slice.elts]
        else:
            node.slice = self.visit(node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._rt("mod", [node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._rt("contains", [node.comparators[0], node.left])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                parts.append(v.value)
            else:
                parts.append(ast.JoinedStr([v]))
        return ast.copy_location(self._rt("fstr", parts), node)

    def visit_Import(self, node):
        out = []
        keep = []
        for a in node.names:
            if a.name in rt.FACADES:
                out.append(
                    ast.Assign(
                        targets=[ast.Name(a.asname or a.name, ast.Store())],
                        value=self._rt("facade", [ast.Constant(a.name)]),
                    )
                )
            else:
                keep.append(a)
        if keep:
            out.append(ast.Import(names=keep))
        for o in out:
            ast.copy_location(o, node)
        return out


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def exec_module(self, module):
        src = self.get_data(self.path).decode()
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.fullname).visit(tree)
        # keep __future__ imports first: nothing is inserted before them
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        b = dict(builtins.__dict__)
        b.update(rt.BUILTINS)
        b["__pv__"] = rt
        module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if not (fullname == "caput" or fullname.startswith("caput.")):
            return None
        rel = fullname.replace(".", "/")
        for cand, pkg in (
            (os.path.join(self.root, rel, "__init__.py"), True),
            (os.path.join(self.root, rel + ".py"), False),
        ):
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(
                    fullname,
                    cand,
                    loader=Loader(fullname, cand),
                    submodule_search_locations=[os.path.dirname(cand)] if pkg else None,
                )
        if os.path.exists(os.path.join(self.root, rel + ".pyx")):
            return importlib.machinery.ModuleSpec(fullname, StubLoader(), is_package=False)
        return None


class StubLoader(importlib.abc.Loader):
    """Compiled extensions are not executed symbolically: any use is Unsupported."""

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from .sym import Unsupported

        def __getattr__(name):
            if name.startswith("__"):
                raise AttributeError(name)

            def ext(*a, **k):
                raise Unsupported(f"compiled extension function {name}")

            return ext

        module.__getattr__ = __getattr__


def install(root):
    """Install the finder; caput must not have been imported yet."""
    assert not any(m == "caput" or m.startswith("caput.") for m in sys.modules)
    sys.meta_path.insert(0, Finder(root))

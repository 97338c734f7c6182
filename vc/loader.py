"""Loads /repo/cyclic_boosting from the working tree into instrumented modules.

The only source transformation: `for` and `while` loops inside functions become
calls of vc_for / vc_while with the loop body as a nested function (names
assigned in the body are declared nonlocal).  Docstrings and annotations are
kept.  Everything else runs as written, with library names bound to shims.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import loops, symnp

REPO = os.environ.get("VC_REPO", "/repo")
PKG = "cyclic_boosting"


class _Scan(ast.NodeVisitor):
    """names assigned in a statement list, without nested scopes"""

    def __init__(self):
        self.names = []
        self.bad = False

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)
        if n.id in ("super", "locals", "__class__"):
            self.bad = True

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bad = True

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # the iterables may contain walrus; ignore targets
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Yield(self, n):
        self.bad = True

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bad = True
        self.generic_visit(n)

    def visit_Global(self, n):
        self.bad = True

    visit_Nonlocal = visit_Global


class _Jumps(ast.NodeTransformer):
    """break/continue/return of the loop at hand"""

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(ast.Name("__vc_BRK__", ast.Load())), n)

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Call(ast.Name("__vc_RET__", ast.Load()), [v], [])), n)

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def _loop(self, n):
        # breaks/continues inside belong to that loop (already transformed when possible)
        class R(ast.NodeTransformer):
            def visit_Return(s, m):
                return self.visit_Return(m)

            def visit_FunctionDef(s, m):
                return m

            visit_Lambda = visit_ClassDef = visit_FunctionDef

        return R().generic_visit(n)

    visit_For = visit_While = _loop


class LoopTransform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.k = 0

    def visit_FunctionDef(self, n):
        outer = self.stack
        params = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            params.append(n.args.vararg.arg)
        if n.args.kwarg:
            params.append(n.args.kwarg.arg)
        globs = set()
        for m in ast.walk(n):
            if isinstance(m, (ast.Global, ast.Nonlocal)):
                globs.update(m.names)
        self.stack = outer + [(n.name, globs)]
        saved = self.k
        self.k = 0
        n.body = self._body(n.body)
        self.k = saved
        self.stack = outer
        return n

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        outer, self.stack = self.stack, []
        n = self.generic_visit(n)
        self.stack = outer
        return n

    def visit_For(self, n):
        return self._loop(n)

    def visit_While(self, n):
        return self._loop(n)

    def _loop(self, n):
        if not self.stack:
            return self.generic_visit(n)
        self.k += 1
        k = self.k
        site = "%s.%s#%d" % (self.mod, ".".join(x[0] for x in self.stack), k)
        n.body = self._body(n.body)
        if n.orelse:
            return n
        sc = _Scan()
        for s in n.body:
            sc.visit(s)
        if isinstance(n, ast.For):
            sc.visit(n.target)
        if sc.bad or any(x in self.stack[-1][1] for x in sc.names):
            return n
        names = [x for x in sc.names]
        # nested helper names of inner loops are not program variables
        prog = [x for x in names if not x.startswith("__vc")]
        tag = "%d_%d" % (len(self.stack), k)
        tag = "_".join(x[0] for x in self.stack) + "_%d" % k
        body = [_Jumps().visit(s) for s in n.body]
        item = "__vc_item_" + tag
        pre = []
        if isinstance(n, ast.For):
            pre = [ast.Assign([n.target], ast.Name(item, ast.Load()))]
        fbody = ([ast.Nonlocal(list(prog))] if prog else []) + pre + body
        fname = "__vc_body_" + tag
        args = ast.arguments([], [ast.arg(item)] if isinstance(n, ast.For) else [], None, [], [], None, [])
        fdef = ast.FunctionDef(fname, args, fbody, [], None, None, type_params=[])
        out = []
        # make sure every name is a local of the enclosing function
        if prog:
            out.append(
                ast.If(
                    ast.Constant(False),
                    [ast.Assign([ast.Name(x, ast.Store())], ast.Constant(None)) for x in prog],
                    [],
                )
            )
        out.append(fdef)
        getd = ast.Dict(
            [ast.Constant(x) for x in prog],
            [ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load())) for x in prog],
        )
        sets = []
        for x in prog:
            sn = "__vc_set_%s_%s" % (tag, x)
            out.append(
                ast.FunctionDef(
                    sn,
                    ast.arguments([], [ast.arg("__v")], None, [], [], None, []),
                    [ast.Nonlocal([x]), ast.Assign([ast.Name(x, ast.Store())], ast.Name("__v", ast.Load()))],
                    [],
                    None,
                    None,
                    type_params=[],
                )
            )
            sets.append(sn)
        setd = ast.Dict([ast.Constant(x) for x in prog], [ast.Name(s, ast.Load()) for s in sets])
        rv = "__vc_r_" + tag
        if isinstance(n, ast.For):
            call = ast.Call(
                ast.Name("__vc_for__", ast.Load()), [ast.Constant(site), n.iter, ast.Name(fname, ast.Load()), getd, setd], []
            )
        else:
            cond = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test)
            call = ast.Call(
                ast.Name("__vc_while__", ast.Load()), [ast.Constant(site), cond, ast.Name(fname, ast.Load()), getd, setd], []
            )
        out.append(ast.Assign([ast.Name(rv, ast.Store())], call))
        out.append(
            ast.If(
                ast.Call(ast.Name("__vc_isret__", ast.Load()), [ast.Name(rv, ast.Load())], []),
                [ast.Return(ast.Attribute(ast.Name(rv, ast.Load()), "v", ast.Load()))],
                [],
            )
        )
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out


class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = overrides or {}
        self.shims = self._shims()
        self.builtins = dict(vars(builtins))
        self.builtins.update(
            __import__=self._import,
            len=symnp.b_len,
            range=loops.srange,
            enumerate=loops.senumerate,
            zip=loops.szip,
            float=symnp.b_float,
            int=symnp.b_int,
            bool=symnp.b_bool,
            max=symnp._minmax("max"),
            min=symnp._minmax("min"),
            sum=symnp.b_sum,
            isinstance=symnp.b_isinstance,
            any=symnp.b_any,
            all=symnp.b_all,
            round=symnp.b_round,
            sorted=symnp.b_sorted,
        )

    def _shims(self):
        import pandas as pd

        npm = symnp.NPS()
        ne = types.SimpleNamespace(evaluate=symnp.ne_evaluate, set_num_threads=lambda n: None, __name__="numexpr")
        nb = symnp.make_numba()
        pdm = symnp.Mod(
            pd,
            {
                "DataFrame": symnp.DataFrame,
                "Series": symnp.Series,
                "isnull": lambda x: symnp.IMPL["isnan"](x) if symnp.is_sym(x) else pd.isnull(x),
                "isna": lambda x: symnp.IMPL["isnan"](x) if symnp.is_sym(x) else pd.isna(x),
            },
        )
        import copy

        six_moves = types.SimpleNamespace(range=loops.srange, zip=loops.szip)
        sh = {
            "numpy": npm,
            "numexpr": ne,
            "numba": nb,
            "pandas": pdm,
            "math": symnp.make_math(),
            "six.moves": six_moves,
        }
        from . import sci

        sh.update(sci.shims())
        return sh

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = base + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        if self.exists(name + "." + f):
                            setattr(m, f, self.module(name + "." + f))
                return m
            return self.module(PKG)
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            top = name.split(".")[0]
            return self.shims.get(top, self.shims[name])
        top = name.split(".")[0]
        if top in ("scipy", "numpy", "pandas", "numba"):
            real = importlib.import_module(name)
            if fromlist:
                return symnp.Mod(real, {})
            return self.shims.get(top) or symnp.Mod(importlib.import_module(top), {})
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        raise ImportError("no module %s" % name)

    def exists(self, name):
        try:
            self.path(name)
        except ImportError:
            return False
        return True

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.module(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path(name)
        return self.source(name, open(path).read(), path, ispkg)

    def lib(self, name):
        return self.shims[name]

    def source(self, name, src, path="<text>", ispkg=False):
        tree = ast.parse(src, path)
        tree = LoopTransform(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(
            __vc_for__=loops.vc_for,
            __vc_while__=loops.vc_while,
            __vc_BRK__=loops.BRK,
            __vc_RET__=loops.RET,
            __vc_isret__=lambda r: type(r) is loops.RET,
        )
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

"""Instrumentation of the code under test: AST rewriting and an import hook."""
from __future__ import annotations

import ast
import collections
import enum
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import sys
import types

from . import ops

_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
_BIN = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^", ast.Mod: "%",
        ast.Add: "+"}
SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
SHIMMED = {}   # top-level module name -> shim object
NAME = "_sx_"


def _attr(name):
    return ast.Attribute(value=ast.Name(id=NAME, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_attr(name), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, is_init):
        self.modname = modname
        self.stack = []
        self.n = 0

    def visit(self, node):
        new = super().visit(node)
        if isinstance(new, ast.AST) and isinstance(node, (ast.expr, ast.stmt)) and new is not node:
            ast.copy_location(new, node)
            ast.fix_missing_locations(new)
        return new

    # annotations and type hints are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        q = ".".join([self.modname] + self.stack)
        node.args.defaults = [self.visit(x) for x in node.args.defaults]
        node.args.kw_defaults = [self.visit(x) if x is not None else None for x in node.args.kw_defaults]
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        node.body = self.body(node.body)
        mark = ast.Expr(value=_call("cover", ast.Constant(q)))
        k = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
            and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(k, mark)
        self.stack.pop()
        ast.fix_missing_locations(node)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r) if isinstance(r, list) else out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        node.bases = [b for b in node.bases]
        node.body = self.body(node.body)
        self.stack.pop()
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in SHIMMED or a.name.split(".")[0] in SHIMMED and "." in a.name:
                name = a.asname or a.name.split(".")[0]
                full = a.name if a.asname else a.name.split(".")[0]
                out.append(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())],
                                      value=_call("shim", ast.Constant(full))))
            else:
                out.append(ast.Import(names=[a]))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in SHIMMED:
            out = []
            for a in node.names:
                if a.name == "*":
                    out.append(ast.Expr(value=ast.Call(
                        func=ast.Attribute(value=ast.Call(func=ast.Name(id="globals", ctx=ast.Load()), args=[], keywords=[]),
                                           attr="update", ctx=ast.Load()),
                        args=[_call("shim_all", ast.Constant(node.module))], keywords=[])))
                else:
                    out.append(ast.Assign(targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                                          value=_call("shim_from", ast.Constant(node.module), ast.Constant(a.name))))
            for o in out:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return out
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = _CMP[type(node.ops[0])]
            if op in ("is", "is not"):
                return node
            return _call("cmp", ast.Constant(op), node.left, node.comparators[0])
        pairs = []
        for o, c in zip(node.ops, node.comparators):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=c)
            pairs.append(ast.Tuple(elts=[ast.Constant(_CMP[type(o)]), lam], ctx=ast.Load()))
        return _call("chain", node.left, *pairs)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            return node
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return node
            if isinstance(f.value, ast.Name) and f.value.id == NAME:
                return node
            return ast.Call(func=_attr("mcall"), args=[f.value, ast.Constant(f.attr)] + node.args,
                            keywords=node.keywords)
        return ast.Call(func=_attr("call"), args=[f] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(func=_attr("slice_"), args=[sl.lower or none, sl.upper or none, sl.step or none],
                              keywords=[])
            return _call("getitem", node.value, sl)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        subs = [t for t in node.targets if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice)]
        if not subs:
            node.targets = [self._target(t) for t in node.targets]
            return node
        out = []
        tmp = None
        if len(node.targets) > 1:
            self.n += 1
            tmp = f"_sx_t{self.n}"
            out.append(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value))
        for t in node.targets:
            v = ast.Name(id=tmp, ctx=ast.Load()) if tmp else node.value
            if t in subs:
                out.append(ast.Expr(value=_call("setitem_r", v, self.visit(t.value), self.visit(t.slice))))
            else:
                out.append(ast.Assign(targets=[self._target(t)], value=v))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def _target(self, t):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            t.value = self.visit(t.value)
            if isinstance(t, ast.Subscript):
                t.slice = self.visit(t.slice)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._target(t.value)
        return t

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(value=_call("delitem", self.visit(t.value), self.visit(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_AugAssign(self, node):
        op = _BIN.get(type(node.op))
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice):
            # o[k] op= v
            o, k = self.visit(node.target.value), self.visit(node.target.slice)
            self.n += 1
            a, b = f"_sx_o{self.n}", f"_sx_k{self.n}"
            load = _call("getitem", ast.Name(id=a, ctx=ast.Load()), ast.Name(id=b, ctx=ast.Load()))
            tmp = f"_sx_v{self.n}"
            st = [ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=o),
                  ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())], value=k),
                  ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=load)]
            if op:
                st.append(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                                     value=_call("ibinop", ast.Constant(op), ast.Name(id=tmp, ctx=ast.Load()), node.value)))
            else:
                st.append(ast.AugAssign(target=ast.Name(id=tmp, ctx=ast.Store()), op=node.op, value=node.value))
            st.append(ast.Expr(value=_call("setitem", ast.Name(id=a, ctx=ast.Load()), ast.Name(id=b, ctx=ast.Load()),
                                           ast.Name(id=tmp, ctx=ast.Load()))))
            for o in st:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return st
        if op and isinstance(node.target, ast.Name):
            r = ast.Assign(targets=[node.target],
                           value=_call("ibinop", ast.Constant(op), ast.Name(id=node.target.id, ctx=ast.Load()), node.value))
            return r
        if op and isinstance(node.target, ast.Attribute):
            # o.name op= v
            self.n += 1
            a = f"_sx_o{self.n}"
            at = lambda ctx: ast.Attribute(value=ast.Name(id=a, ctx=ast.Load()), attr=node.target.attr, ctx=ctx)
            st = [ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=self.visit(node.target.value)),
                  ast.Assign(targets=[at(ast.Store())], value=_call("ibinop", ast.Constant(op), at(ast.Load()), node.value))]
            for o in st:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return st
        node.target = self._target(node.target)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = _BIN.get(type(node.op))
        if op:
            return _call("binop", ast.Constant(op), node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return _call("fstr", *parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return _call("mkset", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("mkset", ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call("mkdict", ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                                generators=node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return _call("mkdict", ast.List(elts=parts, ctx=ast.Load()))

    def visit_comprehension(self, node):
        self.generic_visit(node)
        if not isinstance(node.iter, (ast.List, ast.Tuple)):
            node.iter = _call("iterate", node.iter)
        return node

    def visit_For(self, node):
        node.iter = _call("iterate", self.visit(node.iter))
        node.target = self._target(node.target)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        ast.fix_missing_locations(node)
        return node

    def visit_While(self, node):
        node.test = ast.BoolOp(op=ast.And(), values=[_call("tick"), self.visit(node.test)])
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        ast.copy_location(node.test, node)
        ast.fix_missing_locations(node)
        return node

    def visit_Try(self, node):
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        node.finalbody = self.body(node.finalbody)
        hs = [ast.ExceptHandler(type=_attr("Steer"), name=None, body=[ast.Raise()])]
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
            hs.append(h)
        if node.handlers:
            node.handlers = hs
        ast.copy_location(hs[0], node)
        ast.fix_missing_locations(node)
        return node

    # match -> if chain
    def visit_Match(self, node):
        self.n += 1
        tmp, got = f"_sx_m{self.n}", f"_sx_b{self.n}"
        out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.visit(node.subject))]
        chain = []
        # nested if/else keeps "first match wins"; names are bound before the guard
        for c in reversed(node.cases):
            names = []
            pat = self._pattern(c.pattern, names)
            test = ast.Compare(left=ast.NamedExpr(target=ast.Name(id=got, ctx=ast.Store()),
                                                  value=_call("match_case", ast.Name(id=tmp, ctx=ast.Load()), pat)),
                               ops=[ast.IsNot()], comparators=[ast.Constant(None)])
            parts = [test]
            for b in dict.fromkeys(names):
                v = ast.Subscript(value=ast.Name(id=got, ctx=ast.Load()), slice=ast.Constant(b), ctx=ast.Load())
                parts.append(ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=b, ctx=ast.Store()), value=v)],
                                       ctx=ast.Load()))
            if c.guard is not None:
                parts.append(self.visit(c.guard))
            test = parts[0] if len(parts) == 1 else ast.BoolOp(op=ast.And(), values=parts)
            chain = [ast.If(test=test, body=self.body(c.body), orelse=chain)]
        out += chain
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def _lazy(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def _pattern(self, p, names):
        def tup(*xs):
            return ast.Tuple(elts=[ast.Constant(x) if x is None or isinstance(x, (str, int)) else x for x in xs],
                             ctx=ast.Load())
        if isinstance(p, ast.MatchValue):
            return tup("value", self._lazy(self.visit(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return tup("is", ast.Constant(p.value))
        if isinstance(p, ast.MatchOr):
            return tup("or", tup(*[self._pattern(q, names) for q in p.patterns]))
        if isinstance(p, ast.MatchAs):
            sub = None if p.pattern is None else self._pattern(p.pattern, names)
            if p.name:
                names.append(p.name)
            return tup("as", sub, p.name)
        if isinstance(p, ast.MatchSequence):
            star, pats = None, []
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    star = i
                    pats.append(ast.Constant(q.name))
                    if q.name:
                        names.append(q.name)
                else:
                    pats.append(self._pattern(q, names))
            return tup("seq", tup(*pats), star)
        if isinstance(p, ast.MatchMapping):
            items = [tup(self._lazy(self.visit(k)), self._pattern(q, names)) for k, q in zip(p.keys, p.patterns)]
            if p.rest:
                names.append(p.rest)
            return tup("map", tup(*items), p.rest)
        if isinstance(p, ast.MatchClass):
            return tup("class", self._lazy(self.visit(p.cls)), tup(*[self._pattern(q, names) for q in p.patterns]),
                       tup(*[tup(n, self._pattern(q, names)) for n, q in zip(p.kwd_attrs, p.kwd_patterns)]))
        raise SyntaxError("pattern")


class Runtime:
    """The object the instrumented modules see as _sx_."""
    cmp = staticmethod(ops.cmp)
    chain = staticmethod(ops.chain)
    call = staticmethod(ops.call)
    mcall = staticmethod(ops.mcall)
    getitem = staticmethod(ops.getitem)
    setitem = staticmethod(ops.setitem)
    setitem_r = staticmethod(lambda v, o, k: ops.setitem(o, k, v))      # the value is evaluated first
    delitem = staticmethod(ops.delitem)
    binop = staticmethod(ops.binop)
    ibinop = staticmethod(ops.ibinop)
    fstr = staticmethod(ops.fstr)
    mkset = staticmethod(ops.mkset)
    mkdict = staticmethod(ops.mkdict)
    iterate = staticmethod(ops.iterate)
    match_case = staticmethod(ops.match_case)
    tick = staticmethod(ops.tick)
    slice_ = staticmethod(slice)
    concretise = staticmethod(ops.concretise)
    Steer = ops.Steer

    @staticmethod
    def cover(q):
        if q[:3] != "sx.":
            ops.COVER.add(q)

    @staticmethod
    def shim(name):
        parts = name.split(".")
        return SHIMMED[name] if name in SHIMMED else SHIMMED[parts[0]]

    @staticmethod
    def shim_from(mod, name):
        m = SHIMMED[mod]
        try:
            return getattr(m, name)
        except AttributeError:
            if f"{mod}.{name}" in SHIMMED:
                return SHIMMED[f"{mod}.{name}"]
            raise ImportError(f"cannot import name {name!r} from {mod!r}")

    @staticmethod
    def shim_all(mod):
        return {k: getattr(SHIMMED[mod], k) for k in dir(SHIMMED[mod]) if not k.startswith("_")}


def transform(source, filename, modname, is_init=False):
    tree = ast.parse(source, filename)
    rw = Rewriter(modname, is_init)
    tree.body = rw.body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path, module.__name__, self.is_pkg)
        ops.INSTRUMENTED.add(module.__name__)
        module.__dict__[NAME] = Runtime
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        rel = name.split(".")
        dirs = path if path is not None else self.roots
        for d in dirs:
            if not any(os.path.abspath(d) == r or os.path.abspath(d).startswith(r + "/") for r in self.roots):
                continue
            base = os.path.join(d, rel[-1])
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                spec = importlib.util.spec_from_file_location(name, init, loader=Loader(init, True),
                                                              submodule_search_locations=[base])
                return spec
            if os.path.isfile(base + ".py"):
                return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py", False))
            if os.path.isdir(base) and not os.path.isdir(os.path.join(base, "__pycache__x")):
                if any(f.endswith(".py") for f in os.listdir(base)) or any(
                        os.path.isdir(os.path.join(base, f)) for f in os.listdir(base)):
                    spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                    spec.submodule_search_locations = [base]
                    return spec
        return None


# ------------------------------------------------------------------ state between paths
_COUNT = type(itertools.count())


class StateKeeper:
    """Puts everything back that the program can change in the process: module globals, function defaults, closures and
    attributes, class attributes, objects of its own classes, every container that is reached from there, caches."""

    def __init__(self):
        self.mods = []

    def snapshot(self):
        self.known = set(ops.INSTRUMENTED)
        self.seen, self.keep = set(), []
        self.boxes, self.caches, self.cells, self.attrs = [], [], [], []
        self.mods = []
        for name in sorted(self.known):
            m = sys.modules.get(name)
            if m is None:
                continue
            g = {k: v for k, v in m.__dict__.items() if not (k.startswith("__") and k.endswith("__"))}
            self.mods.append((m, g))
            for v in g.values():
                self._walk(v)
        # what stands in the containers themselves is not shared with what the program sees
        self.keep = None

    def _walk(self, v):
        work = [v]
        while work:
            v = work.pop()
            t = type(v)
            if t in (str, int, float, bool, bytes, type(None), types.ModuleType) or id(v) in self.seen:
                continue
            self.seen.add(id(v))
            self.keep.append(v)
            if isinstance(v, functools._lru_cache_wrapper):
                self.caches.append(v)
                work.append(getattr(v, "__wrapped__", None))
            elif isinstance(v, types.FunctionType):
                if v.__module__ not in self.known:
                    continue
                work += list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(v.__dict__.values())
                self.attrs.append((v, v.__dict__, dict(v.__dict__)))
                for c in v.__closure__ or ():
                    try:
                        x = c.cell_contents
                    except ValueError:
                        continue
                    self.cells.append((c, x))
                    work.append(x)
            elif isinstance(v, type):
                if v.__module__ not in self.known or issubclass(v, enum.Enum):
                    continue
                a = {k: x for k, x in v.__dict__.items()
                     if not (k.startswith("__") and k.endswith("__")) and not k.startswith("_abc")}
                self.attrs.append((v, None, a))
                for k, x in v.__dict__.items():
                    if k in ("__fields__", "__field_defaults__"):
                        for f in x.values():
                            work += [getattr(f, "default", None), getattr(f, "default_factory", None),
                                     getattr(getattr(f, "field_info", None), "default_factory", None),
                                     getattr(getattr(f, "field_info", None), "default", None)]
                    elif k == "__dataclass_fields__":
                        for f in x.values():
                            work += [f.default, f.default_factory]
                    elif k not in ("__dict__", "__weakref__"):
                        work.append(x)
            elif isinstance(v, (staticmethod, classmethod, types.MethodType)):
                work += [v.__func__, getattr(v, "__self__", None)]
            elif isinstance(v, property):
                work += [v.fget, v.fset, v.fdel]
            elif isinstance(v, functools.cached_property):
                work.append(v.func)
            elif isinstance(v, functools.partial):
                work += [v.func, *v.args, v.keywords]
            elif isinstance(v, (tuple, frozenset)):
                work += list(v)
            elif isinstance(v, dict):
                self.boxes.append((v, dict(v)))
                work += list(v.values())
            elif isinstance(v, (list, collections.deque)):
                self.boxes.append((v, list(v)))
                work += list(v)
            elif isinstance(v, set):
                self.boxes.append((v, set(v)))
            elif isinstance(v, bytearray):
                self.boxes.append((v, bytes(v)))
            elif t.__module__ in self.known and not isinstance(v, enum.Enum):
                d = getattr(v, "__dict__", None)
                if type(d) is dict:
                    self.attrs.append((v, d, dict(d)))
                    work += list(d.values())
                for c in t.__mro__:
                    slots = c.__dict__.get("__slots__", ())
                    for k in (slots,) if isinstance(slots, str) else slots:
                        if hasattr(v, k) and k not in ("__dict__", "__weakref__"):
                            self.attrs.append((v, k, getattr(v, k)))
                            work.append(getattr(v, k))

    def restore(self):
        for n in [n for n in ops.INSTRUMENTED if n not in self.known]:
            ops.INSTRUMENTED.discard(n)
            sys.modules.pop(n, None)
        for m, g in self.mods:
            d = m.__dict__
            for k in [k for k in d if k not in g and not (k.startswith("__") and k.endswith("__"))]:
                if not isinstance(d[k], types.ModuleType):
                    del d[k]
            for k, v in g.items():
                if d.get(k) is not v or type(v) is _COUNT:
                    d[k] = copy_count(v)
        for c, v in self.cells:
            c.cell_contents = copy_count(v)
        for v, s in self.boxes:
            if isinstance(v, dict):
                if len(v) != len(s) or any(a is not c or b is not e for (a, b), (c, e) in zip(dict.items(v), s.items())):
                    dict.clear(v)
                    for k, x in s.items():
                        dict.__setitem__(v, k, x)
            elif isinstance(v, set):
                v.clear()
                v.update(s)
            elif isinstance(v, collections.deque):
                v.clear()
                v.extend(s)
            else:
                v[:] = s
        for o, d, s in self.attrs:
            if type(d) is dict:
                if d or s:
                    d.clear()
                    d.update(s)
            elif d is not None:
                object.__setattr__(o, d, s)
            else:
                for k in [k for k in o.__dict__ if k not in s and not (k.startswith("__") and k.endswith("__"))
                          and not k.startswith("_abc")]:
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
                for k, x in s.items():
                    if o.__dict__.get(k) is not x or type(x) is _COUNT:
                        try:
                            type.__setattr__(o, k, copy_count(x))
                        except (AttributeError, TypeError):
                            pass
        for c in self.caches:
            c.cache_clear()


def copy_count(v):
    """A counter cannot be turned back: a fresh copy takes its place."""
    if type(v) is not _COUNT:
        return v
    text = repr(v)[len("count("):-1].split(", ")
    return itertools.count(*(int(x) for x in text))

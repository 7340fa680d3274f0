"""The harness API seen by props/*.py.  `Symbolic` explores, `Concrete` (concrete.py) replays."""
from __future__ import annotations

import functools
import importlib
import os
import re as _re
import traceback

import z3

from . import core, env, ops, strs
from .core import ALPHABET, Infeasible, Steer, SymBool, SymFloat, SymInt, bexpr, ctx, is_sym, mkbool


DEBUG = bool(os.environ.get("SX_DEBUG"))


@functools.lru_cache(None)
def class_mask(cls: str) -> int:
    r = _re.compile(cls, _re.DOTALL)
    m = 0
    for i, c in enumerate(ALPHABET):
        if r.fullmatch(c):
            m |= 1 << i
    return m


class Violation(Steer):
    def __init__(self, msg, key, values):
        self.msg, self.key, self.values = msg, key, values


class Out:
    """Outcome of an attempted call."""

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def error(self):
        return None if self.exc is None else type(self.exc).__name__


def same_expr(a, b):
    """z3 Bool: deep equality (forks only to pair up symbolic keys)."""
    T, F = core.TRUE, core.FALSE
    if a is b:
        return T
    if isinstance(a, str) and isinstance(b, str):
        return core.str_eq(a, b)
    num = (int, float, SymBool)
    if isinstance(a, num) and isinstance(b, num):
        # JSON distinguishes true from 1 and 1 from 1.0
        if _kind(a) != _kind(b):
            return F
        r = a == b
        return bexpr(r)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return F
        return _and([same_expr(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return F
        out = []
        for k, v in a.items():
            j = next((x for x in b if type(x) is type(k) and x is k or (isinstance(x, str) and isinstance(k, str) and x == k)),
                     None)
            if j is None:
                j = ops.find_key(b, k)
                if j is ops._MISSING:
                    return F
            out.append(same_expr(v, b[j]))
        return _and(out)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return F
        return z3.BoolVal(all(ops.find_in(b, x) is not ops._MISSING for x in a))
    if isinstance(a, env.VPath) and isinstance(b, env.VPath):
        return core.str_eq(a._s, b._s)
    if is_sym(a) or is_sym(b):
        return F
    return z3.BoolVal(type(a) is type(b) and a == b)


def _kind(x):
    if isinstance(x, (bool, SymBool)):
        return "b"
    if isinstance(x, float):
        return "f"
    return "i"


def _and(xs):
    xs = [x for x in xs if x is not core.TRUE and not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return core.FALSE
    if not xs:
        return core.TRUE
    return z3.And(*xs) if len(xs) > 1 else xs[0]


class Symbolic:
    symbolic = True

    def __init__(self, tier):
        self.tier = tier
        self.deep = tier == "thorough"
        self.values = []       # in call order: (kind, name, value)
        self.reached = set()
        self.obs = []
        self.checks = 0
        self.discharged_trivially = 0
        self.solver_checks = 0
        self.root = None

    def start(self):
        env.reset()
        env.FS.makedirs("/repo")
        env.FS.makedirs("/s")
        env.FS.log.clear()
        env.FS.ops = 0
        self.root = env.VPath("/s")

    # -- inputs
    def choice(self, name, opts):
        k = ctx().choose(len(opts))
        self.values.append(("choice", name, k))
        return opts[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, n, cls=r"."):
        m = class_mask(cls)
        s = "".join(ctx().new_char(m, name) for _ in range(n))
        self.values.append(("str", name, s))
        return s

    def int(self, name, lo=None, hi=None):
        v = ctx().new_int(name, lo, hi)
        self.values.append(("int", name, v))
        return v

    def assume(self, c):
        if isinstance(c, SymBool):
            if not ctx().sat(c.e):
                raise Infeasible()
            ctx().add(c.e)
        elif z3.is_bool(c):
            if not ctx().sat(c):
                raise Infeasible()
            ctx().add(c)
        elif not c:
            raise Infeasible()

    def differ(self, a, b):
        """Assume two values differ."""
        self.assume(mkbool(z3.Not(same_expr(a, b))))

    def same(self, a, b):
        return mkbool(same_expr(a, b))

    def all_of(self, xs):
        return mkbool(_and([bexpr(x) for x in xs]))

    def any_of(self, xs):
        xs = [bexpr(x) for x in xs]
        return mkbool(z3.Or(*xs)) if xs else False

    def not_(self, x):
        return mkbool(z3.Not(bexpr(x)))

    # -- verdicts
    def check(self, cond, msg, key=None):
        self.checks += 1
        e = bexpr(cond)
        if e is not core.TRUE:
            e = z3.simplify(e)
        if z3.is_true(e):
            self.discharged_trivially += 1
            return
        c = ctx()
        self.solver_checks += 1
        m = c.model(z3.Not(e))
        if m is not None:
            raise Violation(msg, key, self.vector(m))
        c.add(e)

    def vector(self, m):
        return [(k, n, v if k == "choice" else m.value(v)) for k, n, v in self.values]

    def reach(self, label):
        self.reached.add(label)

    def observe(self, what, value):
        self.obs.append((what, value))

    # -- calls
    def imp(self, mod, attr=None):
        try:
            m = importlib.import_module(mod)
        except ModuleNotFoundError as e:
            if mod == e.name or mod.startswith(f"{e.name}."):
                raise           # moved elsewhere: nothing can be said
            self.check(False, f"{mod} cannot be imported: {e}")
        except (Steer, RecursionError, MemoryError):
            raise
        except Exception as e:
            self.check(False, f"{mod} cannot be imported: {type(e).__name__}")
        return m if attr is None else getattr(m, attr)

    def attempt(self, f, /, *a, **k):
        try:
            return Out(True, ops.call(f, *a, **k), None)
        except (Steer, RecursionError, MemoryError):
            raise
        except SystemExit as e:
            return Out(False, None, e)
        except Exception as e:
            if DEBUG:
                traceback.print_exc()
            return Out(False, None, e)

    def console(self, f, inputs):
        """Run f with scripted console input. -> (Out or None if it asked for more, output)"""
        env.INPUTS[:] = list(inputs)
        env.OUT.clear()
        try:
            o = self.attempt(f)
        except env.InputExhausted:
            o = None
        left = len(env.INPUTS)
        env.INPUTS.clear()
        return o, "".join(env.OUT), left

    def output(self, f, /, *a, **k):
        env.OUT.clear()
        o = self.attempt(f, *a, **k)
        return o, "".join(env.OUT)

    def now(self):
        return env.now()

    def zone(self, name="zone"):
        """Local time is any number of minutes from UTC."""
        env.LOCAL[0] = self.int(name, -720, 840) * 60

    # -- files
    def path(self, *parts):
        return self.root.joinpath(*parts)

    def write(self, path, text):
        log, n = list(env.FS.log), env.FS.ops
        env.FS.makedirs(path.parent, exist_ok=True)
        with env.v_open(path, "w") as h:
            h.write(text)
        env.FS.log[:], env.FS.ops = log, n

    def mkdir(self, path):
        env.FS.makedirs(path, exist_ok=True)

    def read(self, path):
        n = env.FS.get(path)
        return n.data if isinstance(n, env.VFile) else None

    def link(self, path, target):
        """A symbolic link to an existing folder."""
        env.FS.link(path, target)

    def is_dir(self, path):
        return isinstance(env.FS.get(path), env.VDir)

    def tree(self, path):
        n = env.FS.get(path)
        return env.FS.tree(path) if isinstance(n, env.VDir) else None

    def home(self):
        """The DBMS folder the shell uses."""
        return self.imp("wiggle_shell", "DBMS_FOLDER")

    def everything(self):
        """The whole scratch world, and whatever was created outside of it."""
        t = env.FS.tree("/")
        return {k: v for k, v in t.items() if k not in ("repo/",)}

    def dumps(self, v):
        return env.j_dumps(v)

    def loads(self, text):
        try:
            return env.j_loads(text)
        except ValueError:
            return {"<not JSON>": text}

    def load(self, path):
        t = self.read(path)
        return {"<no file>": True} if t is None else self.loads(t)

    def decimal(self, v):
        return ops.to_str(v)

    def fail_writes(self, k, error=None):
        """The k-th write operation from now on fails with ENOSPC, or with error() (nothing written)."""
        import errno
        n = [0]

        def fault(op, path):
            n[0] += 1
            if n[0] == k:
                raise error() if error else OSError(errno.ENOSPC, "No space left on device", str(path))
        env.FS.fault = fault if k else None

    def disk_full(self, n):
        """The disk is full from the n-th file on that is opened for writing (0: never)."""
        env.FS.sessions, env.FS.full_from = 0, n

    def num(self, x):
        return x

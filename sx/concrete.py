"""Concrete counterpart of harness.Symbolic: runs the real code on real files in a scratch folder."""
from __future__ import annotations

import builtins
import contextlib
import importlib
import io
import json
import os
import pathlib
import time


class Stop(BaseException):
    pass


class InputExhausted(BaseException):
    pass


class Assumed(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, msg, key):
        self.msg, self.key = msg, key


class Out:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def error(self):
        return None if self.exc is None else type(self.exc).__name__


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        kind = lambda x: "b" if isinstance(x, bool) else "f" if isinstance(x, float) else "i"
        return kind(a) == kind(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, pathlib.PurePath) and isinstance(b, pathlib.PurePath):
        return str(a) == str(b)
    return type(a) is type(b) and a == b


class Concrete:
    symbolic = False

    def __init__(self, tier, values, root):
        self.tier = tier
        self.deep = tier == "thorough"
        self.values = list(values)
        self.reached = set()
        self.obs = []
        self.root = pathlib.Path(root)
        os.environ["TZ"] = "UTC0"
        time.tzset()
        self.scratch = str(self.root.parent)

    def _pop(self, kind, name):
        if not self.values:
            raise Stop("inputs exhausted")
        k, n, v = self.values.pop(0)
        if k != kind or n != name:
            raise Stop(f"expected {kind} {name}, recorded {k} {n}")
        return v

    def choice(self, name, opts):
        return opts[self._pop("choice", name)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, n, cls=r"."):
        v = self._pop("str", name)
        return v

    def int(self, name, lo=None, hi=None):
        return self._pop("int", name)

    def assume(self, c):
        if not c:
            raise Assumed()

    def differ(self, a, b):
        self.assume(not same(a, b))

    def same(self, a, b):
        return same(a, b)

    def all_of(self, xs):
        return all(xs)

    def any_of(self, xs):
        return any(xs)

    def not_(self, x):
        return not x

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, what, value):
        self.obs.append((what, value))

    def imp(self, mod, attr=None):
        try:
            m = importlib.import_module(mod)
        except ModuleNotFoundError as e:
            if mod == e.name or mod.startswith(f"{e.name}."):
                raise
            self.check(False, f"{mod} cannot be imported: {e}")
        except Exception as e:
            self.check(False, f"{mod} cannot be imported: {type(e).__name__}")
        return m if attr is None else getattr(m, attr)

    def attempt(self, f, /, *a, **k):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return Out(True, f(*a, **k), None)
        except SystemExit as e:
            return Out(False, None, e)
        except Exception as e:
            return Out(False, None, e)

    def console(self, f, inputs):
        inputs = list(inputs)
        buf = io.StringIO()
        real = builtins.input

        def fake(prompt=""):
            buf.write(str(prompt))
            if not inputs:
                raise InputExhausted()
            x = inputs.pop(0)
            return x() if callable(x) else x
        builtins.input = fake
        try:
            with contextlib.redirect_stdout(buf):
                try:
                    o = Out(True, f(), None)
                except InputExhausted:
                    o = None
                except (Exception, SystemExit) as e:
                    o = Out(False, None, e)
        finally:
            builtins.input = real
        return o, buf.getvalue(), len(inputs)

    def output(self, f, /, *a, **k):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                o = Out(True, f(*a, **k), None)
            except (Exception, SystemExit) as e:
                o = Out(False, None, e)
        return o, buf.getvalue()

    def zone(self, name="zone"):
        m = self.int(name)
        os.environ["TZ"] = f"VPT{'-' if m > 0 else ''}{abs(m) // 60:02}:{abs(m) % 60:02}"
        time.tzset()

    def now(self):
        # readings differ by more than any tolerance, and are no whole seconds
        time.sleep(0.03)
        while not 0.3 < time.time() % 1 < 0.8:
            time.sleep(0.01)
        return time.time()

    def path(self, *parts):
        return self.root.joinpath(*parts)

    def write(self, path, text):
        path.parent.mkdir(parents=True, exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def mkdir(self, path):
        path.mkdir(parents=True, exist_ok=True)

    def read(self, path):
        try:
            with open(path, encoding="utf-8") as f:
                return f.read()
        except (OSError, ValueError):
            return None

    def link(self, path, target):
        path.symlink_to(target)

    def is_dir(self, path):
        try:
            return path.is_dir()
        except (OSError, ValueError):
            return False

    def tree(self, path):
        path = pathlib.Path(path)
        if not path.is_dir():
            return None
        out = {}
        for p in sorted(path.rglob("*")):
            r = str(p.relative_to(path))
            if p.is_symlink():
                out[r] = "<link>"
            elif p.is_dir():
                out[r + "/"] = None
            else:
                out[r] = self.read(p)
        return out

    def home(self):
        return self.imp("wiggle_shell", "DBMS_FOLDER")

    def everything(self):
        return {"s/" + k: v for k, v in self.tree(self.root).items()} | {"s/": None}

    def dumps(self, v):
        return json.dumps(v)

    def loads(self, text):
        try:
            return json.loads(text)
        except ValueError:
            return {"<not JSON>": text}

    def load(self, path):
        t = self.read(path)
        return {"<no file>": True} if t is None else self.loads(t)

    def decimal(self, v):
        return str(v)

    def fail_writes(self, k, error=None):
        """Make the k-th write operation fail like a full disk."""
        import errno
        import os
        n = [0]
        if not k:
            builtins.open = io.open = _REAL_OPEN
            return

        def hit(path):
            n[0] += 1
            if n[0] == k:
                raise error() if error else OSError(errno.ENOSPC, "No space left on device", str(path))

        class W:
            def __init__(self, f, p):
                self.__dict__["f"], self.__dict__["p"] = f, p

            def write(self, s):
                hit(self.p)
                return self.f.write(s)

            def truncate(self, *a):
                hit(self.p)
                return self.f.truncate(*a)

            def __getattr__(self, a):
                return getattr(self.f, a)

            def __iter__(self):
                return iter(self.f)

            def __enter__(self):
                self.f.__enter__()
                return self

            def __exit__(self, *a):
                return self.f.__exit__(*a)

        def fake(path, mode="r", *a, **kw):
            if not str(path).startswith(self.scratch):
                return _REAL_OPEN(path, mode, *a, **kw)
            if mode.startswith("w") or not os.path.exists(path) and not mode.startswith("r"):
                hit(path)
            return W(_REAL_OPEN(path, mode, *a, **kw), path)
        builtins.open = io.open = fake

    def disk_full(self, n):
        """The disk is full from the n-th file on that is opened for writing (0: never)."""
        import errno
        seen = [0]
        if not n:
            builtins.open = io.open = _REAL_OPEN
            return

        class Full:
            def __init__(self, f, p):
                self.__dict__["f"], self.__dict__["p"] = f, p

            def write(self, s):
                raise OSError(errno.ENOSPC, "No space left on device", str(self.p))

            def truncate(self, *a):     # has always room for a file that gets shorter
                return self.f.truncate(*a)

            def __getattr__(self, a):
                return getattr(self.f, a)

            def __iter__(self):
                return iter(self.f)

            def __enter__(self):
                self.f.__enter__()
                return self

            def __exit__(self, *a):
                return self.f.__exit__(*a)

        def fake(path, mode="r", *a, **kw):
            f = _REAL_OPEN(path, mode, *a, **kw)
            if not str(path).startswith(self.scratch) or mode.replace("t", "") == "r":
                return f
            seen[0] += 1
            return Full(f, path) if seen[0] >= n else f
        builtins.open = io.open = fake

    def num(self, x):
        return x


_REAL_OPEN = builtins.open

"""Path-forking symbolic execution core.

A symbolic value is an ordinary Python object that the real code can carry around:

* a symbolic character is a private-use code point (U+F0000 + i) inside a plain ``str``;
  character i stands for a z3 bit-vector that indexes ALPHABET, with a per-path domain;
* a symbolic integer is a ``SymInt`` (an ``int`` subclass whose machine value is a unique
  magic number), standing for a z3 Int; its decimal text is one opaque code point
  (U+100000 + j);
* a symbolic float (clock readings) is a ``SymFloat`` standing for a z3 Real;
* a symbolic truth value is a ``SymBool``; taking its truth value forks the path.

Forking is by re-execution: a path is the list of decisions taken at fork points, and the
explorer walks the tree of decisions depth first.  Feasibility of a decision and the final
verdict on every assertion are decided by z3 over the path condition.
"""
from __future__ import annotations

import collections
import fractions
import time

import z3

# ----------------------------------------------------------------------------- alphabet
from sx.alphabet import ALPHABET  # noqa: E402

NALPH = len(ALPHABET)
FULL = (1 << NALPH) - 1
INDEX = {c: i for i, c in enumerate(ALPHABET)}

CH0 = 0xF0000
TOK0 = 0x100000
MAGIC = 10 ** 30
FMAGIC = 1.0e200


def mask_of(chars) -> int:
    m = 0
    for c in chars:
        i = INDEX.get(c)
        if i is not None:
            m |= 1 << i
    return m


def mask_if(pred) -> int:
    m = 0
    for i, c in enumerate(ALPHABET):
        if pred(c):
            m |= 1 << i
    return m


def mask_chars(mask: int) -> str:
    return "".join(c for i, c in enumerate(ALPHABET) if mask >> i & 1)


# ----------------------------------------------------------------------------- control flow
class Steer(BaseException):
    """Base of the exceptions that steer the exploration (never caught by the code)."""


class Infeasible(Steer):
    pass


class PathLimit(Steer):
    pass


class Inconclusive(Steer):
    """The solver or the engine could not decide something on this path."""


class Unsupported(Inconclusive):
    """The engine cannot interpret an operation on a symbolic value."""


CTX: "Ctx | None" = None


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def ctx() -> "Ctx":
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0
        self.concretised: dict[str, int] = {}
        self.unknown = 0

    def asdict(self):
        return dict(
            queries=self.queries,
            solver_s=round(self.solver_time, 3),
            decisions=self.decisions,
            concretised=self.concretised,
            unknown=self.unknown,
        )


def _ranges(mask: int):
    out = []
    i = 0
    while i < NALPH:
        if mask >> i & 1:
            j = i
            while j + 1 < NALPH and mask >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


_DOM: dict = {}


def dom_expr(var, mask: int):
    k = (var.get_id(), mask)
    r = _DOM.get(k)
    if r is None:
        if len(_DOM) > 20000:
            _DOM.clear()
        r = _DOM[k] = (var, _dom_expr(var, mask))
    return r[1]


def _dom_expr(var, mask: int):
    if mask == 0:
        return FALSE
    if mask.bit_count() == 1:
        return var == z3.BitVecVal(mask.bit_length() - 1, 8)
    parts = []
    for a, b in _ranges(mask):
        if a == b:
            parts.append(var == a)
        else:
            lo = z3.UGE(var, z3.BitVecVal(a, 8)) if a else None
            hi = z3.ULE(var, z3.BitVecVal(b, 8))
            parts.append(hi if lo is None else z3.And(lo, hi))
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


_BV = {}


def char_var(i):
    v = _BV.get(i)
    if v is None:
        v = _BV[i] = z3.BitVec(f"c{i}", 8)
    return v


_FREE: dict = {}
_EMPTY = frozenset()


def _free(e, depth):
    """The base characters an expression mentions (memoised; the memo keeps the expressions alive)."""
    if z3.is_const(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n[0] == "c" and n[1:].isdigit():
                return frozenset((int(n[1:]),))
        return _EMPTY
    k = e.get_id()
    r = _FREE.get(k)
    if r is None:
        out = _EMPTY
        for x in e.children():
            y = _free(x, depth + 1)
            if not y <= out:
                out = out | y
        r = _FREE[k] = (e, out)
    return r[1]


class Ctx:
    """One path."""

    def __init__(self, decisions, stats: Stats, max_decisions=4000, solver_ms=20000):
        self.prefix = decisions
        self.trace: list[tuple[int, int]] = []  # (taken, alternatives)
        self.stats = stats
        self.max_decisions = max_decisions
        self.doms: list[int] = []  # per base char
        self.names: list[str] = []
        # derived characters: list of (base, table) ; base chars have table None
        self.chars: list[tuple[int, tuple | None]] = []
        self.tokens: list[object] = []  # z3 Int expressions (as SymInt)
        self.tokmap: dict = {}
        self.nint = 0
        self.ints: list[tuple[str, object]] = []
        self.bounds: dict = {}  # id of an integer variable -> (variable, lo, hi)
        self.magic: list["SymInt"] = []
        self.fmagic: list["SymFloat"] = []
        self.pc: list = []  # non-unary constraints
        self.entangled: set[int] = set()
        self.facts: dict = {}
        self.fixed = 0
        self.solver = None
        self.solver_ms = solver_ms
        self.inputs: list = []  # (name, kind, payload)
        self._imgcache = {}
        self.log: list[str] = []

    # -- creation
    def new_char(self, mask: int, name: str) -> str:
        if mask == 0:
            raise Infeasible()
        base = len(self.doms)
        self.doms.append(mask)
        self.names.append(name)
        self.chars.append((base, None))
        return chr(CH0 + len(self.chars) - 1)

    def base_char(self, base: int) -> str:
        return chr(CH0 + self.chars.index((base, None)))

    def derived_char(self, base: int, table: tuple) -> str:
        key = (base, table)
        c = self._imgcache.get(key)
        if c is None:
            self.chars.append((base, table))
            c = self._imgcache[key] = chr(CH0 + len(self.chars) - 1)
        return c

    def new_int(self, name: str, lo=None, hi=None) -> "SymInt":
        e = z3.Int(f"i{len(self.ints)}_{name}")
        self.ints.append((name, e))
        self.bounds[e.get_id()] = (e, lo, hi)
        if lo is not None:
            self.add(e >= lo)
        if hi is not None:
            self.add(e <= hi)
        return SymInt(e)

    # -- constraints
    def add(self, e):
        """Add a constraint known to be consistent or wanted as an assumption."""
        if z3.is_true(e):
            return
        self.pc.append(e)
        self._entangle(e)
        if self.solver is not None:
            self.solver.add(e)

    def _entangle(self, e):
        for i in self._free_chars(e):
            if i not in self.entangled:
                self.entangled.add(i)
                if self.solver is not None:
                    self.solver.add(dom_expr(char_var(i), self.doms[i]))

    def _solver(self):
        if self.solver is None:
            s = z3.SimpleSolver()
            s.set("timeout", self.solver_ms)
            for i in self.entangled:
                s.add(dom_expr(char_var(i), self.doms[i]))
            for e in self.pc:
                s.add(e)
            self.solver = s
        return self.solver

    def sat(self, *extra, model=False):
        """Is pc & extra satisfiable?  (extra may mention unentangled characters.)"""
        s = self._solver()
        t = time.perf_counter()
        s.push()
        try:
            for e in extra:
                for i in self._free_chars(e):
                    if i not in self.entangled:
                        s.add(dom_expr(char_var(i), self.doms[i]))
                s.add(e)
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_time += time.perf_counter() - t
            if r == z3.unknown:
                self.stats.unknown += 1
                raise Inconclusive("solver unknown: " + s.reason_unknown())
            if r == z3.sat and model:
                return s.model()
            return r == z3.sat
        finally:
            s.pop()

    @staticmethod
    def _free_chars(e):
        k = e.get_id()
        r = _FREE.get(k)
        if r is not None:
            return r[1]
        out = _free(e, 0)
        if len(_FREE) > 20000:
            _FREE.clear()
        _FREE[k] = (e, out)
        return out

    # -- forking
    def _decide(self, n: int, feasible: list[int]) -> int:
        """Take one of the feasible alternatives (indices), forking on the others."""
        if len(feasible) == 1:
            return feasible[0]
        k = len(self.trace)
        if k >= self.max_decisions:
            raise PathLimit(f"more than {self.max_decisions} decisions")
        self.stats.decisions += 1
        if k < len(self.prefix):
            idx = self.prefix[k]
        else:
            idx = 0
        self.trace.append((idx, len(feasible)))
        return feasible[idx]

    def choose(self, n: int) -> int:
        if n <= 0:
            raise Infeasible()
        return self._decide(n, list(range(n)))

    def fork(self, cond) -> bool:
        """Truth value of a z3 condition on this path."""
        if cond is TRUE or cond is FALSE:
            return cond is TRUE
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        known = self.facts.get(k)
        if known is not None:
            return known[1]
        can_t = self.sat(cond)
        can_f = self.sat(z3.Not(cond)) if can_t else True
        feas = ([1] if can_t else []) + ([0] if can_f else [])
        if not feas:
            raise Infeasible()
        v = self._decide(2, feas)
        if can_t and can_f:
            self.add(cond if v else z3.Not(cond))
        # the path condition only grows, so what it implies stays implied
        self.facts[k] = (cond, bool(v))
        return bool(v)

    # -- characters
    def info(self, ch: str):
        return self.chars[ord(ch) - CH0]

    def image(self, ch: str) -> int:
        """Mask of values the character can take."""
        base, table = self.info(ch)
        d = self.doms[base]
        if table is None:
            return d
        m = 0
        i = 0
        while d:
            if d & 1:
                m |= 1 << table[i]
            d >>= 1
            i += 1
        return m

    def _premask(self, ch, mask) -> tuple[int, int]:
        base, table = self.info(ch)
        if table is None:
            return base, mask
        m = 0
        for i in range(NALPH):
            if mask >> table[i] & 1:
                m |= 1 << i
        return base, m

    def narrow(self, base: int, mask: int):
        new = self.doms[base] & mask
        if new == 0:
            raise Infeasible()
        if new != self.doms[base]:
            self.doms[base] = new
            if base in self.entangled and self.solver is not None:
                self.solver.add(dom_expr(char_var(base), new))

    def in_mask(self, ch: str, mask: int) -> bool:
        """Is the symbolic character in the class?  Forks when both are possible."""
        base, m = self._premask(ch, mask)
        d = self.doms[base]
        yes, no = d & m, d & ~m
        if not no:
            return True
        if not yes:
            return False
        if base in self.entangled:
            v = char_var(base)
            can_t = self.sat(dom_expr(v, yes))
            can_f = self.sat(dom_expr(v, no)) if can_t else True
            feas = ([1] if can_t else []) + ([0] if can_f else [])
        else:
            feas = [1, 0]
        v = self._decide(2, feas)
        self.narrow(base, yes if v else no)
        return bool(v)

    def split(self, ch: str, masks: list[int]) -> int:
        """Which of the disjoint, covering masks holds the character?"""
        base, table = self.info(ch)
        feas, pre = [], []
        for i, mk in enumerate(masks):
            _, m = self._premask(ch, mk)
            y = self.doms[base] & m
            pre.append(y)
            if y:
                if base not in self.entangled or self.sat(dom_expr(char_var(base), y)):
                    feas.append(i)
        if not feas:
            raise Infeasible()
        k = self._decide(len(masks), feas)
        self.narrow(base, pre[k])
        return k

    def char_expr(self, ch: str):
        """z3 expression (8-bit index into ALPHABET) of a character of a string."""
        o = ord(ch)
        if o >= CH0:
            base, table = self.chars[o - CH0]
            v = char_var(base)
            if table is None:
                return v
            e = v
            by = {}
            for i in range(NALPH):
                if self.doms[base] >> i & 1 and table[i] != i:
                    k = (table[i] - i) % 256
                    by[k] = by.get(k, 0) | 1 << i
            for k, m in by.items():
                e = z3.If(dom_expr(v, m), v + k, e)
            return e
        i = INDEX.get(ch)
        if i is None:
            return None
        return z3.BitVecVal(i, 8)

    def char_eq(self, a: str, b: str):
        """z3 Bool: are two characters (symbolic or not) the same?"""
        if a == b:
            return TRUE
        sa, sb = ord(a) >= CH0, ord(b) >= CH0
        if not sa and not sb:
            return FALSE
        if sa and sb:
            if self.image(a) & self.image(b) == 0:
                return FALSE
            return self.char_expr(a) == self.char_expr(b)
        if sb:
            a, b = b, a
        i = INDEX.get(b)
        if i is None:
            return FALSE
        base, m = self._premask(a, 1 << i)
        d = self.doms[base]
        if not d & m:
            return FALSE
        if not d & ~m:
            return TRUE
        return dom_expr(char_var(base), d & m)

    # -- tokens (decimal text of integers)
    def token(self, n: "SymInt") -> str:
        k = z3.simplify(n.e).sexpr()
        t = self.tokmap.get(k)
        if t is None:
            self.tokens.append(n)
            t = self.tokmap[k] = chr(TOK0 + len(self.tokens) - 1)
        return t

    def token_int(self, ch: str) -> "SymInt":
        return self.tokens[ord(ch) - TOK0]

    # -- models
    def model(self, *extra):
        """A concrete assignment: (chars, ints) or None if unsatisfiable."""
        return self._model(extra, None)

    def random_model(self, rng):
        """A model with values picked at random where the path condition leaves a choice."""
        return self._model((), rng)

    def _model(self, extra, rng):
        if not self.sat(*extra):
            return None
        s = self._solver()
        assign = {}
        s.push()
        try:
            tied = set(self.entangled)
            for e in extra:
                for i in self._free_chars(e):
                    if i not in self.entangled:
                        tied.add(i)
                        s.add(dom_expr(char_var(i), self.doms[i]))
                s.add(e)
            for i, d in enumerate(self.doms):
                want = self._prefer(d, rng)
                if i in tied:
                    s.push()
                    s.add(char_var(i) == want)
                    if s.check() != z3.sat:
                        s.pop()
                        s.push()
                else:
                    assign[i] = want
            if rng is not None:
                for name, e in self.ints:
                    s.push()
                    s.add(e == rng.choice([0, 1, 7, 9, 10, 99, 100, 12345, rng.randrange(1 << 40), -rng.randrange(1 << 20)]))
                    if s.check() != z3.sat:
                        s.pop()
                        s.push()
            if s.check() != z3.sat:
                return None
            return Model(self, s.model(), assign)
        finally:
            n = s.num_scopes()
            s.pop(n)

    @staticmethod
    def _prefer(d, rng):
        if rng is not None:
            return rng.choice([i for i in range(NALPH) if d >> i & 1])
        for pref in "axBZ0_ ":
            i = INDEX[pref]
            if d >> i & 1:
                return i
        return (d & -d).bit_length() - 1

    def note(self, what: str):
        self.stats.concretised[what] = self.stats.concretised.get(what, 0) + 1


class Model:
    def __init__(self, c: Ctx, m, assign):
        self.c, self.m, self.assign = c, m, assign
        self.sub = [(char_var(i), z3.BitVecVal(v, 8)) for i, v in assign.items()]

    def char_index(self, base: int) -> int:
        i = self.assign.get(base)
        if i is None:
            i = self.m.eval(char_var(base), model_completion=True).as_long()
        assert self.c.doms[base] >> i & 1
        return i

    def eval(self, e):
        if self.sub:
            e = z3.substitute(e, *self.sub)
        return self.m.eval(e, model_completion=True)

    def char(self, ch: str) -> str:
        base, table = self.c.chars[ord(ch) - CH0]
        i = self.char_index(base)
        return ALPHABET[table[i] if table else i]

    def int(self, e) -> int:
        return self.eval(e).as_long()

    def real(self, e):
        return float(self.eval(e).as_fraction())

    def str(self, s: str) -> str:
        if s.isascii():
            return s
        out = []
        for ch in s:
            o = ord(ch)
            if o >= TOK0:
                out.append(str(self.int(self.c.tokens[o - TOK0].e)))
            elif o >= CH0:
                out.append(self.char(ch))
            else:
                out.append(ch)
        return "".join(out)

    def value(self, v):
        """Concretise a structure."""
        if isinstance(v, SymInt):
            return self.int(v.e)
        if isinstance(v, SymFloat):
            return self.real(v.e)
        if isinstance(v, SymBool):
            return z3.is_true(self.eval(v.e))
        if isinstance(v, str):
            return self.str(v)
        if isinstance(v, dict):
            return {self.value(k): self.value(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return type(v)(self.value(x) for x in v)
        return v


# ----------------------------------------------------------------------------- values
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == bexpr(o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.e})"


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if z3.is_bool(x):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    if e is TRUE or e is FALSE:
        return e is TRUE
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def linear(e):
    """(id of a variable or None, constant) when e is that variable plus that constant, else None."""
    if z3.is_int_value(e):
        return None, e.as_long()
    if z3.is_const(e):
        return e.get_id(), 0
    if z3.is_add(e) and e.num_args() == 2:
        a, b = e.children()
        if z3.is_int_value(a) and z3.is_const(b):
            return b.get_id(), a.as_long()
        if z3.is_int_value(b) and z3.is_const(a):
            return a.get_id(), b.as_long()
    return None


_NOLIN = object()


def lin(x):
    if isinstance(x, SymInt):
        if x.lin is _NOLIN:
            x.lin = linear(x.e)
        return x.lin
    return None, int(x)


def span(x, y):
    """Bounds of x - y that hold for certain (None: unknown), without the solver."""
    a, b = lin(x), lin(y)
    if a is None or b is None:
        return None, None
    if a[0] == b[0]:
        return a[1] - b[1], a[1] - b[1]
    if a[0] is None:
        lo, hi = span(y, x)
        return None if hi is None else -hi, None if lo is None else -lo
    if b[0] is None:
        _, lo, hi = ctx().bounds.get(a[0], (None, None, None))
        d = a[1] - b[1]
        return None if lo is None else lo + d, None if hi is None else hi + d
    return None, None


def int_eq(x, y):
    """z3 Bool of x == y for integers of which one or both are symbolic."""
    lo, hi = span(x, y)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return FALSE
    if lo == 0 and hi == 0:
        return TRUE
    return iexpr(x) == iexpr(y)


class SymInt(int):
    def __new__(cls, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        c = ctx()
        self = int.__new__(cls, MAGIC + len(c.magic))
        self.e = e
        self.lin = _NOLIN
        c.magic.append(self)
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickle of a symbolic integer")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        # consistent with equality among symbolic integers; mixed containers are
        # handled by the instrumented container operations
        return 0

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def _bin(self, o, f):
        x = iexpr(o)
        if x is None:
            return NotImplemented
        return SymInt(f(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __mod__(self, o):
        x = iexpr(o)
        if x is None:
            return NotImplemented
        if ctx().fork(x == 0):
            raise ZeroDivisionError("integer modulo by zero")
        if ctx().fork(x > 0):
            return SymInt(self.e % x)
        return SymInt(-((-self.e) % (-x)))

    def __floordiv__(self, o):
        x = iexpr(o)
        if x is None:
            return NotImplemented
        if ctx().fork(x == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ctx().fork(x > 0):
            return SymInt(self.e / x)
        return SymInt((-self.e) / (-x))

    def __rmod__(self, o):
        return SymInt(iexpr(o)).__mod__(self) if isinstance(o, SymInt) else concretise_int(self).__rmod__(o)

    def _cmp(self, o, f):
        if isinstance(o, float) and not isinstance(o, SymFloat):
            if o != o or o in (_INF, -_INF):
                return f(0.0, o)
            return mkbool(f(z3.ToReal(self.e), real_val(o)))
        if isinstance(o, bool):
            o = int(o)
        x = iexpr(o)
        if x is None:
            return NotImplemented
        lo, hi = span(self, o)
        if lo is not None and lo == hi:
            return f(lo, 0)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return f(1 if lo is not None and lo > 0 else -1, 0)
        return mkbool(f(self.e, x))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __index__(self):
        return concretise_int(self)

    def __int__(self):
        return self

    def __float__(self):
        return float(concretise_int(self))

    def __str__(self):
        return ctx().token(self)

    def __repr__(self):
        # json's encoders print integers with int.__repr__ and never come here
        return ctx().token(self)

    def __format__(self, spec):
        if spec in ("", "d"):
            return ctx().token(self)
        return format(concretise_int(self), spec)

    for _n in ("__and__", "__or__", "__xor__", "__lshift__", "__rshift__", "__pow__",
               "__truediv__", "__rand__", "__ror__", "__rxor__", "__rlshift__",
               "__rrshift__", "__rpow__", "__rtruediv__", "__rfloordiv__", "__divmod__"):
        def _mk(n):
            def op(self, *a):
                a = [concretise_int(x) if isinstance(x, SymInt) else x for x in a]
                return getattr(concretise_int(self), n)(*a)
            return op
        locals()[_n] = _mk(_n)
    del _n, _mk

    def bit_length(self):
        return concretise_int(self).bit_length()


def concretise_int(n: SymInt) -> int:
    """Fix a symbolic integer to one value on this path (recorded: coverage is lost)."""
    c = ctx()
    m = c.model()
    if m is None:
        raise Infeasible()
    v = m.int(n.e)
    if c.sat(n.e != v):
        c.note("integer fixed to one value")
        # a few values that contain each other's digits, the first times on a path; then one
        for x in FIXED[:TRIES[c.fixed]] if c.fixed < len(TRIES) else ():
            if c.fork(n.e == x):
                c.fixed += 1
                return x
        c.fixed += 1
        c.add(n.e == v)
    return v


FIXED = (12, 1, 121, 2, 0, 10)
TRIES = (5, 4, 3, 1)

_INF = float("inf")


def real_val(f: float):
    """The decimal value a float prints as (exact up to 15 significant digits)."""
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float")
    q = fractions.Fraction(repr(f))
    return z3.RealVal(f"{q.numerator}/{q.denominator}")


class SymFloat(float):
    def __new__(cls, e):
        c = ctx()
        self = float.__new__(cls, FMAGIC * (len(c.fmagic) + 1))
        self.e = e
        c.fmagic.append(self)
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _x(self, o):
        if isinstance(o, SymFloat):
            return o.e
        if isinstance(o, SymInt):
            return z3.ToReal(o.e)
        if isinstance(o, (int, float)):
            return real_val(float(o))
        return None

    def _cmp(self, o, f):
        if o is self:
            return f(0.0, 0.0)
        if type(o) is float and (o != o or o in (_INF, -_INF)):
            return f(0.0, o)
        x = self._x(o)
        if x is None:
            return NotImplemented
        return mkbool(f(self.e, x))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def _ar(self, o, f):
        x = self._x(o)
        if x is None:
            return NotImplemented
        return SymFloat(z3.simplify(f(self.e, x)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._ar(o, lambda a, b: a / b)

    def __neg__(self):
        return SymFloat(-self.e)

    def __int__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n is None:
            return SymInt(z3.ToInt(self.e + z3.RealVal("1/2")))
        k = 10 ** n
        return SymFloat(z3.ToReal(z3.ToInt(self.e * k + z3.RealVal("1/2"))) / k)

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __repr__(self):
        return float.__repr__(self)

    __str__ = __repr__


def unmagic(v):
    """Map magic numbers found in loaded JSON back to the symbolic values."""
    c = CTX
    if c is None:
        return v
    t = type(v)
    if t is int:
        if v >= MAGIC and v - MAGIC < len(c.magic):
            return c.magic[v - MAGIC]
        return v
    if t is float:
        if v >= FMAGIC and c.fmagic:
            k = round(v / FMAGIC) - 1
            if 0 <= k < len(c.fmagic) and float(FMAGIC * (k + 1)) == v:
                return c.fmagic[k]
        return v
    if t is list:
        return [unmagic(x) for x in v]
    if t is dict:
        return {k: unmagic(x) for k, x in v.items()}
    return v


def has_sym_str(s) -> bool:
    if s.isascii():
        return False
    for ch in s:
        if ord(ch) >= CH0:
            return True
    return False


def is_sym(v, depth=0) -> bool:
    """Does the value contain anything symbolic?"""
    if isinstance(v, str):
        return has_sym_str(v)
    if isinstance(v, (SymInt, SymFloat, SymBool)):
        return True
    if depth > 6:
        return False
    if isinstance(v, dict):
        return any(is_sym(k, depth + 1) or is_sym(x, depth + 1) for k, x in v.items())
    if isinstance(v, (list, tuple, set, frozenset, _DEQUE)):
        return any(is_sym(x, depth + 1) for x in v)
    if isinstance(v, _VIEWS):
        return any(is_sym(x, depth + 1) for x in list(v))
    f = getattr(type(v), "__dataclass_fields__", None)
    if f is not None and not isinstance(v, type):
        return any(is_sym(getattr(v, n, None), depth + 1) for n in f)
    return False


_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))
_DEQUE = collections.deque


# ----------------------------------------------------------------------------- strings
def has_token(s: str) -> bool:
    return not s.isascii() and any(ord(ch) >= TOK0 for ch in s)


def _tok_int(s: str):
    """The SymInt / int a string is the canonical decimal text of, else None."""
    if len(s) == 1 and ord(s) >= TOK0:
        return ctx().token_int(s)
    if s and s.isascii():
        b = s[1:] if s[0] == "-" else s
        if b.isdigit() and (b == "0" or b[0] != "0") and s != "-0":
            return int(s)
    return None


def str_eq(a: str, b: str):
    """bool or z3 Bool."""
    if a == b:
        return TRUE
    sa, sb = has_sym_str(a), has_sym_str(b)
    if not sa and not sb:
        return FALSE
    if has_token(a) or has_token(b):
        # strip common ends, then compare as integers
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        j = 0
        while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
            j += 1
        a2, b2 = a[i:len(a) - j], b[i:len(b) - j]
        if not a2 or not b2:
            return FALSE  # a decimal text is never empty
        x, y = _tok_int(a2), _tok_int(b2)
        if x is not None and y is not None:
            return int_eq(x, y)
        for p, q in ((a2, b2), (b2, a2)):
            if len(p) == 1 and ord(p) >= TOK0 and not has_token(q):
                n = ctx().token_int(p).e
                if not has_sym_str(q):
                    return FALSE
                return _digits_eq(n, q)
        # concretise every token involved
        a = fix_tokens(a)
        b = fix_tokens(b)
        return str_eq(a, b)
    if len(a) != len(b):
        return FALSE
    c = ctx()
    parts = []
    for x, y in zip(a, b):
        if x == y:
            continue
        e = c.char_eq(x, y)
        if z3.is_false(e):
            return e
        if not z3.is_true(e):
            parts.append(e)
    if not parts:
        return TRUE
    return z3.And(*parts) if len(parts) > 1 else parts[0]


DIGITS = mask_of("0123456789")


def _digits_eq(n, q: str):
    """n (z3 Int) has canonical decimal text equal to the symbolic-character string q."""
    c = ctx()
    parts = []
    val = z3.IntVal(0)
    for k, ch in enumerate(q):
        o = ord(ch)
        if o >= CH0:
            base, m = c._premask(ch, DIGITS)
            parts.append(dom_expr(char_var(base), c.doms[base] & m))
            e = c.char_expr(ch)
            d = z3.BV2Int(e) - ord("0")
        else:
            if ch not in "0123456789":
                return FALSE
            d = z3.IntVal(ord(ch) - 48)
        if k == 0 and len(q) > 1:
            parts.append(d != 0)
        val = val * 10 + d
    return z3.And(*parts, n == val)


def fix_tokens(s: str) -> str:
    out = []
    for ch in s:
        if ord(ch) >= TOK0:
            out.append(str(concretise_int(ctx().token_int(ch))))
        else:
            out.append(ch)
    return "".join(out)


def concretise_str(s: str, why="string fixed to one value") -> str:
    """Fix every symbolic character of a string to one value on this path."""
    if not has_sym_str(s):
        return s
    c = ctx()
    m = c.model()
    if m is None:
        raise Infeasible()
    out = []
    lost = False
    for ch in s:
        o = ord(ch)
        if o >= TOK0:
            out.append(str(concretise_int(c.token_int(ch))))
        elif o >= CH0:
            base, table = c.chars[o - CH0]
            i = m.char_index(base)
            if c.doms[base].bit_count() > 1:
                lost = True
            c.narrow(base, 1 << i)
            out.append(ALPHABET[table[i] if table else i])
        else:
            out.append(ch)
    if lost:
        c.note(why)
    return "".join(out)


def enumerate_str(s: str, limit=256, why="string fixed to one value") -> str:
    """Fork over every value of the string if there are few, else fix it to one."""
    c = ctx()
    s = fix_tokens(s) if has_token(s) else s
    total, bases = 1, []
    for ch in s:
        if ord(ch) >= CH0:
            b = c.chars[ord(ch) - CH0][0]
            if b not in bases:
                bases.append(b)
                total *= c.doms[b].bit_count()
    if total > limit:
        return concretise_str(s, why)
    for ch in s:
        if ord(ch) >= CH0:
            img = c.image(ch)
            if img.bit_count() > 1:
                ms = [1 << i for i in range(NALPH) if img >> i & 1]
                c.split(ch, ms)
    return concretise_str(s, why)


def concretise(v, why="value fixed to one value"):
    if isinstance(v, SymInt):
        return concretise_int(v)
    if isinstance(v, SymFloat):
        m = ctx().model()
        return m.real(v.e)
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, str):
        return concretise_str(v, why)
    if isinstance(v, dict):
        return {concretise(k, why): concretise(x, why) for k, x in v.items()}
    if isinstance(v, list):
        return [concretise(x, why) for x in v]
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(concretise(x, why) for x in v)
    if isinstance(v, (set, frozenset)):
        return type(v)(concretise(x, why) for x in v)
    return v

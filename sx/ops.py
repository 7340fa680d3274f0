"""Operations of the instrumented code on possibly symbolic values.

xform.py rewrites comparisons, calls, subscripts, literals and operators of the code under
test into calls of the functions here.  When nothing symbolic is involved they do what
Python does; otherwise they fork the path where the result depends on a symbolic value.
"""
from __future__ import annotations

import builtins
import collections
import collections.abc
import enum
import functools
import operator
import string
import types

import z3

from . import core, strs
from .core import (CH0, FMAGIC, MAGIC, Steer, SymBool, SymFloat, SymInt, Unsupported, concretise, concretise_int,
                   concretise_str, ctx, enumerate_str, has_sym_str, has_token, is_sym)

_Sym = (SymInt, SymFloat, SymBool)
_NUM = (int, float)
OVERRIDES: dict = {}      # callable (by identity/equality) -> replacement
TRUSTED_MODULES = ("pydantic", "sx", "logging", "contextlib", "enum", "functools", "itertools", "typing",
                   "collections", "abc", "copy", "dataclasses", "operator", "types", "builtins")
INSTRUMENTED: set = set()  # names of instrumented modules
COVER: set = set()         # functions entered


# ------------------------------------------------------------------ equality
def _model_dict(x):
    f = getattr(type(x), "__fields__", None)
    if f is None or not hasattr(x, "dict"):
        return None
    return {k: getattr(x, k) for k in f}


def eq(a, b) -> bool:
    """a == b, forking."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if isinstance(a, str) and isinstance(b, str):
        if type(a).__eq__ is not str.__eq__ and not has_sym_str(a):
            return bool(a == b)
        return strs.eq(str.__str__(a), str.__str__(b))
    if isinstance(a, _Sym) or isinstance(b, _Sym):
        if isinstance(a, (int, float, SymBool)) and isinstance(b, (int, float, SymBool)):
            return bool(a == b)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if not is_sym(a) and not is_sym(b) and not _has_models(a):
            return a == b
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if not is_sym(a) and not is_sym(b):
            return a == b
        if isinstance(a, collections.Counter) and isinstance(b, collections.Counter):
            return PYLIB.counter_eq(a, b)
        if len(a) != len(b):
            return False
        for k, v in a.items():
            j = find_key(b, k)
            if j is _MISSING or not eq(v, b[j]):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not is_sym(a) and not is_sym(b):
            return a == b
        return len(a) == len(b) and all(find_in(b, x) is not _MISSING for x in a)
    if isinstance(a, _VIEWS) or isinstance(b, _VIEWS):
        if is_sym(a) or is_sym(b):
            if isinstance(a, _VIEWS[1]) or isinstance(b, _VIEWS[1]):
                return False
            if isinstance(a, (set, frozenset) + _VIEWS) and isinstance(b, (set, frozenset) + _VIEWS):
                return eq(_as_set(a), _as_set(b))
            return False
        return a == b
    if isinstance(a, collections.deque) and isinstance(b, collections.deque):
        return eq(list(a), list(b))
    ma = _model_dict(a)
    if ma is not None:
        mb = _model_dict(b)
        return ta is tb and mb is not None and eq(ma, mb)
    if ta is tb and _data_eq(ta):
        return all(eq(getattr(a, f), getattr(b, f)) for f in _data_fields(ta, "compare"))
    return bool(a == b)


def _data_eq(t):
    """Does the type take its equality from @dataclass?"""
    p = getattr(t, "__dataclass_params__", None)
    c = getattr(t.__eq__, "__code__", None)
    return p is not None and p.eq and c is not None and c.co_filename == "<string>"


def _data_fields(t, what):
    return [f.name for f in t.__dataclass_fields__.values() if getattr(f, what) and f._field_type.name == "_FIELD"]


def _as_set(v):
    return v if isinstance(v, (set, frozenset)) else mkset(list(v))


ENCODE = None  # env.encode
PYLIB = None   # pylib, loaded through the rewriter


def _has_models(a):
    return any(_model_dict(x) is not None or hasattr(type(x), "__dataclass_fields__") for x in a)


_MISSING = object()


def _plain_key(k):
    return not is_sym(k)


def find_key(d, k):
    """The key of dict/set d that equals k (forking), or _MISSING."""
    if isinstance(d, (dict, set, frozenset)) and not is_sym(k) and not _own_hash(k):
        try:
            if k in d:
                # the native object
                if isinstance(d, dict):
                    return k
                return k
        except TypeError:
            raise
        if not any(is_sym(x) for x in d):
            return _MISSING
    elif isinstance(k, str) and type(k).__hash__ is str.__hash__ and isinstance(d, (dict, set, frozenset)):
        if k in d:  # the very same text: keys differ pairwise, so it is this one
            return k
    elif is_sym(k):
        hash(k)
    own = _own_hash(k)
    for x in list(d):
        if (own or is_sym(x) or is_sym(k)) and eq(x, k):
            return x
    return _MISSING


def _own_hash(k):
    """Does the code under test define how the key is hashed?"""
    t = type(k)
    return t.__module__ in INSTRUMENTED and isinstance(t.__hash__, types.FunctionType)


find_in = find_key


def less(a, b) -> bool:
    if isinstance(a, str) and isinstance(b, str):
        if has_sym_str(a) or has_sym_str(b):
            return strs.less(a, b)
        return a < b
    if isinstance(a, (list, tuple)) and type(a) is type(b) and (is_sym(a) or is_sym(b)):
        for x, y in zip(a, b):
            if not eq(x, y):
                return less(x, y)
        return len(a) < len(b)
    if type(a) is type(b) and hasattr(type(a), "__dataclass_params__") and type(a).__dataclass_params__.order:
        fs = _data_fields(type(a), "compare")
        return less(tuple(getattr(a, f) for f in fs), tuple(getattr(b, f) for f in fs))
    return bool(a < b)


def _order(op, a, b):
    if isinstance(a, str) and isinstance(b, str) or \
            ((isinstance(a, (list, tuple)) or hasattr(type(a), "__dataclass_params__")) and is_sym((a, b))):
        if type(a) is not type(b) and not isinstance(a, str):
            return _RAW[op](a, b)
        if op == "<":
            return less(a, b)
        if op == ">":
            return less(b, a)
        if op == "<=":
            return not less(b, a)
        return not less(a, b)
    if isinstance(a, _SETS) and isinstance(b, _SETS) and is_sym((a, b)):
        a, b = _as_set(a), _as_set(b)
        sub = lambda x, y: all(find_in(y, e) is not _MISSING for e in x)
        if op == "<=":
            return sub(a, b)
        if op == ">=":
            return sub(b, a)
        if op == "<":
            return sub(a, b) and len(a) < len(b)
        return sub(b, a) and len(b) < len(a)
    return _RAW[op](a, b)


_RAW = {
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
    ">=": operator.ge, "is": operator.is_, "is not": operator.is_not,
    "in": lambda a, b: a in b, "not in": lambda a, b: a not in b,
}
_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))
_SETS = (set, frozenset, _VIEWS[0], _VIEWS[2])


def contains(c, x) -> bool:
    if isinstance(c, str):
        if isinstance(x, str) and (has_sym_str(c) or has_sym_str(x)):
            return strs.contains(c, x)
        return x in c
    if isinstance(c, dict):
        return find_key(c, x) is not _MISSING
    if isinstance(c, (set, frozenset)):
        return find_in(c, x) is not _MISSING
    if isinstance(c, (list, tuple)) or isinstance(c, _VIEWS):
        if isinstance(c, _VIEWS[0]):
            return any(eq(y, x) for y in list(c)) if is_sym(x) or is_sym(list(c)) else x in c
        return any(eq(y, x) for y in list(c))
    if isinstance(c, collections.deque) or (hasattr(c, "__next__") and not hasattr(type(c), "__contains__")):
        return any(eq(y, x) for y in c)
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return ctx().fork(z3.And(x.e >= c.start, x.e < c.stop))
        return any(eq(y, x) for y in c)
    if is_sym(x) and type(c).__module__ == "builtins":
        return any(eq(y, x) for y in c)
    return x in c


def cmp(op, a, b):
    if op == "==":
        if type(a).__eq__ is object.__eq__ or is_sym(a) or is_sym(b) or isinstance(a, (list, tuple, dict)) \
                or hasattr(type(a), "__fields__") or hasattr(type(a), "__dataclass_fields__"):
            return eq(a, b)
        return a == b
    if op == "!=":
        if is_sym(a) or is_sym(b) or hasattr(type(a), "__fields__") or hasattr(type(a), "__dataclass_fields__") \
                or isinstance(a, (list, tuple, dict)):
            return not eq(a, b)
        return a != b
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not contains(b, a)
    if op in ("<", "<=", ">", ">="):
        r = _order(op, a, b)
        return bool(r) if isinstance(r, SymBool) else r
    return _RAW[op](a, b)


def chain(a, *pairs):
    for op, thunk in pairs:
        b = thunk()
        r = cmp(op, a, b)
        if not r:
            return r
        a = b
    return r


# ------------------------------------------------------------------ containers
def _unhashable(k):
    hash(k) if not isinstance(k, _Sym) else None


def set_add(s, x):
    _unhashable(x)
    if find_in(s, x) is _MISSING:
        set.add(s, x)


def mkset(items):
    items = list(items)
    if not is_sym(items):
        return set(items)
    s = set()
    for x in items:
        set_add(s, x)
    return s


_ODICT = collections.OrderedDict
_SETITEM = (dict.__setitem__, _ODICT.__setitem__)
_DELITEM = (dict.__delitem__, _ODICT.__delitem__)


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ in _SETITEM:
        _unhashable(k)
        j = find_key(o, k)
        type(o).__setitem__(o, k if j is _MISSING else j, v)
        return
    if isinstance(k, SymInt):
        k = concretise_int(k)
    o[k] = v


def getitem(o, k):
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        if not is_sym(k) and (k in o or not any(is_sym(x) for x in o)):
            return o[k]
        j = find_key(o, k)
        if j is not _MISSING:
            return dict.__getitem__(o, j)
        if isinstance(o, collections.defaultdict) and type(o).__missing__ is collections.defaultdict.__missing__:
            f = o.default_factory
            if f is None:
                raise KeyError(k)
            v = call(f)
            dict.__setitem__(o, k, v)
            return v
        if hasattr(type(o), "__missing__"):
            return type(o).__missing__(o, k)
        raise KeyError(k)
    if isinstance(o, enum.EnumMeta) and isinstance(k, str) and has_sym_str(k):
        for n, m in o.__members__.items():
            if eq(n, k):
                return m
        raise KeyError(k)
    if isinstance(o, types.MappingProxyType):
        return getitem(dict(o), k)
    if isinstance(o, str):
        if has_token(o):
            o = core.fix_tokens(o)
        return o[_index(k)]
    if isinstance(o, (list, tuple)):
        return o[_index(k)]
    return o[k]


def _index(k):
    if isinstance(k, SymInt):
        return concretise_int(k)
    if isinstance(k, slice):
        return slice(*[concretise_int(x) if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])
    return k


def delitem(o, k):
    if isinstance(o, dict) and (type(o).__delitem__ in _DELITEM or isinstance(o, collections.Counter)):
        j = find_key(o, k)
        if j is _MISSING:
            if isinstance(o, collections.Counter):
                return
            raise KeyError(k)
        (_ODICT if isinstance(o, _ODICT) else dict).__delitem__(o, j)
        return
    del o[_index(k)]


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            m = p[0]
            for k in m.keys():
                setitem(d, k, m[k])
        else:
            setitem(d, p[0], p[1])
    return d


def aslist(it):
    if isinstance(it, str):
        return list(core.fix_tokens(it)) if has_token(it) else list(it)
    return list(it)


def iterate(it):
    if isinstance(it, str) and has_token(it):
        return iter(core.fix_tokens(it))
    return it


# ------------------------------------------------------------------ operators
def binop(op, a, b):
    if op == "+" and type(a) is not collections.Counter:
        return a + b
    if isinstance(a, collections.Counter) and isinstance(b, collections.Counter):
        return PYLIB.counter_op(op, a, b) if is_sym(a) or is_sym(b) else _BIN[op](a, b)
    if isinstance(a, _VIEWS) or isinstance(b, _VIEWS):
        if is_sym(a) or is_sym(b):
            return _setop(op, _as_set(a), _as_set(list(b)))
        return _BIN[op](a, b)
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)) or \
            (isinstance(a, dict) and isinstance(b, dict)):
        if is_sym(a) or is_sym(b):
            return _setop(op, a, b)
    if op == "%" and isinstance(a, str):
        return percent(a, b)
    if op == "//" and hasattr(a, "__truediv__") and not isinstance(a, _NUM):
        return a // b
    return _BIN[op](a, b)


_BIN = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor, "%": operator.mod,
        "+": operator.add, "*": operator.mul}
_IBIN = {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor, "%": operator.imod,
         "+": operator.iadd, "*": operator.imul}


def ibinop(op, a, b):
    if isinstance(a, collections.Counter) and isinstance(b, collections.Counter) and (is_sym(a) or is_sym(b)):
        r = PYLIB.counter_op(op, a, b)
        a.clear()
        for k in r:
            dict.__setitem__(a, k, r[k])
        return a
    if isinstance(b, _VIEWS) and isinstance(a, set) and is_sym((a, b)):
        b = _as_set(b)
    if isinstance(a, (set, dict)) and (is_sym(a) or is_sym(b)) and op in "|&-^":
        r = _setop(op, a, b)
        items = list(r.items()) if isinstance(a, dict) else list(r)
        a.clear()
        if isinstance(a, dict):
            for k, v in items:
                dict.__setitem__(a, k, v)
        else:
            for x in items:
                set.add(a, x)
        return a
    if op == "%" and isinstance(a, str):
        return percent(a, b)
    return _IBIN[op](a, b)


def _setop(op, a, b):
    if isinstance(a, dict):
        if op != "|":
            raise TypeError("unsupported operand")
        d = dict(a)
        for k, v in b.items():
            setitem(d, k, v)
        return d
    isin = lambda x, s: find_in(s, x) is not _MISSING
    if op == "|":
        r = set(a)
        for x in b:
            set_add(r, x)
        return r
    if op == "&":
        return {x for x in a if isin(x, b)}
    if op == "-":
        return {x for x in a if not isin(x, b)}
    if op == "^":
        return {x for x in a if not isin(x, b)} | {x for x in b if not isin(x, a)}
    raise TypeError(op)


def percent(f, args):
    if not is_sym(f) and not is_sym(args):
        return f % args
    if has_sym_str(f):
        return concretise_str(f) % concretise(args)
    t = args if isinstance(args, tuple) else (args,)
    import re
    out, k, pos = [], 0, 0
    for m in re.finditer(r"%(\((\w+)\))?([sdr%])", f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m.group(3) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = getitem(args, m.group(2))
        else:
            v = t[k]
            k += 1
        out.append(to_repr(v) if m.group(3) == "r" else to_str(v))
    rest = f[pos:]
    if "%" in rest:
        return f % concretise(args)
    return "".join(out) + rest


_REPR_PLAIN = core.mask_if(lambda c: c.isprintable() and c not in "'\"\\")


def _str_repr(s):
    s = core.fix_tokens(s) if has_token(s) else s
    kinds = []
    for ch in s:
        if not strs.sym(ch):
            kinds.append(ch)
        elif ctx().in_mask(ch, _REPR_PLAIN):
            kinds.append(None)
        else:
            kinds.append(next((c for c in "'\"\\" if strs.eq(ch, c)), None) or enumerate_str(ch, 64))
    quote = '"' if "'" in kinds and '"' not in kinds else "'"
    out = []
    for ch, k in zip(s, kinds):
        if k is None:
            out.append(ch)
        elif k == "'":
            out.append("\\'" if quote == "'" else "'")
        elif k == '"':
            out.append('"')
        else:
            out.append(repr(k)[1:-1])
    return quote + "".join(out) + quote


def to_repr(v):
    if isinstance(v, str) and has_sym_str(v):
        return _str_repr(v)
    if isinstance(v, SymInt):
        return ctx().token(v)
    if isinstance(v, SymFloat):
        return repr(concretise(v))
    if type(v) in (list, tuple, set, frozenset, dict) and is_sym(v):
        if type(v) is list:
            return "[" + ", ".join(map(to_repr, v)) + "]"
        if type(v) is tuple:
            return "(" + ", ".join(map(to_repr, v)) + ("," if len(v) == 1 else "") + ")"
        if type(v) is dict:
            return "{" + ", ".join(to_repr(k) + ": " + to_repr(x) for k, x in v.items()) + "}"
        return "{" + ", ".join(map(to_repr, v)) + "}"
    if isinstance(v, BaseException) and type(v).__repr__ is BaseException.__repr__ and any_sym(v.args, {}):
        return type(v).__name__ + "(" + ", ".join(map(to_repr, v.args)) + ")"
    return repr(v)


def to_str(v=""):
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, SymInt):
        return ctx().token(v)
    if isinstance(v, SymBool):
        return str(bool(v))
    if isinstance(v, BaseException):
        if type(v).__str__ in (BaseException.__str__, Exception.__str__):
            return to_str(v.args[0]) if len(v.args) == 1 else ("" if not v.args else to_repr(v.args))
        return v.__str__()
    if type(v) in (list, tuple, set, frozenset, dict, SymFloat):
        return to_repr(v)
    return str(v)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = to_repr(v)
        elif conv == 115:
            v = to_str(v)
        elif conv == 97:
            v = ascii(concretise(v))
        if spec == "":
            if isinstance(v, str) or is_sym(v) or isinstance(v, BaseException):
                out.append(to_str(v))
            else:
                out.append(format(v, ""))
        elif is_sym(v):
            out.append(format(concretise(v), spec))
        else:
            out.append(format(v, spec))
    return "".join(out)


class _Fmt(string.Formatter):
    def format_field(self, v, spec):
        return fstr((v, -1, spec))

    def convert_field(self, v, c):
        if c is None:
            return v
        return {"s": to_str, "r": to_repr, "a": ascii}[c](v)


# ------------------------------------------------------------------ calls of methods
def _str_method(s, name, a, kw):
    if name == "format":
        if has_sym_str(s):
            s = concretise_str(s)
        return _Fmt().vformat(s, a, kw)
    if name == "join":
        return strs.join(s, *a)
    f = strs.METHODS.get(name)
    if f is None:
        ctx().note(f"str.{name} on fixed values")
        return getattr(concretise_str(s), name)(*[concretise(x) for x in a], **{k: concretise(x) for k, x in kw.items()})
    a = [concretise_int(x) if isinstance(x, SymInt) else x for x in a]
    return f(s, *a, **kw)


def _set_method(s, name, a, kw):
    isin = lambda x, c: find_in(c, x) is not _MISSING
    others = [x if isinstance(x, (set, frozenset)) else mkset(aslist(x)) for x in a] \
        if name in ("union", "update", "intersection", "intersection_update", "difference", "difference_update",
                    "symmetric_difference", "symmetric_difference_update", "issubset", "issuperset", "isdisjoint") else a
    if name == "add":
        return set_add(s, *a)
    if name == "__contains__":
        return isin(a[0], s)
    if name == "symmetric_difference_update":
        return ibinop("^", s, others[0]) and None
    if name in ("discard", "remove"):
        j = find_in(s, a[0])
        if j is not _MISSING:
            # native removal needs the native object
            for x in list(s):
                if x is j or (not is_sym(x) and not is_sym(j) and x == j):
                    _set_drop(s, x)
                    return None
        if name == "remove":
            raise KeyError(a[0])
        return None
    if name == "union":
        r = set(s)
        for o in others:
            for x in o:
                set_add(r, x)
        return r
    if name == "update":
        for o in others:
            for x in o:
                set_add(s, x)
        return None
    if name == "intersection":
        return {x for x in s if all(isin(x, o) for o in others)}
    if name == "difference":
        return {x for x in s if not any(isin(x, o) for o in others)}
    if name == "symmetric_difference":
        return _setop("^", s, others[0])
    if name in ("intersection_update", "difference_update"):
        keep = _set_method(s, name[:-7], others, {})
        for x in list(s):
            if not any(x is y for y in keep):
                _set_drop(s, x)
        return None
    if name == "issubset":
        return all(isin(x, others[0]) for x in s)
    if name == "issuperset":
        return all(isin(x, s) for x in others[0])
    if name == "isdisjoint":
        return not any(isin(x, others[0]) for x in s)
    return getattr(s, name)(*a, **kw)


def _set_drop(s, x):
    items = [y for y in s if y is not x]
    set.clear(s)
    for y in items:
        set.add(s, y)


def _dict_method(d, name, a, kw):
    if name == "get":
        j = find_key(d, a[0])
        return (a[1] if len(a) > 1 else kw.get("default")) if j is _MISSING else d[j]
    if name == "setdefault":
        j = find_key(d, a[0])
        if j is _MISSING:
            v = a[1] if len(a) > 1 else kw.get("default")
            type(d).__setitem__(d, a[0], v)
            return v
        return d[j]
    if name == "move_to_end":
        j = find_key(d, a[0])
        if j is _MISSING:
            raise KeyError(a[0])
        return d.move_to_end(j, *a[1:], **kw)
    if name == "pop":
        j = find_key(d, a[0])
        if j is _MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return type(d).pop(d, j)
    if name == "update":
        if a:
            m = a[0]
            for k, v in (m.items() if hasattr(m, "items") else m):
                setitem(d, k, v)
        for k, v in kw.items():
            setitem(d, k, v)
        return None
    if name == "__contains__":
        return contains(d, a[0])
    if name == "__getitem__":
        return getitem(d, a[0])
    if name == "fromkeys":
        v = a[1] if len(a) > 1 else None
        return mkdict([(k, v) for k in a[0]])
    return getattr(d, name)(*a, **kw)


def _list_method(s, name, a, kw):
    if name == "index":
        lo, hi, _ = slice(*a[1:3]).indices(len(s)) if len(a) == 3 else slice(a[1] if len(a) > 1 else 0, None).indices(len(s))
        for i in range(lo, hi):
            if eq(s[i], a[0]):
                return i
        raise ValueError("not in list")
    if name == "__contains__":
        return contains(s, a[0])
    if name == "__getitem__":
        return getitem(s, a[0])
    if name == "count":
        return sum(1 for x in s if eq(x, a[0]))
    if name == "remove":
        for i, x in enumerate(s):
            if eq(x, a[0]):
                list.pop(s, i)
                return None
        raise ValueError("list.remove(x): x not in list")
    if name == "sort":
        s[:] = sort(s, **kw)
        return None
    if name == "extend" and isinstance(a[0], str):
        list.extend(s, aslist(a[0]))
        return None
    return getattr(s, name)(*a, **kw)


def sort(items, key=None, reverse=False):
    items = aslist(items)
    k = (lambda x: x) if key is None else functools.partial(call, key)
    dec = [(k(x), x) for x in items]
    if not is_sym([d[0] for d in dec]):
        return sorted(items, key=key, reverse=reverse)
    f = functools.cmp_to_key(lambda p, q: -1 if less(p[0], q[0]) else (1 if less(q[0], p[0]) else 0))
    return [d[1] for d in sorted(dec, key=f, reverse=reverse)]


_ARG_SYM = object()


def any_sym(a, kw):
    for x in a:
        if is_sym(x):
            return True
    for x in kw.values():
        if is_sym(x):
            return True
    return False


def mcall(o, name, /, *a, **kw):
    """o.name(*a, **kw)"""
    t = type(o)
    if t is str:
        if has_sym_str(o) or any_sym(a, kw) or (name == "join" and a and not isinstance(a[0], (list, tuple))) \
                or name == "format":
            if name == "join":
                return strs.join(o, *a)
            if name == "encode":
                return ENCODE(o, *a, **kw)
            return _str_method(o, name, a, kw)
    elif t is set or t is frozenset:
        a = drained(a)
        if is_sym(o) or any_sym(a, kw):
            return _set_method(o, name, a, kw)
    elif isinstance(o, dict):
        if name in _DICT_METHODS:
            a = drained(a)
            if is_sym(o) or any_sym(a, kw):
                m = getattr(t, name, None)
                if m in _DICT_METHODS[name]:
                    return _dict_method(o, name, a, kw)
                if isinstance(o, collections.Counter) and m is getattr(collections.Counter, name):
                    if name == "update":
                        return PYLIB.counter_update(o, *a, **kw)
                    if name == "subtract":
                        return PYLIB.counter_subtract(o, *a, **kw)
        elif t is collections.Counter and name == "most_common" and is_sym(o):
            return PYLIB.most_common(o, *a, **kw)
    elif t is list:
        if is_sym(o) or any_sym(a, kw) or (name == "sort"):
            return _list_method(o, name, a, kw)
    elif t is tuple:
        if name in ("index", "count") and (is_sym(o) or any_sym(a, kw)):
            return _list_method(o, name, a, kw)
    elif t is collections.deque:
        if name in ("index", "count", "remove") and (is_sym(o) or any_sym(a, kw)):
            if name == "count":
                return PYLIB.op_count(o, *a)
            return (PYLIB.deque_index if name == "index" else PYLIB.deque_remove)(o, *a)
    elif t in _VIEWS and name == "isdisjoint":
        return not binop("&", _as_set(o), mkset(list(a[0])))
    elif t is types.MappingProxyType and name in ("get", "__getitem__"):
        return mcall(dict(o), name, *a, **kw)
    elif o is str or o is dict or o is set or o is list or o is frozenset:
        # str.strip(x), dict.fromkeys(...)
        if o is dict and name == "fromkeys":
            return _dict_method({}, name, a, kw)
        if a and name != "maketrans" and isinstance(a[0], o):
            return mcall(a[0], name, *a[1:], **kw)
    elif isinstance(o, SymInt) and name in ("bit_length", "to_bytes", "is_integer", "as_integer_ratio"):
        return getattr(concretise_int(o), name)(*a, **kw)
    f = getattr(o, name)
    if t in _PLAIN and isinstance(f, types.BuiltinMethodType):
        return f(*a, **kw)
    return call(f, *a, **kw)


_PLAIN = _BOUND = (str, set, frozenset, dict, list, tuple, collections.deque, _ODICT, collections.defaultdict)


def drained(a):
    """Arguments with what can be iterated only once put into lists, so that it can be looked at."""
    return [list(x) if hasattr(x, "__next__") else x for x in a]


_DICT_METHODS = {n: tuple(getattr(t, n) for t in (dict, _ODICT, collections.defaultdict) if hasattr(t, n)) for n in
                 ("get", "setdefault", "pop", "update", "__contains__", "__getitem__", "fromkeys", "move_to_end")}
_DICT_METHODS["subtract"] = ()


# ------------------------------------------------------------------ calls of functions
def _b_int(x=0, base=10):
    if isinstance(x, str):
        return strs.to_int(x, base) if has_sym_str(x) else int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.__int__()
    if isinstance(x, SymBool):
        return int(bool(x))
    return int(x)


def _b_float(x=0.0):
    if isinstance(x, str):
        return strs.to_float(x) if has_sym_str(x) else float(x)
    if isinstance(x, SymInt):
        return SymFloat(z3.ToReal(x.e))
    if isinstance(x, SymFloat):
        return x
    return float(x)


def _b_str(*a, **kw):
    if len(a) == 1 and not kw:
        return to_str(a[0])
    return str(*a, **kw)


def _b_len(x):
    if isinstance(x, str) and has_token(x):
        # a decimal text has at least one digit; a definite length needs a value
        x = core.fix_tokens(x)
    return len(x)


def _b_set(x=()):
    return mkset(aslist(x))


def _b_frozenset(x=()):
    return frozenset(mkset(aslist(x)))


def _b_dict(*a, **kw):
    if a:
        m = a[0]
        if hasattr(m, "keys"):
            pairs = [(k, m[k]) for k in m.keys()]
        else:
            pairs = [tuple(p) for p in m]
    else:
        pairs = []
    if not is_sym(pairs):
        return dict(*a, **kw) if not a or hasattr(a[0], "keys") else dict(pairs, **kw)
    d = mkdict(pairs)
    d.update(kw)
    return d


def _b_sorted(x, *, key=None, reverse=False):
    return sort(x, key, reverse)


def _b_min(*a, key=None, **kw):
    return _minmax(a, key, kw, lambda x, y: less(y, x), min)


def _b_max(*a, key=None, **kw):
    return _minmax(a, key, kw, lambda x, y: less(x, y), max)


def _minmax(a, key, kw, worse, raw):
    items = list(a[0]) if len(a) == 1 else list(a)
    if not items:
        if "default" in kw:
            return kw["default"]
        return raw(items)
    k = (lambda x: x) if key is None else functools.partial(call, key)
    ks = [k(x) for x in items]
    best = 0
    for i in range(1, len(items)):
        if worse(ks[best], ks[i]):
            best = i
    return items[best]


def _b_bool(x=False):
    return bool(x)


def _b_isinstance(x, t):
    if isinstance(x, SymBool):
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(True, u) for u in ts if isinstance(u, type))
    return isinstance(x, t)


def _b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymFloat):
            return float
    return type(*a)


def _b_ord(c):
    if has_sym_str(c):
        return ord(enumerate_str(c))
    return ord(c)


def _b_chr(i):
    return chr(concretise_int(i) if isinstance(i, SymInt) else i)


def _b_range(*a):
    return range(*[concretise_int(x) if isinstance(x, SymInt) else x for x in a])


def _b_sum(items, start=0):
    for x in items:
        start = start + x
    return start


def _b_hash(x):
    return 0 if is_sym(x) else hash(x)


def _b_getattr(o, n, *d):
    if has_sym_str(n):
        n = concretise_str(n)
    return getattr(o, n, *d)


def _b_list(x=()):
    return aslist(x)


def _b_tuple(x=()):
    return tuple(aslist(x))


def _b_map(f, *its):
    return builtins.map(functools.partial(call, f), *[iterate(i) for i in its])


def _b_filter(f, it):
    if f is None:
        return builtins.filter(None, iterate(it))
    return builtins.filter(functools.partial(call, f), iterate(it))


def _b_enumerate(it, start=0):
    return enumerate(iterate(it), start)


def _b_zip(*its, **kw):
    return zip(*[iterate(i) for i in its], **kw)


def _b_iter(*a):
    if len(a) == 2:
        return _until(*a)
    return iter(iterate(a[0]))


def _until(f, stop):
    while tick():
        x = call(f)
        if eq(x, stop):
            return
        yield x


def _b_reversed(x):
    return reversed(core.fix_tokens(x)) if isinstance(x, str) and has_token(x) else reversed(x)


def _b_round(x, n=None):
    if isinstance(x, SymInt):
        return x if n is None or n >= 0 else round(concretise_int(x), n)
    return round(x, n) if n is not None else round(x)


def _b_divmod(a, b):
    return (a // b, a % b) if is_sym((a, b)) else divmod(a, b)


def _b_format(v, spec=""):
    return fstr((v, -1, spec))


BUILTINS = {
    int: _b_int, float: _b_float, str: _b_str, len: _b_len, set: _b_set, frozenset: _b_frozenset,
    dict: _b_dict, sorted: _b_sorted, min: _b_min, max: _b_max, bool: _b_bool, isinstance: _b_isinstance,
    type: _b_type, ord: _b_ord, chr: _b_chr, range: _b_range, sum: _b_sum, repr: to_repr, hash: _b_hash,
    getattr: _b_getattr, list: _b_list, tuple: _b_tuple, map: _b_map, filter: _b_filter, format: _b_format,
    enumerate: _b_enumerate, zip: _b_zip, round: _b_round, divmod: _b_divmod, iter: _b_iter, reversed: _b_reversed,
}
_SAFE = {id(x) for x in (all, any, next, abs, id, callable, hasattr, setattr, delattr, super, issubclass,
                         vars, property, staticmethod, classmethod, object, print, functools.partial,
                         Exception, slice)}


def _module_of(f):
    m = getattr(f, "__module__", None)
    if m is None:
        s = getattr(f, "__self__", None)
        m = type(s).__module__ if s is not None and not isinstance(s, types.ModuleType) else getattr(s, "__name__", None)
    return m or ""


def call(f, /, *a, **kw):
    try:
        r = OVERRIDES.get(f)
    except TypeError:
        r = None
    if r is not None:
        return r(*a, **kw)
    try:
        b = BUILTINS.get(f)
    except TypeError:
        b = None
    if b is not None:
        return b(*a, **kw)
    if type(f) is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **kw})
    if type(f) is operator.itemgetter:
        keys = f.__reduce__()[1]
        r = tuple(getitem(a[0], k) for k in keys)
        return r if len(r) > 1 else r[0]
    if type(f) is operator.methodcaller:
        g, args = f.__reduce__()
        if g is operator.methodcaller:
            return mcall(a[0], args[0], *args[1:])
        return mcall(a[0], g.args[0], *args, **g.keywords)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not kw and is_sym(a[0]):
        for m in f:
            if eq(m.value, a[0]):
                return m
        return f(concretise(a[0]))
    s = getattr(f, "__self__", None)
    if s is not None and type(s) in _BOUND and isinstance(f, types.BuiltinMethodType):
        # a bound method of a built-in that was stored or passed around
        return mcall_native(s, f, a, kw)
    if isinstance(f, types.MethodWrapperType) and len(a) == 1 and f.__name__ in _DUNDER:
        op = _DUNDER[f.__name__]
        if op == "getitem":
            return getitem(s, a[0])
        return cmp(op, a[0], s) if op == "in" else cmp(op, s, a[0])
    if isinstance(f, types.MethodDescriptorType) and a and f.__objclass__ in _BOUND:
        return mcall(a[0], f.__name__, *a[1:], **kw)
    if isinstance(f, types.WrapperDescriptorType) and len(a) == 2 and f.__name__ in _DUNDER and f.__objclass__ in _BOUND:
        return call(getattr(a[0], f.__name__), a[1])
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) or \
            (isinstance(f, types.FunctionType) and not _known(f)):
        if id(f) not in _SAFE and any_sym(a, kw) and not _trusted(f):
            ctx().note(f"{_module_of(f)}.{getattr(f, '__qualname__', f)} on fixed values")
            a = [concretise(x) for x in a]
            kw = {k: concretise(x) for k, x in kw.items()}
    return f(*a, **kw)


_DUNDER = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=",
           "__contains__": "in", "__getitem__": "getitem"}


def mcall_native(s, f, a, kw):
    name = f.__name__
    a = drained(a) if name != "extend" else a
    if is_sym(s) or any_sym(a, kw):
        return mcall(s, name, *a, **kw)
    return f(*a, **kw)


def _known(f):
    return f.__module__ in INSTRUMENTED


def _trusted(f):
    m = _module_of(f)
    return m.split(".")[0] in TRUSTED_MODULES or m in INSTRUMENTED


# ------------------------------------------------------------------ match statements
def pmatch(x, p, binds):
    """Does x match the pattern (see xform)?  Names are put into binds."""
    kind = p[0]
    if kind == "value":
        return bool(cmp("==", x, p[1]()))
    if kind == "is":
        return x is p[1] or (isinstance(x, SymBool) and isinstance(p[1], bool) and bool(x) is p[1])
    if kind == "as":
        if p[1] is not None and not pmatch(x, p[1], binds):
            return False
        if p[2] is not None:
            binds[p[2]] = x
        return True
    if kind == "or":
        for q in p[1]:
            b = {}
            if pmatch(x, q, b):
                binds.update(b)
                return True
        return False
    if kind == "seq":
        if isinstance(x, (str, bytes, bytearray)) or not isinstance(x, collections.abc.Sequence):
            return False
        pats, star = p[1], p[2]
        if star is None:
            return len(x) == len(pats) and all(pmatch(y, q, binds) for y, q in zip(x, pats))
        after = len(pats) - star - 1
        if len(x) < len(pats) - 1:
            return False
        if not all(pmatch(y, q, binds) for y, q in zip(x, pats[:star])):
            return False
        if pats[star] is not None:
            binds[pats[star]] = [x[i] for i in range(star, len(x) - after)]
        return all(pmatch(x[len(x) - after + i], q, binds) for i, q in enumerate(pats[star + 1:]))
    if kind == "map":
        if not isinstance(x, collections.abc.Mapping):
            return False
        used = []
        for k, q in p[1]:
            k = k()
            if not contains(x, k) or not pmatch(getitem(x, k), q, binds):
                return False
            used.append(k)
        if p[2] is not None:
            binds[p[2]] = {k: v for k, v in x.items() if not any(eq(k, u) for u in used)}
        return True
    if kind == "class":
        cls = p[1]()
        if not _b_isinstance(x, cls):
            return False
        pos = p[2]
        if pos:
            if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) \
                    and not hasattr(cls, "__match_args__"):
                if len(pos) > 1:
                    raise TypeError(f"{cls.__name__}() accepts 1 positional sub-pattern ({len(pos)} given)")
                if not pmatch(x, pos[0], binds):
                    return False
            else:
                args = getattr(cls, "__match_args__", ())
                if len(pos) > len(args):
                    raise TypeError(f"{cls.__name__}() accepts {len(args)} positional sub-patterns ({len(pos)} given)")
                for n, q in zip(args, pos):
                    if not hasattr(x, n) or not pmatch(getattr(x, n), q, binds):
                        return False
        for n, q in p[3]:
            if not hasattr(x, n) or not pmatch(getattr(x, n), q, binds):
                return False
        return True
    raise Unsupported("pattern " + kind)


def match_case(x, p):
    """The names bound by the pattern, or None."""
    b = {}
    return b if pmatch(x, p, b) else None


class Hang(Steer):
    pass


_ticks = [0]
MAX_TICKS = 3000


def tick():
    _ticks[0] += 1
    if _ticks[0] > MAX_TICKS:
        raise Hang(f"more than {MAX_TICKS} iterations of a while loop")
    return True

"""String methods on strings with symbolic characters (forking where results differ)."""
from __future__ import annotations

import functools

import z3

from . import core
from .core import (ALPHABET, CH0, FULL, INDEX, NALPH, TOK0, Unsupported, concretise_str, ctx, dom_expr,
                   enumerate_str, fix_tokens, has_sym_str, has_token, mask_if, mask_of, str_eq)

SPACE = mask_if(str.isspace)
UPPER = mask_if(str.isupper)
LOWERTITLE = mask_if(lambda c: c.islower() or c.istitle() and not c.isupper())
LINEBREAK = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def nt(s):
    """No tokens: integers inside are fixed."""
    return fix_tokens(s) if has_token(s) else s


def sym(ch):
    return ord(ch) >= CH0


def eq(a, b) -> bool:
    """Fork on equality of two strings."""
    if a == b:
        return True
    if not has_sym_str(a) and not has_sym_str(b):
        return False
    if len(a) == len(b) and not has_token(a) and not has_token(b):
        und = None
        c = ctx()
        for x, y in zip(a, b):
            if x == y:
                continue
            if not sym(x) and not sym(y):
                return False
            if und is not None:
                und = False
                break
            und = (x, y)
        if und:
            x, y = und
            if sym(x) and sym(y):
                pass
            else:
                if sym(y):
                    x, y = y, x
                i = INDEX.get(y)
                return False if i is None else c.in_mask(x, 1 << i)
    return ctx().fork(str_eq(a, b))


def char_in(ch, mask, concrete) -> bool:
    if ord(ch) >= TOK0:
        # the digits of an integer; callers that care fix tokens first
        return False
    if sym(ch):
        return ctx().in_mask(ch, mask)
    return concrete(ch)


def charset(chars):
    """Class test for membership in a given string of characters."""
    if has_sym_str(chars):
        def test(ch):
            return any(eq(ch, x) for x in chars)
        return test
    m = mask_of(chars)
    return lambda ch: char_in(ch, m, lambda x: x in chars)


def _stripper(chars):
    if chars is None:
        return lambda ch: char_in(ch, SPACE, str.isspace)
    return charset(chars)


def _strippable(s, chars):
    if chars is None or not has_sym_str(chars) and not any(c.isdigit() or c == "-" for c in chars):
        return s
    return nt(s)


def lstrip(s, chars=None):
    s = _strippable(s, chars)
    t = _stripper(chars)
    i = 0
    while i < len(s) and t(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    s = _strippable(s, chars)
    t = _stripper(chars)
    i = len(s)
    while i > 0 and t(s[i - 1]):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def _bounds(s, start, end):
    n = len(s)
    start = 0 if start is None else (max(0, start + n) if start < 0 else start)
    end = n if end is None else (max(0, end + n) if end < 0 else min(end, n))
    return start, end


def find(s, sub, start=None, end=None):
    s, sub = nt(s), nt(sub)
    a, b = _bounds(s, start, end)
    k = len(sub)
    for i in range(a, b - k + 1):
        if eq(s[i:i + k], sub):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    s, sub = nt(s), nt(sub)
    a, b = _bounds(s, start, end)
    k = len(sub)
    for i in range(b - k, a - 1, -1):
        if eq(s[i:i + k], sub):
            return i
    return -1


def index(s, sub, start=None, end=None):
    i = find(s, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(s, sub, start=None, end=None):
    i = rfind(s, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def contains(s, sub):
    if sub == "":
        return True
    return find(s, sub) >= 0


def count(s, sub, start=None, end=None):
    s, sub = nt(s), nt(sub)
    a, b = _bounds(s, start, end)
    k = len(sub)
    if k == 0:
        return max(0, b - a + 1)
    n, i = 0, a
    while i + k <= b:
        if eq(s[i:i + k], sub):
            n += 1
            i += k
        else:
            i += 1
    return n


def replace(s, old, new, count=-1):
    s, old = nt(s), nt(old)
    k = len(old)
    if k == 0:
        return str.replace(s, old, new, count)
    out, i, n = [], 0, 0
    while i < len(s):
        if (count < 0 or n < count) and i + k <= len(s) and eq(s[i:i + k], old):
            out.append(new)
            i += k
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def split(s, sep=None, maxsplit=-1):
    s = nt(s)
    out = []
    if sep is None:
        i, n = 0, len(s)
        while True:
            while i < n and char_in(s[i], SPACE, str.isspace):
                i += 1
            if i >= n:
                return out
            if 0 <= maxsplit <= len(out):
                out.append(rstrip(s[i:]))
                return out
            j = i
            while j < n and not char_in(s[j], SPACE, str.isspace):
                j += 1
            out.append(s[i:j])
            i = j
    if sep == "":
        raise ValueError("empty separator")
    sep = nt(sep)
    k, i, last = len(sep), 0, 0
    while i + k <= len(s):
        if (maxsplit < 0 or len(out) < maxsplit) and eq(s[i:i + k], sep):
            out.append(s[last:i])
            i += k
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    s = nt(s)
    if sep is None:
        raise Unsupported("rsplit on whitespace with a limit")
    out, end = [], len(s)
    while len(out) < maxsplit:
        i = rfind(s, sep, 0, end)
        if i < 0:
            break
        out.append(s[i + len(sep):end])
        end = i
    out.append(s[:end])
    return out[::-1]


def splitlines(s, keepends=False):
    s = nt(s)
    out, cur, i = [], "", 0
    while i < len(s):
        ch = s[i]
        if char_in(ch, LINEBREAK, lambda c: len((c + "x").splitlines()) > 1):
            end = ch
            if eq(ch, "\r") and i + 1 < len(s) and eq(s[i + 1], "\n"):
                end += s[i + 1]
                i += 1
            out.append(cur + end if keepends else cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur:
        out.append(cur)
    return out


def partition(s, sep):
    i = find(s, sep)
    s = nt(s)
    return (s, "", "") if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    s = nt(s)
    return ("", "", s) if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def startswith(s, p, start=None, end=None):
    s = nt(s)
    a, b = _bounds(s, start, end)
    if isinstance(p, tuple):
        return any(startswith(s, x, start, end) for x in p)
    p = nt(p)
    return b - a >= len(p) and eq(s[a:a + len(p)], p)


def endswith(s, p, start=None, end=None):
    s = nt(s)
    a, b = _bounds(s, start, end)
    if isinstance(p, tuple):
        return any(endswith(s, x, start, end) for x in p)
    p = nt(p)
    return b - a >= len(p) and eq(s[b - len(p):b], p)


def removeprefix(s, p):
    return s[len(p):] if p and startswith(s, p) else s


def removesuffix(s, p):
    return s[:-len(p)] if p and endswith(s, p) else s


# -- case mapping
@functools.lru_cache(None)
def _case_table(name):
    f = getattr(str, name)
    table, special = [], 0
    for i, c in enumerate(ALPHABET):
        r = f(c)
        if len(r) == 1 and r in INDEX:
            table.append(INDEX[r])
        else:
            table.append(i)
            special |= 1 << i
    return tuple(table), special


def _casemap(s, name):
    s = nt(s)
    table, special = _case_table(name)
    f = getattr(str, name)
    c = ctx()
    out = []
    for ch in s:
        if not sym(ch):
            out.append(f(ch) if ch != "\u03a3" else f(concretise_str(s)))
            continue
        if c.image(ch) & special and c.in_mask(ch, special):
            out.append(f(enumerate_str(ch)))
            continue
        img = c.image(ch)
        if all(table[i] == i for i in range(NALPH) if img >> i & 1):
            out.append(ch)
            continue
        base, t0 = c.info(ch)
        comp = table if t0 is None else tuple(table[t0[i]] for i in range(NALPH))
        out.append(c.derived_char(base, comp))
    return "".join(out)


def upper(s):
    return _casemap(s, "upper")


def lower(s):
    return _casemap(s, "lower")


def casefold(s):
    return _casemap(s, "casefold")


def swapcase(s):
    return _casemap(s, "swapcase")


def capitalize(s):
    s = nt(s)
    return (_casemap(s[:1], "title") + _casemap(s[1:], "lower")) if s else s


def title(s):
    s = nt(s)
    out, prev = [], False
    cased = mask_if(lambda c: c.isupper() or c.islower() or c.istitle())
    for ch in s:
        out.append(_casemap(ch, "lower" if prev else "title"))
        prev = char_in(ch, cased, lambda c: c.isupper() or c.islower() or c.istitle())
    return "".join(out)


# -- predicates
@functools.lru_cache(None)
def _pmask(name):
    return mask_if(getattr(str, name))


def _all(name):
    def f(s):
        s = nt(s)
        if not s:
            return name == "isascii" or name == "isprintable"
        m, p = _pmask(name), getattr(str, name)
        return all(char_in(ch, m, p) for ch in s)
    return f


isdigit = _all("isdigit")
isalpha = _all("isalpha")
isalnum = _all("isalnum")
isspace = _all("isspace")
isdecimal = _all("isdecimal")
isnumeric = _all("isnumeric")
isascii = _all("isascii")
isprintable = _all("isprintable")


def isidentifier(s):
    s = nt(s)
    if not s:
        return False
    m0 = mask_if(str.isidentifier)
    m1 = mask_if(lambda c: ("a" + c).isidentifier())
    return char_in(s[0], m0, str.isidentifier) and all(
        char_in(ch, m1, lambda c: ("a" + c).isidentifier()) for ch in s[1:])


def _cased(s, good, bad, pgood, pbad):
    s = nt(s)
    c = ctx()
    some, bads = [], []
    have = False
    for ch in s:
        if not sym(ch):
            if pbad(ch):
                return False
            have = have or pgood(ch)
            continue
        img = c.image(ch)
        if not img & ~bad:
            return False
        if img & bad:
            bads.append(ch)
        if not img & ~good:
            have = True
        elif img & good:
            some.append(ch)
    if not bads and (have or not some):
        return have
    if len(set(bads + some)) == 1:
        ch = (bads + some)[0]
        if have:
            return not c.in_mask(ch, bad)
        return c.in_mask(ch, good)
    conds = []

    def inm(ch, m):
        base, pm = c._premask(ch, m)
        return dom_expr(core.char_var(base), c.doms[base] & pm)
    for ch in bads:
        conds.append(z3.Not(inm(ch, bad)))
    if not have:
        conds.append(z3.Or(*[inm(ch, good) for ch in some]) if some else z3.BoolVal(False))
    return c.fork(z3.And(*conds))


_UP = mask_if(str.isupper)
_LO = mask_if(str.islower)
_TI = mask_if(lambda c: c.istitle() and not c.isupper())


def isupper(s):
    return _cased(s, _UP, _LO | _TI, str.isupper, lambda c: c.islower() or (c.istitle() and not c.isupper()))


def islower(s):
    return _cased(s, _LO, _UP | _TI, str.islower, lambda c: c.isupper() or c.istitle())


# -- padding
def ljust(s, w, fill=" "):
    s = nt(s)
    return s + fill * (w - len(s))


def rjust(s, w, fill=" "):
    s = nt(s)
    return fill * (w - len(s)) + s


def center(s, w, fill=" "):
    s = nt(s)
    a = "x" * len(s)
    r = a.center(w, "\x01")
    i = r.index(a) if a else 0
    return fill * i + s + fill * (len(r) - i - len(s))


def zfill(s, w):
    s = nt(s)
    if s and (eq(s[0], "+") or eq(s[0], "-")):
        return s[0] + "0" * (w - len(s)) + s[1:]
    return "0" * (w - len(s)) + s


def expandtabs(s, tabsize=8):
    out, col = [], 0
    for ch in nt(s):
        if eq(ch, "\t"):
            n = tabsize - col % tabsize if tabsize > 0 else 0
            out.append(" " * n)
            col += n
        else:
            out.append(ch)
            col = 0 if eq(ch, "\n") or eq(ch, "\r") else col + 1
    return "".join(out)


def join(s, items):
    from . import ops
    return str.join(s, ops.aslist(items))


def translate(s, table):
    s = nt(s)
    c = ctx()
    out = []
    special, tab = 0, list(range(NALPH))
    for i, ch in enumerate(ALPHABET):
        r = ch.translate(table)
        if len(r) == 1 and r in INDEX:
            tab[i] = INDEX[r]
        else:
            special |= 1 << i
    tab = tuple(tab)
    for ch in s:
        if not sym(ch):
            out.append(ch.translate(table))
        elif c.image(ch) & special and c.in_mask(ch, special):
            out.append(enumerate_str(ch).translate(table))
        else:
            base, t0 = c.info(ch)
            comp = tab if t0 is None else tuple(tab[t0[i]] for i in range(NALPH))
            out.append(c.derived_char(base, comp))
    return "".join(out)


def less(a, b) -> bool:
    """a < b, by code points (ALPHABET is sorted)."""
    a, b = nt(a), nt(b)
    c = ctx()
    for x, y in zip(a, b):
        if eq(x, y):
            continue
        if not sym(x) and not sym(y):
            return x < y
        ex, ey = c.char_expr(x), c.char_expr(y)
        if ex is None or ey is None:
            return less(concretise_str(x), concretise_str(y))
        return c.fork(z3.ULT(ex, ey))
    return len(a) < len(b)


def to_int(s, base=10):
    """int(str)"""
    t = strip(s)
    if len(t) == 1 and ord(t) >= TOK0:
        return ctx().token_int(t)
    if len(t) == 2 and t[0] == "-" and ord(t[1]) >= TOK0:
        return -ctx().token_int(t[1])
    t = nt(t)
    if not has_sym_str(t):
        return int(t, base)
    if base != 10:
        return int(enumerate_str(t), base)
    c = ctx()
    body, sign = t, 1
    if body and char_in(body[0], mask_of("+-"), lambda ch: ch in "+-"):
        sign = -1 if eq(body[0], "-") else 1
        body = body[1:]
    val = z3.IntVal(0)
    prev = False
    dig = mask_of("0123456789")
    dec = _pmask("isdecimal")
    if not body:
        raise ValueError(f"invalid literal for int() with base 10: {s!r}")
    for k, ch in enumerate(body):
        if char_in(ch, dig, lambda x: x in "0123456789"):
            d = z3.BV2Int(c.char_expr(ch)) - INDEX["0"] if sym(ch) else z3.IntVal(int(ch))
            val = val * 10 + d
            prev = True
        elif char_in(ch, dec, str.isdecimal):
            val = val * 10 + int(enumerate_str(ch))
            prev = True
        elif prev and k + 1 < len(body) and eq(ch, "_"):
            prev = False
        else:
            raise ValueError(f"invalid literal for int() with base 10: {s!r}")
    if not prev:
        raise ValueError(f"invalid literal for int() with base 10: {s!r}")
    return core.SymInt(sign * val)


def to_float(s):
    t = strip(s)
    t = nt(t)
    if not has_sym_str(t):
        return float(t)
    from .sregex import ReModule
    m = ReModule().compile(r"([0-9]+)(?:\.([0-9]*))?").fullmatch(t)
    if m is None:
        return float(enumerate_str(t))
    a, b = m.group(1), m.group(2) or ""
    sig = len(a) + len(b)
    if sig > 15:
        return float(enumerate_str(t))
    n = to_int(a + b) if has_sym_str(a + b) else int(a + b)
    e = z3.ToReal(core.iexpr(n)) / (10 ** len(b))
    return core.SymFloat(z3.simplify(e))


METHODS = {k: v for k, v in list(globals().items()) if callable(v) and hasattr(str, k)}

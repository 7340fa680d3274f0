"""Regular expressions over strings with symbolic characters.

The pattern is parsed by the standard library's own parser (re._parser) and compiled to a
backtracking program with the priorities of sre.  A test of a symbolic character against a
character class forks the path only when (a) both outcomes are possible and (b) an
over-approximate search shows that the rest of the pattern could still match if the test
succeeds.  Character classes are tabulated by asking the real engine about every character
of the alphabet, so flags such as IGNORECASE and the meaning of \\w are never re-implemented.
Strings without symbolic characters go to the real engine.
"""
from __future__ import annotations

import re as _re
import re._compiler as _compiler
import re._constants as K
import re._parser as _parser

from . import core
from .core import ALPHABET, CH0, FULL, TOK0, Unsupported, concretise_str, has_sym_str

_CHAR_CACHE: dict = {}


class CharTest:
    __slots__ = ("mask", "single", "cache")

    def __init__(self, single):
        self.single = single
        m = 0
        for i, c in enumerate(ALPHABET):
            if single.fullmatch(c):
                m |= 1 << i
        self.mask = m
        self.cache = {}

    def concrete(self, ch):
        r = self.cache.get(ch)
        if r is None:
            r = self.cache[ch] = self.single.fullmatch(ch) is not None
        return r


def _single(node, flags, state):
    key = (repr(node), flags)
    t = _CHAR_CACHE.get(key)
    if t is None:
        st = _parser.State()
        st.flags = flags
        sp = _parser.SubPattern(st, [node])
        t = _CHAR_CACHE[key] = CharTest(_compiler.compile(sp, flags))
    return t


# instructions: tuples
#  ("c", CharTest)            consume one character
#  ("split", [pc, ...])       alternatives in priority order
#  ("jmp", pc)
#  ("save", slot)
#  ("at", kind)
#  ("look", prog, dir, neg, width)
#  ("mark", k)                remember position for the empty-loop check
#  ("chk", k, exit)           if nothing was consumed since mark k, leave the loop
#  ("match",)
class Prog:
    def __init__(self):
        self.ins = []


_CHARCLASS = {K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY}


class Compiler:
    def __init__(self, state):
        self.state = state
        self.nmark = 0

    def trie(self, alts, flags, out, ends):
        if not alts[0]:
            ends.append(len(out))
            out.append(None)
            return
        by = {}
        for a in alts:
            by.setdefault(repr(a[0]), []).append(a)
        sp = None
        if len(by) > 1:
            sp = len(out)
            out.append(None)
        starts = []
        for g in by.values():
            starts.append(len(out))
            self.node(g[0][0][0], g[0][0][1], flags, out)
            self.trie([a[1:] for a in g], flags, out, ends)
        if sp is not None:
            out[sp] = ("split", starts)

    def seq(self, items, flags, out):
        for op, av in items:
            self.node(op, av, flags, out)

    def node(self, op, av, flags, out):
        if op in _CHARCLASS:
            out.append(("c", _single((op, av), flags, self.state)))
        elif op is K.BRANCH:
            _, alts = av
            if len(alts) > 2 and len({len(a) for a in alts}) == 1 and all(x[0] in _CHARCLASS for a in alts for x in a):
                # alternatives of one length: at most their order differs, never the span
                ends = []
                self.trie([list(a) for a in alts], flags, out, ends)
                for j in ends:
                    out[j] = ("jmp", len(out))
                return
            sp = len(out)
            out.append(None)
            starts, jumps = [], []
            for alt in alts:
                starts.append(len(out))
                self.seq(alt, flags, out)
                jumps.append(len(out))
                out.append(None)
            for j in jumps:
                out[j] = ("jmp", len(out))
            out[sp] = ("split", starts)
        elif op is K.SUBPATTERN:
            group, addf, delf, p = av
            f = (flags | addf) & ~delf
            if group is not None:
                out.append(("save", 2 * group))
            self.seq(p, f, out)
            if group is not None:
                out.append(("save", 2 * group + 1))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is K.MAX_REPEAT
            if lo > 64 or (hi is not K.MAXREPEAT and hi > 64):
                raise Unsupported("large counted repeat")
            for _ in range(lo):
                self.seq(p, flags, out)
            if hi is K.MAXREPEAT:
                simple = len(p) == 1 and p[0][0] in _CHARCLASS
                top = len(out)
                out.append(None)
                body = len(out)
                if not simple:
                    k = self.nmark
                    self.nmark += 1
                    out.append(("mark", k))
                self.seq(p, flags, out)
                if not simple:
                    out.append(("chk", k))
                out.append(("jmp", top))
                end = len(out)
                out[top] = ("split", [body, end] if greedy else [end, body])
            else:
                tops = []
                for _ in range(hi - lo):
                    tops.append(len(out))
                    out.append(None)
                    self.seq(p, flags, out)
                end = len(out)
                for t in tops:
                    out[t] = ("split", [t + 1, end] if greedy else [end, t + 1])
        elif op is K.AT:
            kind = av
            if flags & _re.MULTILINE:
                kind = {K.AT_BEGINNING: K.AT_BEGINNING_LINE, K.AT_END: K.AT_END_LINE}.get(kind, kind)
            out.append(("at", kind, flags))
        elif op in (K.ASSERT, K.ASSERT_NOT):
            direction, p = av
            sub = []
            self.seq(p, flags, sub)
            sub.append(("match",))
            lo, hi = p.getwidth()
            if direction < 0 and lo != hi:
                raise Unsupported("variable lookbehind")
            out.append(("look", sub, direction, op is K.ASSERT_NOT, lo))
        else:
            raise Unsupported(f"regex construct {op}")


class Matcher:
    """One match attempt over one string."""

    def __init__(self, pat: "SymPattern", s: str, full: bool):
        self.pat = pat
        self.s = s
        self.n = len(s)
        self.full = full
        self.c = core.ctx()
        self.prog = pat.prog
        self.refresh()

    def refresh(self):
        c = self.c
        self.imgs = [c.image(ch) if CH0 <= ord(ch) < TOK0 else None for ch in self.s]
        # what was impossible stays impossible when domains shrink
        self.maymemo = {k: {x: v for x, v in d.items() if v is False} for k, d in getattr(self, "maymemo", {}).items()}

    # character tests
    def may(self, test, pos):
        img = self.imgs[pos]
        if img is None:
            return test.concrete(self.s[pos])
        return bool(img & test.mask)

    def decided(self, test, pos):
        """True/False if the test is decided, None if it needs a fork."""
        img = self.imgs[pos]
        if img is None:
            return test.concrete(self.s[pos])
        if not img & test.mask:
            return False
        if not img & ~test.mask:
            return True
        return None

    def take(self, test, pos):
        r = self.c.in_mask(self.s[pos], test.mask)
        self.refresh()
        return r

    # anchors
    def _word(self, pos, flags, may):
        """Is s[pos] a word character? True/False/None"""
        if pos < 0 or pos >= self.n:
            return False
        t = _WORD_A if flags & _re.ASCII else _WORD
        r = self.decided(t, pos)
        if r is None and not may:
            r = self.take(t, pos)
        return r

    def _nl(self, pos, may):
        r = self.decided(_NL, pos)
        if r is None and not may:
            r = self.take(_NL, pos)
        return r

    def at(self, ins, pos, may=False):
        kind = ins[1]
        flags = ins[2]
        if kind in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return pos == 0
        if kind is K.AT_END_STRING:
            return pos == self.n
        if kind is K.AT_END:
            if pos == self.n:
                return True
            if pos == self.n - 1:
                return self._nl(pos, may)
            return False
        if kind is K.AT_BEGINNING_LINE:
            return True if pos == 0 else self._nl(pos - 1, may)
        if kind is K.AT_END_LINE:
            return True if pos == self.n else self._nl(pos, may)
        if kind in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            if self.n == 0:
                return False
            a, b = self._word(pos - 1, flags, may), self._word(pos, flags, may)
            if a is None or b is None:
                return None
            return (a != b) if kind is K.AT_BOUNDARY else (a == b)
        raise Unsupported(f"anchor {kind}")

    def may_at(self, ins, pos):
        return self.at(ins, pos, may=True) is not False

    def may_match(self, prog, pc, pos, full):
        key = id(prog)
        memo = self.maymemo.get(key)
        if memo is None:
            memo = self.maymemo[key] = {}
        start = (pc, pos)
        r = memo.get(start)
        if r is not None:
            return r
        n = self.n
        seen = set()
        parent = {start: None}
        stack = [start]
        while stack:
            st = stack.pop()
            if st in seen:
                continue
            r = memo.get(st)
            if r is False:
                continue
            ok = r is True
            if not ok:
                seen.add(st)
                p, i = st
                ins = prog[p]
                op = ins[0]
                nxt = ()
                if op == "c":
                    if i < n and self.may(ins[1], i):
                        nxt = ((p + 1, i + 1),)
                elif op == "split":
                    nxt = [(t, i) for t in reversed(ins[1])
                           if prog[t][0] != "c" or (i < n and self.may(prog[t][1], i))]
                elif op == "jmp":
                    nxt = ((ins[1], i),)
                elif op == "match":
                    ok = (not full) or i == n
                elif op == "at":
                    if self.may_at(ins, i):
                        nxt = ((p + 1, i),)
                else:
                    nxt = ((p + 1, i),)
                for x in nxt:
                    if x not in seen:
                        if x not in parent:
                            parent[x] = st
                        stack.append(x)
            if ok:
                # everything on the parent chain may match
                x = st
                while x is not None:
                    memo[x] = True
                    x = parent.get(x)
                return True
        for x in seen:
            memo[x] = False
        return False

    def run(self, prog, pc, pos, full, ne=None):
        """Backtracking run with sre's priorities. Returns (end, saves) or None.

        ne: a position at which the match must not end (sre's must_advance).
        """
        n = self.n
        # stack of alternatives: (pc, pos, saves, marks)
        stack = [(pc, pos, (), ())]
        while stack:
            pc, pos, saves, marks = stack.pop()
            while True:
                ins = prog[pc]
                op = ins[0]
                if op == "c":
                    if pos >= n:
                        break
                    t = ins[1]
                    r = self.decided(t, pos)
                    if r is None:
                        # only fork if a success could lead to a match of the whole pattern
                        if not self.may_match(prog, pc + 1, pos + 1, full):
                            break
                        r = self.take(t, pos)
                    if not r:
                        break
                    pc += 1
                    pos += 1
                elif op == "split":
                    alts = ins[1]
                    if len(alts) > 8:
                        alts = [a for a in alts if self._first_ok(prog, a, pos)]
                        if not alts:
                            break
                    for a in reversed(alts[1:]):
                        stack.append((a, pos, saves, marks))
                    pc = alts[0]
                elif op == "jmp":
                    pc = ins[1]
                elif op == "save":
                    saves = saves + ((ins[1], pos),)
                    pc += 1
                elif op == "mark":
                    marks = tuple(x for x in marks if x[0] != ins[1]) + ((ins[1], pos),)
                    pc += 1
                elif op == "chk":
                    k = ins[1]
                    if any(a == k and b == pos for a, b in marks):
                        # empty iteration: sre leaves the loop
                        pc = pc + 2  # past the jmp
                    else:
                        pc += 1
                elif op == "at":
                    if self.at(ins, pos):
                        pc += 1
                    else:
                        break
                elif op == "look":
                    sub, direction, neg, width = ins[1:]
                    start = pos if direction >= 0 else pos - width
                    r = None
                    if start >= 0 and self.may_match(sub, 0, start, False):
                        r = self.run(sub, 0, start, False)
                    if (r is not None) == neg:
                        break
                    if r is not None:
                        saves = saves + r[1]
                    pc += 1
                elif op == "match":
                    if (full and pos != n) or pos == ne:
                        break
                    return pos, saves
                else:
                    raise AssertionError(op)
        return None

    def _first_ok(self, prog, pc, pos):
        ins = prog[pc]
        while ins[0] in ("save", "mark"):
            pc += 1
            ins = prog[pc]
        if ins[0] == "c":
            return pos < self.n and self.may(ins[1], pos)
        return True


_WORD = CharTest(_re.compile(r"\w"))
_WORD_A = CharTest(_re.compile(r"\w", _re.ASCII))
_NL = CharTest(_re.compile(r"\n"))


class SymMatch:
    def __init__(self, pat, s, start, end, saves, pos=0, endpos=None):
        self.re = pat
        self.string = s
        self.pos = pos
        self.endpos = len(s) if endpos is None else endpos
        self._spans = {0: (start, end)}
        opened = {}
        last = None
        for slot, p in saves:
            g, b = divmod(slot, 2)
            if b == 0:
                opened[g] = p
            else:
                self._spans[g] = (opened[g], p)
                last = g
        self.lastindex = last

    @classmethod
    def of(cls, pat, s, r):
        """The match of a string that every instance matches like r."""
        m = cls(pat, s, r.start(), r.end(), ())
        for g in range(1, pat.groups + 1):
            if r.span(g) != (-1, -1):
                m._spans[g] = r.span(g)
        m.lastindex = r.lastindex
        return m

    @property
    def lastgroup(self):
        for name, i in self.re.groupindex.items():
            if i == self.lastindex:
                return name
        return None

    def _idx(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._spans.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = lambda self, g: self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True

    def __repr__(self):
        return f"<SymMatch span={self.span()}>"


def _expand(m, repl):
    if callable(repl):
        return repl(m)
    if "\\" not in repl:
        return repl
    t = _parser.parse_template(repl, m.re.real)
    out = []
    for x in t:
        if isinstance(x, int):
            out.append(m._get(x, "") or "")
        else:
            out.append(x)
    return "".join(out)


_PATS = {}
CROSSCHECK = True


class SymPattern:
    """Stands for a compiled pattern."""

    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = real.groupindex
        self._prog = None
        self._mask_list = None
        self._uni = {}

    def __repr__(self):
        return repr(self.real)

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def prog(self):
        if self._prog is None:
            p = _parser.parse(self.pattern, self.flags & ~_re.DEBUG)
            comp = Compiler(p.state)
            out = []
            comp.seq(p, p.state.flags if p.state.flags & _re.UNICODE or isinstance(self.pattern, bytes) else self.flags, out)
            out.append(("match",))
            self._prog = out
        return self._prog

    def _masks(self):
        if self._mask_list is None:
            ms = {}

            def walk(prog):
                for ins in prog:
                    if ins[0] == "c":
                        ms[ins[1].mask] = 1
                    elif ins[0] == "at":
                        ms[_NL.mask] = ms[_WORD.mask] = ms[_WORD_A.mask] = 1
                    elif ins[0] == "look":
                        walk(ins[1])
            walk(self.prog)
            self._mask_list = list(ms)
        return self._mask_list

    def _uniform(self, s):
        """An instance of s, if every instance of s is treated alike by every test of the pattern."""
        c = core.ctx()
        cache = self._uni
        out = []
        for ch in s:
            o = ord(ch)
            if o >= CH0:
                img = c.image(ch)
                r = cache.get(img)
                if r is None:
                    r = all(img & m in (0, img) for m in self._masks())
                    r = cache[img] = ALPHABET[(img & -img).bit_length() - 1] if r else ""
                if not r:
                    return None
                out.append(r)
            else:
                out.append(ch)
        return "".join(out)

    # -- engine entry
    def _sym(self, s):
        if isinstance(s, str) and has_sym_str(s):
            if core.has_token(s):
                s = core.fix_tokens(s)
                if not has_sym_str(s):
                    return None, s
            try:
                self.prog
            except Unsupported as e:
                core.ctx().note(f"regex: {e}")
                return None, concretise_str(s, "regex on a fixed string")
            return True, s
        return None, s

    def _attempt(self, s, pos, full):
        t = self._uniform(s)
        if t is not None:
            r = (self.real.fullmatch if full else self.real.match)(t, pos)
            return r and SymMatch.of(self, s, r)
        m = Matcher(self, s, full)
        if not m.may_match(m.prog, 0, pos, full):
            return None
        r = m.run(m.prog, 0, pos, full)
        if r is None:
            return None
        return SymMatch(self, s, pos, r[0], r[1])

    def _search(self, s, pos, nonempty_at=None):
        """nonempty_at: a position at which an empty match is not allowed."""
        if nonempty_at is None and pos == 0:
            t = self._uniform(s)
            if t is not None:
                r = self.real.search(t)
                return r and SymMatch.of(self, s, r)
        m = Matcher(self, s, False)
        for i in range(pos, len(s) + 1):
            if not m.may_match(m.prog, 0, i, False):
                continue
            r = m.run(m.prog, 0, i, False, i if i == nonempty_at else None)
            if r is not None:
                return SymMatch(self, s, i, r[0], r[1])
        return None

    def match(self, string, pos=0, *a, **kw):
        k, s = self._sym(string)
        a = a or tuple(kw.values())
        if k is None:
            return self.real.match(s, pos, *a)
        s, pos = _limit(s, pos, a)
        r = self._attempt(s, pos, False)
        self._check("match", s, r, pos)
        return r

    def fullmatch(self, string, pos=0, *a, **kw):
        k, s = self._sym(string)
        a = a or tuple(kw.values())
        if k is None:
            return self.real.fullmatch(s, pos, *a)
        s, pos = _limit(s, pos, a)
        r = self._attempt(s, pos, True)
        self._check("fullmatch", s, r, pos)
        return r

    def search(self, string, pos=0, *a, **kw):
        k, s = self._sym(string)
        a = a or tuple(kw.values())
        if k is None:
            return self.real.search(s, pos, *a)
        s, pos = _limit(s, pos, a)
        r = self._search(s, pos)
        self._check("search", s, r, pos)
        return r

    def _check(self, how, s, r, pos=0):
        """Cross-check against the real engine on one instance of the path."""
        if not CROSSCHECK:
            return
        c = core.ctx()
        c.stats.__dict__["regex_checks"] = c.stats.__dict__.get("regex_checks", 0)
        if c.stats.regex_checks >= 400:
            return
        c.stats.regex_checks += 1
        t = quick_instance(s)
        if t is None:
            return
        q = getattr(self.real, how)(t, pos)
        a = None if r is None else tuple(r.span(i) for i in range(self.groups + 1))
        b = None if q is None else tuple(q.span(i) for i in range(self.groups + 1))
        if a != b:
            raise core.Inconclusive(f"regex model disagrees with re on {self.pattern!r} {t!r}: {a} {b}")

    def _iter(self, s, pos=0):
        t = self._uniform(s)
        if t is not None:
            return [SymMatch.of(self, s, r) for r in self.real.finditer(t, pos)]
        out = []
        must = None
        while pos <= len(s):
            m = self._search(s, pos, must)
            if m is None:
                break
            out.append(m)
            pos = m.end()
            # sre: after an empty match the next one must advance
            must = pos if m.end() == m.start() else None
        return out

    def _allspans_check(self, s, ms, pos=0):
        if not CROSSCHECK:
            return
        c = core.ctx()
        c.stats.__dict__.setdefault("regex_checks", 0)
        if c.stats.regex_checks >= 400:
            return
        c.stats.regex_checks += 1
        t = quick_instance(s)
        if t is None:
            return
        a = [tuple(m.span(i) for i in range(self.groups + 1)) for m in ms]
        b = [tuple(m.span(i) for i in range(self.groups + 1)) for m in self.real.finditer(t, pos)]
        if a != b:
            raise core.Inconclusive(f"regex model disagrees with re on {self.pattern!r} {t!r}: {a} {b}")

    def scanner(self, string, pos=0, *a):
        return _Scanner(self, string, pos, a)

    def finditer(self, string, pos=0, *a, **kw):
        k, s = self._sym(string)
        a = a or tuple(kw.values())
        if k is None:
            return self.real.finditer(s, pos, *a)
        s, pos = _limit(s, pos, a)
        ms = self._iter(s, pos)
        self._allspans_check(s, ms, pos)
        return iter(ms)

    def findall(self, string, pos=0, *a, **kw):
        k, s = self._sym(string)
        a = a or tuple(kw.values())
        if k is None:
            return self.real.findall(s, pos, *a)
        s, pos = _limit(s, pos, a)
        ms = self._iter(s, pos)
        self._allspans_check(s, ms, pos)
        if self.groups == 0:
            return [m.group() for m in ms]
        if self.groups == 1:
            return [m._get(1, "") for m in ms]
        return [m.groups("") for m in ms]

    def subn(self, repl, string, count=0):
        k, s = self._sym(string)
        if k is None and not (isinstance(repl, str) and has_sym_str(repl)):
            return self.real.subn(repl, s, count)
        out, pos, n = [], 0, 0
        for m in (self._iter(s) if k else list(self.real.finditer(s))):
            if count and n >= count:
                break
            out.append(s[pos:m.start()])
            out.append(_expand(m, repl) if k else (repl(m) if callable(repl) else m.expand(repl)))
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return "".join(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        k, s = self._sym(string)
        if k is None:
            return self.real.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return out


class _Scanner:
    """What Pattern.scanner gives: successive matches, each from where the last one ended."""

    def __init__(self, pattern, s, pos, a):
        self.pattern, self.s, self.pos, self.a, self.must = pattern, s, pos, a, False

    def _step(self, how):
        if self.pos is None:
            return None
        p, k = self.pattern, None
        k, s = p._sym(self.s)
        s, pos = _limit(s, self.pos, self.a)
        if self.must:
            raise Unsupported("scanner after an empty match")
        if k is None:
            m = getattr(p.real, how)(s, pos)
        else:
            m = p._attempt(s, pos, False) if how == "match" else p._search(s, pos)
        if m is None:
            self.pos = None
        else:
            self.pos, self.must = m.end(), m.end() == m.start()
        return m

    def match(self):
        return self._step("match")

    def search(self):
        return self._step("search")


def _limit(s, pos, a):
    """pos and endpos, as sre takes them."""
    pos = core.concretise_int(pos) if isinstance(pos, core.SymInt) else pos
    if a:
        end = core.concretise_int(a[0]) if isinstance(a[0], core.SymInt) else a[0]
        s = s[:max(end, 0)]
    return s, min(max(pos, 0), len(s))


def quick_instance(s):
    """One concrete instance of a string on this path, without a solver call."""
    c = core.ctx()
    if c.entangled:
        for ch in s:
            o = ord(ch)
            if CH0 <= o < TOK0 and c.info(ch)[0] in c.entangled:
                return None
    out = []
    for ch in s:
        o = ord(ch)
        if o >= TOK0:
            return None
        if o >= CH0:
            base, table = c.chars[o - CH0]
            d = c.doms[base]
            i = (d & -d).bit_length() - 1
            out.append(ALPHABET[table[i] if table else i])
        else:
            out.append(ch)
    return "".join(out)


class ReModule:
    """Stands for the module ``re`` in the code under test."""

    def __init__(self):
        for n in dir(_re):
            if n.isupper() or n in ("RegexFlag", "error", "PatternError"):
                if hasattr(_re, n):
                    setattr(self, n, getattr(_re, n))
        self.Pattern = SymPattern
        self.Match = SymMatch
        self.__name__ = "re"

    def compile(self, pattern, flags=0):
        if isinstance(pattern, SymPattern):
            return pattern
        if isinstance(pattern, _re.Pattern):
            real = pattern
        else:
            if has_sym_str(pattern):
                pattern = _pattern_with_syms(pattern)
            real = _re.compile(pattern, flags)
        p = _PATS.get((real.pattern, real.flags))
        if p is None:
            p = _PATS[(real.pattern, real.flags)] = SymPattern(real)
        return p

    def escape(self, s):
        if has_sym_str(s):
            s = concretise_str(s, "re.escape of a symbolic string")
        return _re.escape(s)

    def match(self, pattern, string, flags=0):
        return self.compile(pattern, flags).match(string)

    def fullmatch(self, pattern, string, flags=0):
        return self.compile(pattern, flags).fullmatch(string)

    def search(self, pattern, string, flags=0):
        return self.compile(pattern, flags).search(string)

    def findall(self, pattern, string, flags=0):
        return self.compile(pattern, flags).findall(string)

    def finditer(self, pattern, string, flags=0):
        return self.compile(pattern, flags).finditer(string)

    def sub(self, pattern, repl, string, count=0, flags=0):
        return self.compile(pattern, flags).sub(repl, string, count)

    def subn(self, pattern, repl, string, count=0, flags=0):
        return self.compile(pattern, flags).subn(repl, string, count)

    def split(self, pattern, string, maxsplit=0, flags=0):
        return self.compile(pattern, flags).split(string, maxsplit)

    def purge(self):
        pass


def _pattern_with_syms(pattern):
    return concretise_str(pattern, "regex built from a symbolic string")

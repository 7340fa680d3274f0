#!/usr/bin/env python3-vt
"""The engine against the interpreter: on every symbolic path of small programs and regular expressions, a model of the
path condition is run natively, and both results must be the same.  Exit 0: they are."""
import itertools
import os
import re
import sys
import types

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from sx import core, env, ops, sregex, xform  # noqa: E402

PATTERNS = [r"a*",
            r"(a|b)*c",
            r"\w+\s*:",
            r"x*?",
            r"(?P<h>\w*)\s*:\s*(\w+)",
            r"(a*)*",
            r"(?:^|(?<=[;\n]))\s*(\w+)\b",
            r"[^'\"]*'",
            r"\s+$",
            r"(a|ab)(c|bcd)(d*)",
            r"(?i)make\s*\(.+?\);",
            r"x*",
            r"(?:a?b??)*$"]

PROGRAM = '''
import functools, itertools, operator, collections, enum, types
from dataclasses import dataclass
@dataclass(frozen=True, order=True)
class P:
    a: str
    b: int = 0
class E(enum.Enum):
    X="AB"; Y="CD"
def m(x):
    match x:
        case ["MAKE", *rest] if rest: return ("make", rest)
        case ("FIND"|"find") as k: return ("f", k)
        case {"a": str(v), **r}: return ("d", v, r)
        case P(a="q", b=n): return ("P", n)
        case P(z): return ("p", z)
        case int(n) if n > 3: return ("int", n)
        case None: return "none"
        case [a, [b, *_], c]: return (a,b,c)
        case _: return "other"
def allm():
    return [m(x) for x in (["MAKE",1,2],["MAKE"],"find",{"a":"s","b":2},{"a":1},P("q",4),P("r"),5,2,None,[1,[2,3],4])]
def t(s1, s2):
    r=[]
    r.append(functools.reduce(operator.add,[s1,s2]))
    r.append([ (k,list(g)) for k,g in itertools.groupby([s1,s2,"x"])])
    c=collections.Counter([s1,s2]); c.update(x for x in [s1])
    r.append(dict(c)); r.append(c["nope"])
    r.append(P(s1)==P(s2)); r.append(len({P(s1),P(s2)})); r.append(P(s1)<P(s2))
    r.append({s1:1}.keys() & {s2:2}.keys()); r.append({s1:1}.keys() <= {s2}); r.append({s1}.isdisjoint(x for x in [s2]))
    r.append(len(set().union(x for x in (s1,s2))))
    r.append(list(map(operator.itemgetter(s1),[{s2:4, "zz":1}])) if s1==s2 else None)
    r.append(list(filter({s1}.__contains__,[s2]))); r.append(list(filter([s1].__contains__,[s2])))
    r.append(E("AB")); r.append(s1+s2=="AB" and E(s1+s2))
    d=collections.deque([s1]); r.append(s2 in d); r.append(list(iter(d.popleft, s1)) if s1==s2 else 0)
    o=collections.OrderedDict([(s1,1),(s2,2)]); r.append(len(o)); o.pop(s1); o.setdefault(s2, 4); r.append(len(o))
    r.append(s1 in (x for x in [s2]))
    dd=collections.defaultdict(list); dd[s1].append(1); dd[s2].append(2); r.append(sorted(dd.items()))
    return r

from typing import NamedTuple, Protocol, cast
from contextlib import contextmanager, suppress, ExitStack, nullcontext
import re as _re, string, copy, heapq, bisect, textwrap
class NT(NamedTuple):
    a: str
    b: int = 2
class Slots:
    __slots__ = ("x", "y")
    def __init__(self, x, y): self.x, self.y = x, y
class Base:
    reg = {}
    def __init_subclass__(cls, **k): Base.reg[cls.__name__] = k
    def __eq__(self, o): return isinstance(o, Base) and self.k() == o.k()
    def __hash__(self): return hash(self.k())
class Der(Base, tag="x"):
    def __init__(self, s): self.s = s
    def k(self): return self.s
    @property
    def up(self): return self.s.upper()
    @staticmethod
    def st(s): return s + "!"
    @classmethod
    def mk(cls, s): return cls(s + "A")
    def __contains__(self, x): return x == self.s
    def __getitem__(self, i): return self.s * i
    def __len__(self): return len(self.s)
    def __iter__(self): yield self.s; yield from ("p", self.s)
    def __bool__(self): return self.s == "A"
    def __call__(self, *a, **k): return (self.s, a, k)
    def __add__(self, o): return Der(self.s + o.s)
    def __lt__(self, o): return self.s < o.s
    def __enter__(self): return self
    def __exit__(self, t, e, b): self.s = "closed"; return t is KeyError
class SD(dict):
    def __missing__(self, k): return ("missing", k)
def gen(*ss):
    try:
        for s in ss:
            got = yield s
            if got: yield ("got", got)
    finally:
        LOG.append("done")
LOG = []
@contextmanager
def cm(s):
    LOG.append(s)
    try:
        yield s + "in"
    except ValueError as e:
        LOG.append(("caught", str(e)))
    finally:
        LOG.append("out")
@functools.lru_cache(maxsize=None)
def cached(s): return s + "c"
@functools.cache
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
def deco(f):
    @functools.wraps(f)
    def w(*a, **k): return ("w", f(*a, **k))
    return w
@deco
def kw(a, /, b="B", *rest, c="C", **more): return (a, b, rest, c, sorted(more.items()))
@functools.singledispatch
def sd(x): return ("any", x)
@sd.register
def _(x: str): return ("str", x)
@sd.register
def _(x: list): return ("list", x)
def u(s1, s2):
    LOG.clear()
    r = []
    n = NT(s1); r += [tuple(n), n.a == s2, tuple(n._replace(a=s2)), n._asdict(), NT(s1) == NT(s2), n < NT(s2, 3), n == (s1, 2)]
    a, b = n; r += [a, b, [*n, *"xy"], {**{s1: 1}, s2: 2}]
    sl = Slots(s1, s2); sl.x += "z"; r += [sl.x, getattr(sl, "y"), hasattr(sl, "q"), operator.attrgetter("x", "y")(sl)]
    d, e = Der(s1), Der(s2)
    r += [d == e, len({d, e}), d.up, Der.st(s1), Der.mk(s2).s, s2 in d, d[2], len(d), list(d), bool(d), d(1, k=s2), (d + e).s, d < e, max(d, e).s, sorted([d, e])[0].s, Base.reg]
    with d as dd: raise KeyError(s1)
    r.append(d.s)
    x = SD({s1: 1}); r += [x[s2], x.get(s2), s2 in x]
    g = gen(s1, s2); r += [next(g), g.send("hi"), list(g), LOG[:]]
    g = gen(s1, s2); next(g); g.close(); r.append(LOG[:])
    with cm(s1) as v: r.append(v); raise ValueError(s2)
    r.append(LOG[:])
    with ExitStack() as es:
        r.append(es.enter_context(cm(s2))); es.callback(LOG.append, "cb"); es.enter_context(nullcontext())
    r.append(LOG[:])
    with suppress(KeyError, IndexError): r.append({s1: 1}[s2])
    r += [cached(s1), cached(s2), fib(10), kw(s1), kw(s1, s2, 3, c=4, z=s1, y=s2), sd(s1), sd([s2]), sd(3)]
    r += [list(itertools.zip_longest([s1, s2], "a", fillvalue=s1)), list(itertools.islice(itertools.cycle([s1, s2]), 5)), list(itertools.chain.from_iterable([[s1], [s2]])),
          list(itertools.takewhile(lambda q: q != "A", [s1, s2])), list(itertools.dropwhile(lambda q: q == s1, [s1, s2, "z"])), list(itertools.compress([s1, s2], [0, 1])),
          list(itertools.pairwise([s1, s2, "z"])), list(itertools.product([s1], [s2, "q"])), list(itertools.combinations([s1, s2, "q"], 2)), list(itertools.permutations([s1, s2])),
          list(itertools.accumulate([s1, s2])), list(itertools.starmap(operator.add, [(s1, s2)])), list(itertools.filterfalse(str.isalpha, [s1, s2])), list(itertools.batched([s1, s2, "z"], 2)),
          [list(q) for q in itertools.tee([s1, s2])], list(zip([s1, s2], itertools.count(3))), list(itertools.repeat(s1, 2)), list(map(operator.methodcaller("upper"), [s1, s2]))]
    return r
def vv(s1, s2):
    r = []
    t = "k: " + s1 + ",  l:" + s2 + "; k: z"
    r += [_re.split(r"[,;]\\s*", t), _re.split(r"([,;])", t, maxsplit=1), _re.sub(r"\\w", lambda m: m.group() * 2, t), _re.sub(r"(?P<n>\\w): ", r"\\g<n>=", t), _re.subn("k", s1, t) if s1 in "ABq" else 0,
          [m.groupdict() for m in _re.finditer(r"(?P<n>\\w):\\s*(?P<v>[ABq]?)", t)], _re.findall(r"(\\w):\\s*(\\w?)", t), _re.escape(s1), bool(_re.match(_re.escape(s1), s2)),
          _re.compile("(?i)a|b").fullmatch(s1) is None, [m.span("v") for m in _re.finditer(r"(?P<v>A)", t)], (m := _re.search(r"(A)|(B)|(q)", t)) and (m.lastindex, m.groups("none"), m.start(), m.end(), m.expand(r"<\\1>") if m.group(1) else 0)]
    r += [t.translate(str.maketrans({"k": "K", "A": None, "B": "bb"})), t.translate(str.maketrans("kl", "LK", ";")), s1.translate({65: "x"})]
    r += ["{} {x!s:>4}".format(s1, x=s2), "{0}{1}{0}".format(s1, s2), "{a}".format_map({"a": s1}), string.Template("$a-$b").substitute(a=s1, b=s2), "%(p)s %(q)r" % {"p": s1, "q": s2}]
    r += [f"{s1 + s2:<5}|{len(t):03d}|{s1=}", t.rsplit(" ", 1), t.rsplit(), t.split(maxsplit=2), t.split(",", 1), t.center(30, "*"), s1.zfill(3), s1.ljust(3, "."), t.index("l"), t.rfind(s1), t.lstrip("k: "), t.isprintable(), s1.isspace(), s1.isalnum(), s1.isupper(), s1.isnumeric(), s1.isdecimal(), s1.isascii()]
    l = [s1, s2, "C"]; l.sort(key=str.lower, reverse=True); r.append(l[:])
    l.remove(s2); l.insert(0, s1); l[1:1] = ["m", s2]; del l[0]; l.extend(s2); l.reverse(); r += [l, l.count(s1), l[-1], l[::2]]
    h = [s2, s1, "B"]; heapq.heapify(h); heapq.heappush(h, "A"); r.append([heapq.heappop(h) for _ in range(4)])
    b = ["A", "C"]; bisect.insort(b, s1); r += [b, bisect.bisect_left(b, s2)]
    c = copy.deepcopy({s1: [s2, {"x": s1}]}); r += [c, copy.copy(c) == c]
    c[s1].append(1); c.setdefault(s2, []).append(2) if s1 != s2 else None; r += [c, {k: v for k, v in sorted(c.items())}, dict.fromkeys([s1, s2], 0), dict(zip([s1, s2], "pq")), list(reversed([s1, s2])), list(enumerate([s1, s2], 1))]
    c |= {s2: 9}; r += [c, c.pop(s1), c.pop(s1, "gone"), list(c)]
    o = types.SimpleNamespace(z={s1}, d={s1: 1}, t="%s."); o.z |= {s2, "A"}; o.d |= {s2: 2}; o.t %= s2; r += [sorted(o.z), o.d, o.t]
    z = {s1, "A"}; z |= {s2}; z -= {"q"}; z.discard("B"); r += [sorted(z), {s1} <= {s1, s2}, {s1} ^ {s2} == set(), frozenset([s1, s2]) == frozenset([s2, s1]), z & {s1} == {s1}]
    r += [any(q == "A" for q in (s1, s2)), all(map(str.isupper, (s1, s2))), min([s1, s2], key=lambda q: (q != "A", q)), max((s1, s2), default="x"), sum(q == s1 for q in "ABq"), next((q for q in "ABq" if q == s2), "none"), s1 < s2 < "z", not s1 == s2, (s1 == "A") + 1, (s1 == "A") is True]
    r += [collections.Counter(t).most_common(1), sorted((collections.Counter([s1]) + collections.Counter([s2])).items()), collections.Counter([s1, s2]).total(), (collections.Counter([s1, "A"]) - collections.Counter([s2])) == {}]
    try:
        if s1 == "A": raise ValueError(s1, s2)
        elif s1 == "B": {}[s2]
        elif s1 == "q": [][0]
        int(s1)
    except (KeyError, IndexError) as ex: r.append(repr(ex))
    except ValueError as ex: r.append(len(ex.args))
    else: r.append("no error")
    finally: r.append("finally")
    i = 0
    while True:
        i += 1
        if (s1 + s2)[i % 2] == "A": break
        if i > 3: continue_ = True; break
    else: r.append("never")
    for q in t:
        if q == "q": break
    else: r.append("no q")
    f = functools.partial(kw, s1, c=s2); r += [f(), f(1, 2)]
    def outer():
        acc = []
        def inner(x):
            nonlocal acc
            acc = acc + [x]
            return len(acc)
        return inner, lambda: acc
    p, q = outer(); p(s1); p(s2); r.append(q())
    try:
        try: raise KeyError(s1)
        except KeyError as ex: raise RuntimeError(s2) from ex
    except RuntimeError as ex: r += [repr(ex.__cause__), str(ex)]
    r += [(lambda *a, k=s1: (a, k))(s2), [y for x in [[s1], [s2]] for y in x if y != "B"], {x: [y] for x, y in [(s1, s2)]}, (yy := s1 + "w") + yy, *[s1, s2]]
    r += [textwrap.dedent("  " + "x" + s1), [*map(str, [1, s1])], "".join(reversed(t)), "".join(sorted({s1, s2})), [s1, s2] < ["B"], (s1, 1) == (s2, 1), s1 is not None, isinstance(s1, str), type(s1) is str, type(s1).__name__, s1.__class__ is str, str(s1), repr([s1]), s1.encode() == b"A", s1.encode().decode() + "x", list(s1 + s2), tuple(t)[:3]]
    return r

def st(s1, s2):
    t = "a" + s1 + " " + s2 + ";"
    r = [t.split(), t.split(s1), t.partition(s2), t.rpartition(" "), t.strip(";" + s2), t.upper(), t.lower(), t.title()]
    r += [t.find(s2), t.count(s1), t.replace(s1, s2), t.startswith(("a" + s2, "b")), t.endswith(";"), t.casefold()]
    r += [t.removeprefix("aA"), t.rstrip(";").isalpha(), s1.isdigit(), s2.islower(), sorted([s1, s2]), max(s1, s2)]
    r += [t[::-1], t[1:3], t * 2, "%s-%s" % (s1, s2), f"{s1:>3}|{s2!r}", ",".join([s1, s2]), t.swapcase(), t.isidentifier()]
    r += [s1 + s2 in "xABq", s1 in t[2:], ord(s1), chr(ord(s1) + 1), [s1, s2].index(s2), {s1: 1, s2: 2}, t.splitlines(), t.expandtabs(4), t.expandtabs()]
    return r
'''


def explore(fn, limit=20000):
    stats, todo, n = core.Stats(), [[]], 0
    while todo:
        prefix = todo.pop()
        c = core.Ctx(prefix, stats)
        core.set_ctx(c)
        try:
            fn(c)
        except core.Infeasible:
            pass
        n += 1
        if n > limit:
            raise SystemExit("too many paths")
        for i in range(len(c.trace) - 1, len(prefix) - 1, -1):
            t, k = c.trace[i]
            todo += [[x[0] for x in c.trace[:i]] + [j] for j in range(t + 1, k)]
    return n


def regexes():
    paths = 0
    rx = sregex.ReModule()
    for pattern, how in itertools.product(PATTERNS, ("match", "fullmatch", "search", "findall", "split", "sub")):
        def one(c):
            s = "".join(c.new_char(core.mask_of("aAbxc :;'\n(Mdé"), f"k{i}") for i in range(4))
            arg = ["<\\g<0>>"] if how == "sub" else []
            compiled = rx.compile(pattern)
            got = getattr(compiled, how)(*arg, s)
            m = c.model()
            text = m.str(s)
            real = getattr(re.compile(pattern), how)(*arg, text)
            if how in ("match", "fullmatch", "search"):
                a = None if got is None else [got.span(i) for i in range(compiled.groups + 1)]
                b = None if real is None else [real.span(i) for i in range(compiled.groups + 1)]
            else:
                a, b = m.value(got), real
            if a != b:
                raise SystemExit(f"regex {pattern!r} {how} on {text!r}: engine {a}, interpreter {b}")
        paths += explore(one)
    return paths


def programs():
    mod = types.ModuleType("mm")
    ops.INSTRUMENTED.add("mm")
    mod.__dict__["_sx_"] = xform.Runtime
    sys.modules["mm"] = mod
    exec(xform.transform(PROGRAM, "mm.py", "mm"), mod.__dict__)
    nat = types.ModuleType("mn")
    sys.modules["mn"] = nat
    exec(PROGRAM, nat.__dict__)
    if repr(mod.allm()) != repr(nat.allm()):
        raise SystemExit(f"match statements: engine {mod.allm()}, interpreter {nat.allm()}")
    paths = 0
    for name in ("t", "st", "u", "vv"):
        def one(c):
            ops._ticks[0] = 0
            s1, s2 = c.new_char(core.mask_of("ABq1\t\n"), "x"), c.new_char(core.mask_of("ABq1\t"), "y")
            got = getattr(mod, name)(s1, s2)
            m = c.model()
            a, b = m.value(got), getattr(nat, name)(m.str(s1), m.str(s2))
            if repr(a).replace("mm.", "") != repr(b).replace("mn.", ""):
                bad = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if repr(x) != repr(y)]
                raise SystemExit(f"program {name} on {m.str(s1)!r}, {m.str(s2)!r}: {bad}")
        paths += explore(one)
    return paths


if __name__ == "__main__":
    env.install()
    print("programs:", programs(), "paths agree", flush=True)
    print("regular expressions:", regexes(), "paths agree", flush=True)

"""Handles are unique within a pattern: a repeated one is an error, distinct ones and other patterns do not matter."""
from props import common
from props.c06 import some
from props.common import N, R

SHAPES = ["nn", "n>n", "n<n", "n>n>n", "n<n>n", "n>n<n", "nnn", "n>nn", "nn<n"]


def parts_of(h, shape, handles):
    parts, r = [], 0
    for i, c in enumerate(shape):
        k = handles[i]
        if c == "n":
            parts.append(N("ABCDE"[i], k))
        else:
            parts.append(R(c, "R" if i == 1 else "", k))
    return parts


def clash(h, handles):
    hs = [x for x in handles if len(x)]
    return h.any_of([h.same(hs[i], hs[j]) for i in range(len(hs)) for j in range(i)])


def verdict(h, q, bad):
    db = some(h)
    before = h.everything()
    o = db.run(q)
    h.check(h.same(o.ok, h.not_(bad)), "a repeated handle is accepted, or distinct handles are not")
    if not o.ok:
        h.check(h.same(h.everything(), before), "a refused query changed what is stored")
    h.reach("accepted" if o.ok else "refused")
    return o


def pairs(h):
    """Two of the parts of a pattern have handles of any 1 or 2 characters."""
    shape = h.choice("shape", SHAPES)
    i = h.choice("first", list(range(len(shape) - 1)))
    j = h.choice("second", list(range(i + 1, len(shape))))
    a = h.text("handle a", h.choice("length a", [1, 2]), r"\w")
    b = h.text("handle b", h.choice("length b", [1, 2]), r"\w")
    hs = [""] * len(shape)
    hs[i], hs[j] = a, b
    parts = parts_of(h, shape, hs)
    clause = h.choice("clause", ["MAKE ", "FIND ", "MAKE (x:X), ", "MAKE (x:X);MAKE "])
    verdict(h, clause + common.pattern(parts) + ";", clash(h, hs))


def every(h):
    """All parts have handles of any character."""
    shape = h.choice("shape", SHAPES[:6] if not h.deep else SHAPES)
    hs = [h.text(f"handle{i}", 1, r"\w") for i in range(len(shape))]
    verdict(h, h.choice("clause", ["MAKE ", "FIND "]) + common.pattern(parts_of(h, shape, hs)) + ";", clash(h, hs))


def apart(h):
    """The same handle in two patterns, two statements or two clauses is fine, and stores everything."""
    a = h.text("handle", h.choice("length", [1, 2]), r"\w")
    join = h.choice("join", [", ", ";MAKE ", ";\nFIND "])
    p = [N("P", a)]
    q = h.choice("second", [[N("Q", a)], [N("Q"), R(">", "R", a), N("S")], [N("Q"), R("<", "", ""), N("S", a)]])
    db = some(h)
    before = db.records()
    o = db.run("MAKE " + common.pattern(p) + join + common.pattern(q) + ";")
    h.check(o.ok, f"a handle used in two patterns was refused: {o.error}")
    common.expect_stored(h, before, db.records(), [p] if "FIND" in join else [p, q])
    h.reach(join)


def later(h):
    """A repeated handle in a later pattern or statement undoes the query."""
    a = h.text("handle", 1, r"\w")
    bad = h.choice("bad", ["n>n", "nn", "n<n>n"])
    hs = [""] * len(bad)
    i, j = h.choice("at", [(0, 1), (0, len(bad) - 1)] + ([(1, 3), (1, 4), (2, 4)] if len(bad) == 5 else []))
    hs[i] = hs[j] = a
    good = h.choice("good", ["(:X)", "(x:X)-[y:Y]->(z:Z)"])
    join = h.choice("join", [", ", ";MAKE ", ";FIND "])
    verdict(h, "MAKE " + good + join + common.pattern(parts_of(h, bad, hs)) + ";", True)


def long(h):
    """Long handles that differ in one character or not at all."""
    n = h.choice("length", [17, 40, 129])
    at = h.choice("at", [0, n // 2, n - 1])
    base = "handle_of_a_part_" * (n // 17 + 1)
    one, two = (base[:at] + h.text(f"character {i}", 1, r"\w") + base[at:n - 1] for i in "ab")
    shape = h.choice("shape", ["nn", "n>n", "n<n>n"])
    i, j = h.choice("parts", [(0, 1), (0, len(shape) - 1)] + ([(1, 3)] if len(shape) > 3 else []))
    hs = [""] * len(shape)
    hs[i], hs[j] = one, two
    verdict(h, h.choice("clause", ["MAKE ", "FIND "]) + common.pattern(parts_of(h, shape, hs)) + ";", clash(h, hs))


CASES = [
    dict(name="long", fn=long, bounds="two handles of 17 to 129 characters that differ in any one character at 3 places, 3 patterns"),
    dict(name="pairs", fn=pairs, weight=2, bounds="9 patterns, any two of their parts with handles of any 1 or 2 characters, 4 clauses"),
    dict(name="every", fn=every, weight=2, bounds="6 (thorough 9) patterns, every part with any handle of 1 character"),
    dict(name="apart", fn=apart, bounds="the same handle of 1 or 2 characters in two patterns, statements or clauses"),
    dict(name="later", fn=later, bounds="3 patterns with the same handle on two parts behind 2 sound patterns or statements"),
]

"""A statement with a bracket missing or too many is refused."""
from props.c06 import some
from props.c11 import LONG, QUERIES

BRACKETS = "(){}[]"


def missing(h):
    q = h.choice("query", QUERIES)
    i = h.choice("at", [k for k, c in enumerate(q) if c in BRACKETS])
    a, b = h.choice("around", [("", ""), ("MAKE (:Z);", ""), ("", "MAKE (:Z);"), ("MAKE (:Z);\n", "\nFIND (:A);" if q[0] == "M" else "")])
    o = some(h).run(a + q[:i] + q[i + 1:] + b)
    h.check(not o.ok, "a statement with a missing bracket was accepted")
    h.reach("missing")


def extra(h):
    q = h.choice("query", QUERIES)
    i = h.choice("at", list(range(q.index("("), len(q) - 1)))
    c = h.text("bracket", 1, r"[(){}\[\]]")
    o = some(h).run(q[:i] + c + q[i:])
    h.check(not o.ok, "a statement with a bracket too many was accepted")
    h.reach("extra")


def replaced(h):
    """One bracket replaced by another kind of bracket or by any character that is not a bracket."""
    q = h.choice("query", QUERIES)
    i = h.choice("at", [k for k, c in enumerate(q) if c in BRACKETS])
    c = h.text("instead", 1, r".")
    h.differ(c, q[i])
    o = some(h).run(q[:i] + c + q[i + 1:])
    h.check(not o.ok, "a statement with a replaced bracket was accepted")
    h.reach("replaced")


def two_missing(h):
    """Two brackets missing."""
    q = h.choice("query", QUERIES)
    ks = [k for k, c in enumerate(q) if c in BRACKETS]
    i = h.choice("at", list(range(len(ks) - 1)))
    j = h.choice("second", list(range(i + 1, len(ks))))
    if h.deep or True:
        bad = q[:ks[i]] + q[ks[i] + 1:ks[j]] + q[ks[j] + 1:]
    o = some(h).run(bad)
    h.check(not o.ok, "a statement with missing brackets was accepted")
    h.reach("two missing")


MORE = ["MAKE (:A), (:B), (:C);", "MAKE (:A)<-[:R]-(:B)-[:S]->(:C);", "MAKE (:A{n: 1})-[:R]->(:B{n: 1})-[:S]->(:C);", "MAKE (:A)-[:R]->(:B)<-[:S]-(:C);",
        "FIND (:A)<-[:R]-(:B)-[:S]->(:C);", "FIND (a:A)-[r:R{n: 1}]->(b:B{n: 1});", "MAKE (:A{n: [1, 5], m: 'x'}), (:B{n: [1, 2], m: [3, 4]});", "MAKE (:A)(:B);MAKE (:C);"]


def same_text(a, b):
    """Alike but for whitespace."""
    return "".join(a.split()) == "".join(b.split())


def exchanged(h):
    """Two brackets replaced by any other characters, brackets or not."""
    q = h.choice("query", MORE + (QUERIES if h.deep else QUERIES[1:2]))
    ks = [k for k, c in enumerate(q) if c in BRACKETS]
    i = h.choice("at", list(range(len(ks) - 1)))
    j = h.choice("second", list(range(i + 1, len(ks))))
    x, y = h.text("instead", 1, "[^;'\"]"), h.text("second instead", 1, "[^;'\"]")
    h.differ(x, q[ks[i]])
    h.differ(y, q[ks[j]])
    o = some(h).run(q[:ks[i]] + x + q[ks[i] + 1:ks[j]] + y + q[ks[j] + 1:])
    h.check(not o.ok, "a statement with two replaced brackets was accepted")
    h.reach("exchanged")


def moved(h):
    """A round or square bracket stands somewhere else (a moved curly one can make another sound statement)."""
    q = h.choice("query", MORE + QUERIES)
    ks = [k for k, c in enumerate(q) if c in "()[]"]
    i = h.choice("at", ks)
    rest = q[:i] + q[i + 1:]
    j = h.choice("to", [k for k in range(q.index("("), len(rest)) if "(" in rest[rest.rfind(";", 0, k) + 1:k]])
    bad = rest[:j] + q[i] + rest[j:]
    h.assume(not same_text(bad, q))
    o = some(h).run(bad)
    h.check(not o.ok, "a statement with a moved bracket was accepted")
    h.reach("moved")


def gone_more(h):
    """One or two brackets missing, or two swapped, in queries of several patterns and statements."""
    q = h.choice("query", MORE + LONG)
    ks = [k for k, c in enumerate(q) if c in BRACKETS]
    i = h.choice("at", list(range(len(ks))))
    j = h.choice("second", [i] + list(range(i + 1, len(ks))))
    a, b = ks[i], ks[j]
    if j > i and h.flag("swapped"):
        h.assume(q[a] != q[b])
        bad = q[:a] + q[b] + q[a + 1:b] + q[a] + q[b + 1:]
    elif j > i:
        bad = q[:a] + q[a + 1:b] + q[b + 1:]
    else:
        bad = q[:a] + q[a + 1:]
    o = some(h).run(bad)
    h.check(not o.ok, "a statement with missing or swapped brackets was accepted")
    h.reach("gone")


CASES = [
    dict(name="missing", fn=missing, bounds="5 statements, any one bracket removed, 4 surroundings"),
    dict(name="extra", fn=extra, bounds="5 statements, any bracket inserted at any position"),
    dict(name="replaced", fn=replaced, bounds="5 statements, any bracket replaced by any other character"),
    dict(name="two_missing", fn=two_missing, bounds="5 statements, any two brackets removed"),
    dict(name="exchanged", fn=exchanged, weight=2, bounds="9 (thorough 13) queries, any two brackets replaced by any other characters"),
    dict(name="moved", fn=moved, bounds="13 queries, any round or square bracket moved to any other position"),
    dict(name="gone_more", fn=gone_more, bounds="12 queries of up to 3 statements and 4 patterns, any one or two brackets removed, or two swapped"),
]

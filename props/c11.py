"""The characters # % & * $ are refused anywhere in a statement."""
from props.c06 import some

QUERIES = ["MAKE (a:Ab{n: 12, s: 'x y'});", "MAKE (a:A)-[r:RE{n: 1}]->(b:B{l: [1, 'a']});", "MAKE (:A)<-[:R]-(:B)-[:S]->(:C), (:D);",
           "FIND (a:Ab{n: 12, s: \"x y\"});", "FIND (a:A)-[r:RE{n: 1}]->(b:B{l: [1, 'a']});"]


def anywhere(h):
    """One of the characters put in, or in place of another, at any position from the first parenthesis on."""
    q = h.choice("query", QUERIES)
    i = h.choice("at", list(range(q.index("(") + 1, len(q) - 1)))
    c = h.text("character", 1, "[#%&*$]")
    kind = h.choice("edit", ["insert", "replace"])
    bad = q[:i] + c + (q[i:] if kind == "insert" else q[i + 1:])
    a, b = h.choice("around", [("", ""), ("MAKE (:Z);", ""), ("", "MAKE (:Z);")])
    o = some(h).run(a + bad + b)
    h.check(not o.ok, "a statement with an illegal character was accepted")
    h.reach(kind)


LONG = ["MAKE (a:A), (b:B{s: 'x', t: \"y\"}), (:C)-[r:R{u: ' v '}]->(:D)<-[:S{l: ['a', 'b c', \"d\"]}]-(:E{w: 'f', n: 2});",
        "MAKE (:A{s: 'x'})<-[:R]-(:B{s: 'y'})-[:S{t: 'z'}]->(:C{t: ''}),(:D);MAKE (:E{s: 'x'}),(:F{s: 'y'})-[{s: 'z'}]->(:G{l: [1, 'h']});",
        "FIND (a:A{s: 'x'})-[r:R{t: \"y\"}]->(b:B{u: 'z z'})<-[s:S{l: ['a', \"b\"]}]-(c:C{s: 'x', n: 1.5});",
        "MAKE (:A{s: 'x'});MAKE (:B{s: 'y'});FIND (:A{s: 'z', t: 'x'})-[:R{s: 'y'}]->(:B);"]


def long(h):
    """At any position of queries of several long statements, in all kinds of parts, put in or in place of what stands there."""
    q = h.choice("query", LONG)
    inside, at = False, []
    for k, c in enumerate(q):
        if c == "(":
            inside = True
        if inside and k:
            at.append(k)
        if c == ";":
            inside = False
    i = h.choice("at", [k for k in at if q[k - 1] != ";"])
    c = h.text("character", 1, "[#%&*$]")
    kind = h.choice("edit", ["insert", "replace", "twice"])
    h.assume(not (kind == "replace" and q[i] == ";"))
    bad = q[:i] + c + (q[i + 1:] if kind == "replace" else (c if kind == "twice" else "") + q[i:])
    o = some(h).run(bad)
    h.check(not o.ok, "a statement with an illegal character was accepted")
    h.reach(kind)


def twice(h):
    """Several of them."""
    q = h.choice("query", QUERIES)
    start = q.index("(") + 1
    i = h.choice("at", list(range(start, len(q) - 1, 1 if h.deep else 3)))
    j = h.choice("second at", list(range(i, len(q) - 1, 1 if h.deep else 4)))
    bad = q[:i] + h.text("one", 1, "[#%&*$]") + q[i:j] + h.text("two", 1, "[#%&*$]") + q[j:]
    o = some(h).run(bad)
    h.check(not o.ok, "a statement with illegal characters was accepted")
    h.reach("twice")


def values(h):
    """Inside texts, labels, names, handles and lists of any other characters."""
    place = h.choice("place", ["MAKE (:A{s: '%s'});", "MAKE (:%s);", "MAKE (%s:A);", "MAKE (:A)-[:%s]->(:B);", "MAKE (:A{l: [1, '%s']});",
                               "FIND (:A{s: '%s'});", "MAKE (:A{%s: 1});", "FIND (:A)-[%s:R]->(:B);", "MAKE (:X);FIND (:%s);"])
    n = h.choice("before", [0, 1])
    t = h.text("text", n, r"[\w .]") + h.text("character", 1, "[#%&*$]") + h.text("after", h.choice("behind", [0, 1]), r"[\w .]")
    a, b = place.split("%s")
    o = some(h).run(a + t + b)
    h.check(not o.ok, "a statement with an illegal character was accepted")
    h.reach("values")


CASES = [
    dict(name="anywhere", fn=anywhere, bounds="5 statements, every position, all 5 characters, alone or beside another statement"),
    dict(name="long", fn=long, weight=2, bounds="4 queries of up to 3 statements of up to 4 patterns, every position, all 5 characters"),
    dict(name="twice", fn=twice, bounds="5 statements, two positions (every third and fourth; thorough: all)"),
    dict(name="values", fn=values, bounds="9 places, texts of <= 3 characters"),
]

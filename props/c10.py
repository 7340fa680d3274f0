"""Relationships must have exactly one direction and an upper case name: anything else is refused, wherever it stands."""
from props import common
from props.c06 import some
from sx.alphabet import ALPHABET

OPEN = ["(:A)%s(:B)", "(a:A{n: 1})%s(b:B)", "(:A)-[:X]->(:B)%s(:C)", "(:A)%s(:B)<-[:X]-(:C)", "(:D), (:A)%s(:B)", "(:A)%s(:B), (:D)",
        "(:A)-[:X]->(:B), (:A)<-[:Y]-(:B)-[:Z]->(:C), (:A)%s(:B)", "(:A)%s(:B);MAKE (:C)", "(:C);MAKE (:A)%s(:B)"]
FINDS = ["(:A)%s(:B)", "(a:A{n: 1})%s(b:B)", "(:A)-[:X]->(:B)%s(:C)", "(:A)%s(:B)<-[:X]-(:C)"]


def where(h):
    clause = h.choice("clause", ["MAKE ", "FIND ", "make", "MAKE (:Q);FIND "])
    return clause + h.choice("where", OPEN if not clause.endswith("FIND ") else FINDS) + ";"


def refuse(h, q, rel):
    db = some(h)
    o = db.run(q.replace("%s", rel) if isinstance(rel, str) and rel.isascii() else put(q, rel))
    h.check(not o.ok, "a relationship that breaks the rules was accepted")


def put(q, rel):
    a, b = q.split("%s")
    return a + rel + b


def direction(h):
    """No direction, or both."""
    inner = h.choice("inner", ["", ":", ":R", "r:R", "r:R{x: 1}", "r:R {x: 'a'}", "r", ":{x: 1}", " r : R "])
    ways = h.choice("ways", [("", ""), ("<", ">")])
    d1, d2 = h.choice("dashes", [("-", "-"), ("--", "-"), ("-", "---")])
    sp = h.choice("around", ["", " "])
    refuse(h, where(h), sp + ways[0] + d1 + "[" + inner + "]" + d2 + ways[1] + sp)
    h.reach(ways[0] + ways[1])


def name(h):
    """A name with a lower case letter anywhere in it."""
    n = h.choice("length", [1, 2, 3])
    k = h.choice("lower at", list(range(n)))
    s = h.text("before", k, r"[A-Za-z0-9_]") + h.text("lower", 1, "[a-z]") + h.text("after", n - k - 1, r"[A-Za-z0-9_]")
    a, b = h.choice("arrow", [("-[", "]->"), ("<-[", "]-")])
    handle = h.choice("handle", [":", "r:"])
    props = h.choice("props", ["", "{x: 1}"])
    refuse(h, where(h), a + handle + s + props + b)
    h.reach("name")


def letterless(h):
    """A name without any letter is not upper case either."""
    s = h.text("name", h.choice("length", [1, 2]), "[0-9_]")
    refuse(h, where(h), h.choice("arrow", ["-[:", "-[r:"]) + s + "]->")
    h.reach("letterless")


def accepted(h):
    """What keeps the rules is accepted in all of these places."""
    n = h.choice("length", [0, 1, 2])
    s = h.text("first", 1 if n else 0, "[A-Z]") + h.text("rest", max(0, n - 1), "[A-Z0-9_]")
    a, b = h.choice("arrow", [("-[", "]->"), ("<-[", "]-"), ("--[", "]---->")])
    handle = h.choice("handle", [":", "q:"])
    db = some(h)
    o = db.run(put(where(h), a + handle + s + b))
    h.check(o.ok, f"a relationship that keeps the rules was refused: {o.error}")
    h.reach("accepted")


def shapes(h):
    """Broken arrows of any kind: one character of an arrow missing, doubled or replaced."""
    base = h.choice("arrow", ["-[:R]->", "<-[:R]-"])
    k = h.choice("at", [i for i, c in enumerate(base) if c in "-<>"])
    c = h.text("instead", h.choice("length", [0, 1]), r"[^\s-]")
    h.differ(c, ";")       # ends the statement: what stands behind it is no part of any clause
    bad = base[:k] + c + base[k + 1:]
    db = some(h)
    h.differ(bad, base)
    o = db.run(put(h.choice("where", ["MAKE (:A)%s(:B);", "FIND (:A)%s(:B);", "MAKE (:D), (:A)%s(:B)-[:S]->(:C);"]), bad))
    h.check(not o.ok, "a broken arrow was accepted")
    h.reach("broken")


LOWER = "[" + "".join(c for c in ALPHABET if c.islower() and (c.isalnum() or c == "_")) + "]"
UPPER = "[" + "".join(c for c in ALPHABET if c.isalnum() and not c.islower() and not c.istitle()) + "]"


def letters(h):
    """Lower case letters of any script."""
    s = h.text("before", h.choice("letters before", [0, 1]), "[A-Z]") + h.text("lower", 1, LOWER) + h.text("after", h.choice("letters after", [0, 1]), "[A-Z0-9]")
    refuse(h, h.choice("where", ["MAKE (:A)%s(:B);", "FIND (:A)%s(:B);", "MAKE (:A)-[:X]->(:B)%s(:C);"]), h.choice("arrow", ["-[:", "-[r:"]) + s + "]->")
    h.reach("letters")


def capitals(h):
    """Upper case names of any script, with letters and digits that have no case."""
    s = h.text("name", h.choice("length", [1, 2]), UPPER) + "A"
    arrow, end = h.choice("arrow", ["-[:", "-[r:"]), h.choice("end", ["]->", "{x: 1}]->"])
    db = some(h)
    o = db.run(put(h.choice("where", ["MAKE (:A)%s(:B);", "FIND (:A)%s(:B);", "MAKE (:A)-[:X]->(:B)%s(:C);"]), arrow + s + end))
    h.check(o.ok, f"an upper case name is refused: {o.error}")
    h.reach("capitals")


def long(h):
    """Long names: a lower case letter at the ends or anywhere in them."""
    n = h.choice("length", [9, 20, 50, 200])
    k = h.choice("at", [0, 1, n // 2, n - 2, n - 1])
    c = h.text("letter", 1, "[A-Za-z0-9_]")
    s = "A" * k + c + "B" * (n - k - 1)
    a, b = h.choice("arrow", [("-[", "]->"), ("<-[", "]-")])
    db = some(h)
    o = db.run(put(h.choice("where", ["MAKE (:A)%s(:B);", "FIND (:A)%s(:B);", "MAKE (:A)-[:X]->(:B)%s(:C);"]), a + ":" + s + b))
    h.check(o.ok == (not h.same(c, c.lower()) or h.same(c, c.upper())), "a name is accepted in spite of a lower case letter, or refused without one")
    h.reach("long")


def beside(h):
    """A faulty relationship beside sound ones that are like it in everything else, or in nothing."""
    clause = h.choice("clause", ["MAKE", "FIND"])
    join = h.choice("join", ["%s(:B)%s", "%s(:B), (:A)%s", "%s(:B); MAKE (:A)%s"] if clause == "MAKE" else ["%s(:B)%s"])
    name, other = h.text("name", 1, "[A-C]"), h.text("other", h.choice("other length", [0, 1]), "[A-C]")
    props = h.choice("props", ["", "{x: 1}"])
    fault = h.choice("fault", ["none", "no way", "both ways", "lower case"])
    good = h.choice("sound", [("-[:", "]->"), ("<-[:", "]-")])
    bad = {"none": ("--[:", "]->"), "no way": ("-[:", "]-"), "both ways": ("<-[:", "]->"), "lower case": ("-[:", "]->")}[fault]
    one = bad[0] + name + ("a" if fault == "lower case" else "") + props + bad[1]
    two = good[0] + other + h.choice("other props", ["", "{x: 1}"]) + good[1]
    db = some(h)
    rels = (one, two) if h.flag("first") else (two, one)
    o = db.run(clause + " (:A)" + join.replace("%s", rels[0], 1).replace("%s", rels[1], 1) + "(:C);")
    h.check(o.ok == (fault == "none"), "a relationship that breaks the rules was accepted, or one that keeps them refused")
    h.reach(fault)


def crowd(h):
    """One faulty relationship among many."""
    n = h.choice("patterns", [8, 9, 17, 33, 65])
    at = h.choice("at", [0, 1, n // 2, n - 2, n - 1])
    c = h.text("letter", 1, "[A-Za-z]")
    arrow = h.choice("arrow", [("-[:%s]->", True), ("-[:%s]-", False), ("<-[:%s]->", False)])
    rels = [put(arrow[0], "R" + c) if i == at else "-[:R]->" for i in range(n)]
    if h.flag("statements"):
        q = " ".join("MAKE (:A)" + r + "(:B);" for r in rels)
    else:
        q = "MAKE " + ", ".join("(:A)" + r + "(:B)" for r in rels) + ";"
    db = some(h)
    o = db.run(q)
    h.check(o.ok == (arrow[1] and h.same(c, c.upper())), "a relationship that breaks the rules was accepted among many, or one that keeps them refused")
    h.reach("crowd")


def spaced(h):
    """Whitespace in any place of a relationship changes nothing about what is sound."""
    gaps = [""] * 8
    gaps[h.choice("gap", list(range(8)))] = h.text("whitespace", h.choice("length", [1, 2] if h.deep else [1]), r"[^\S\n]")
    if h.flag("further"):
        gaps[h.choice("further gap", list(range(8)) if h.deep else [1, 3, 6])] += " "
    arrow = h.choice("arrow", [("-", "->", True), ("<-", "-", True), ("-", "-", False), ("<--", "->", False)])
    handle = h.choice("handle", ["", "r"])
    form = h.choice("name", ["any", "mixed", "none"])
    c = h.text("letter", 1, "[A-Za-z]") if form != "none" else ""
    name = {"any": c, "mixed": "R" + c + "_9", "none": ""}[form]
    props = h.choice("props", ["", "{x: 1}"])
    g = gaps
    rel = g[0] + arrow[0] + "[" + g[1] + handle + g[2] + ":" + g[3] + name + g[4] + props + g[5] + "]" + arrow[1] + g[6]
    clause, b = h.choice("where", [("MAKE", "(:B)"), ("FIND", "(:B)"), ("MAKE", "(:B), (:C)"), ("MAKE", "(:B)-[:S]->(:C)")])
    db = some(h)
    o = db.run(clause + g[7] + "(:A)" + rel + b + ";")
    h.check(o.ok == (arrow[2] and (not c or not c.islower())), "a relationship that breaks the rules was accepted with whitespace in it, or one that keeps them refused")
    h.reach(f"sound {o.ok}")


CASES = [
    dict(name="spaced", fn=spaced, weight=2, bounds="1 (thorough 2) whitespace characters of any kind in each of 8 places, a further blank, 4 arrows, names with any letter, with or without handle and properties, 4 surroundings"),
    dict(name="direction", fn=direction, bounds="9 bracket contents, no or both directions, 3 dash lengths, 26 places in MAKE and FIND queries"),
    dict(name="name", fn=name, weight=2, bounds="names of 1 to 3 characters with a lower case letter at any position, 26 places"),
    dict(name="letterless", fn=letterless, bounds="names of 1 or 2 digits and underscores"),
    dict(name="accepted", fn=accepted, bounds="names of 0 to 2 characters, 3 arrows, 26 places"),
    dict(name="letters", fn=letters, bounds="lower case letters of all scripts in names of 1 to 3 characters"),
    dict(name="capitals", fn=capitals, bounds="names of 2 or 3 letters and digits of all scripts that are upper case or have no case"),
    dict(name="long", fn=long, bounds="names of 9 to 200 characters, any character at 5 places"),
    dict(name="beside", fn=beside, bounds="a sound and a faulty relationship in one pattern, two patterns or two statements, 4 faults, names and properties that may coincide"),
    dict(name="crowd", fn=crowd, bounds="8 to 65 patterns in one or as many statements, one relationship with any letter and 3 arrows at 5 places"),
    dict(name="shapes", fn=shapes, bounds="one character of an arrow removed or replaced by any other"),
]

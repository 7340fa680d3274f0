"""REPORT asks only for handles of its FIND: known ones are accepted, any other is an error."""
from props import big, common
from props.c06 import some

FINDS = [("FIND (%a:A);", 1), ("FIND (%a:A)-[%b:R]->(:B);", 2), ("FIND (:A)<-[%a:R]-(%b:B);", 2), ("FIND (%a:A)-[%b:R]->(%c:B);", 3),
         ("FIND (%a:A)-[:R]->(%b:B)<-[%c:S]-(:A);", 3), ("FIND (:A)-[%a:R]->(:B)-[%b:S]->(%c:C);", 3)]
FORMS = [("", ""), (" ", ""), ("", " "), ("wn(", ")"), ("wn( ", " )"), ("", ".name"), (" ", ".x "), ("count(", ".y)")]


def find(h, name="find", opts=FINDS, size=1):
    """(text, handles) of a FIND with distinct symbolic handles."""
    t, n = h.choice(name, opts)
    hs = []
    for i in range(n):
        x = h.text(f"handle{i}", size, r"\w")
        for y in hs:
            h.differ(x, y)
        hs.append(x)
        a, b = t.split("%" + "abc"[i])
        t = a + x + b
    return t, hs


def known(h, x, hs):
    return h.any_of([h.same(x, y) for y in hs])


def verdict(h, q, good):
    db = some(h)
    before = h.everything()
    o = db.run(q)
    h.check(h.same(o.ok, good), "a REPORT for an unknown handle is accepted, or one for a known handle is not")
    h.check(h.same(h.everything(), before), "a query without MAKE changed what is stored")
    h.reach("accepted" if o.ok else "refused")


def single(h):
    """One item in any form for any handle of 1 or 2 characters."""
    f, hs = find(h)
    x = h.text("item", h.choice("length", [1, 2]), r"\w")
    a, b = h.choice("form", FORMS)
    word = h.choice("word", ["REPORT ", "report "])
    verdict(h, f + h.choice("separator", ["", "\n"]) + word + a + x + b + ";", known(h, x, hs))


def several(h):
    """Two or three items: every one of them counts."""
    f, hs = find(h, opts=FINDS[:4])
    n = h.choice("items", [2, 3])
    xs = [h.text(f"item{i}", 1, r"[\w]") for i in range(n)]
    a, b = h.choice("form", FORMS[:1] + FORMS[3:4] + FORMS[5:6])
    at = h.choice("form on", list(range(n)))
    comma = h.choice("comma", [",", ", ", " , "])
    q = f + "REPORT "
    for i, x in enumerate(xs):
        q += (comma if i else "") + (a + x + b if i == at else x)
    verdict(h, q + ";", h.all_of([known(h, x, hs) for x in xs]))


def star(h):
    """* is every handle; with it the other items still count."""
    f, hs = find(h, opts=FINDS[:4] + [("FIND (:A);", 0)])
    form = h.choice("form", ["*", " * ", "*,%", "%,*", "%, * ", "*.x", "**", "wn(*)"])
    if "%" in form:
        x = h.text("item", 1, r"\w")
        a, b = form.split("%")
        verdict(h, f + "REPORT " + a + x + b + ";", known(h, x, hs))
    elif form.strip() == "*":
        verdict(h, f + "REPORT " + form + ";", True)
    else:
        q = f + "REPORT " + form + ";"
        o = some(h).run(q)
        h.check(not o.ok, "a REPORT that asks for something that is no handle is accepted")
        h.reach("odd star")


def alone(h):
    """A REPORT without a FIND is an error, and so is one with only a MAKE: nothing is stored."""
    mk = h.choice("make", ["", "MAKE (a:A);", "MAKE (a:A)-[b:R]->(c:B);", "MAKE (:A);MAKE (a:B);"])
    item = h.choice("item", ["*", "a", "b", "a.x", "wn(a)"])
    word = h.text("case", 1, "[rR]") + h.choice("rest", ["EPORT ", "eport "])
    sep = h.text("whitespace", h.choice("length", [0, 1]), r"\s")
    first = h.flag("first")
    db = some(h)
    before = h.everything()
    rep = word + item + ";"
    o = db.run(rep + sep + mk if first else mk + sep + rep)
    h.check(not o.ok, "a REPORT without a FIND is accepted")
    h.check(h.same(h.everything(), before), "a refused query changed what is stored")
    h.reach("refused")


def handles_of(h):
    """Handles of the MAKE of the query, labels, names and property names are not handles of the FIND."""
    x = h.choice("item", ["m", "A", "R", "p", "q", "f", "r", "nn"])
    wrap = h.choice("form", ["%", "wn(%)", "%.p", "f.p, %", "%, r"])
    order = h.choice("order", ["make find report", "find make report", "find report make", "report find make"])
    parts = {"make": "MAKE (m:A{q: 1})-[nn:R]->(:B);", "find": "FIND (f:A{p: 1})-[r:R]->(:B);", "report": "REPORT " + wrap.replace("%", x) + ";"}
    db = some(h)
    before = h.everything()
    o = db.run("\n".join(parts[k] for k in order.split()))
    h.check(o.ok == (x in ("f", "r")), "a REPORT for something that is no handle of the FIND is accepted, or one for a handle is not")
    if not o.ok:
        h.check(h.same(h.everything(), before), "a refused query changed what is stored")
    h.reach("accepted" if o.ok else "refused")


def joined(h):
    """A handle with something attached is that handle only where this is one property."""
    front, back = h.choice("item", [("f", "r"), ("f.x", "y"), ("f", ""), ("", "f"), ("r", "f.x")])
    t = h.text("between", h.choice("length", [1, 2]), r"[^\w(),;\s]" if not front or not back else r"[^\w(),;]")
    good = h.same(t, ".") if (front, back) == ("f", "r") else False
    around = h.choice("around", [("", ""), ("r, ", ""), ("", ", f")])
    verdict(h, "FIND (f:A)-[r:R]->(:B);REPORT " + around[0] + front + t + back + around[1] + ";", good)


def long(h):
    """Long handles and long property names."""
    w = big.long_word(h, "handle", r"\w")
    x = h.choice("item", ["same", "shorter", "longer", "other first"])
    item = {"same": w, "shorter": w[:-1], "longer": w + "_", "other first": h.text("other first", 1, r"\w") + w[1:]}[x]
    good = x == "same" or x == "other first" and h.same(item, w)
    form = h.choice("form", ["%", "wn(%)", "%.p", "%.long"])
    verdict(h, "FIND (" + w + ":A);REPORT " + form.replace("long", "p" * h.choice("property", [39, 63, 64, 130]) if form == "%.long" else "").replace("%", item) + ";", good)


def blanks(h):
    """Whitespace around and inside an item says nothing."""
    x = h.text("item", 1, r"\w")
    gaps = [""] * 4
    gaps[h.choice("gap", list(range(4)))] = h.text("whitespace", h.choice("length", [1, 2]), r"[^\S\n]")
    form = h.choice("form", ["%(%)%", "%%", "%(%.p)%", "f,%%"])
    a, b = ("wn(", ")") if "(" in form else ("", "")
    item = gaps[0] + a + gaps[1] + x + (".p" if ".p" in form else "") + gaps[2] + b + gaps[3]
    verdict(h, "FIND (f:A)-[r:R]->(:B);REPORT " + ("f," if form[0] == "f" else "") + item + ";", h.same(x, "f") or h.same(x, "r"))


CASES = [
    dict(name="blanks", fn=blanks, bounds="1 or 2 whitespace characters of any kind but newline in 4 places of an item of any 1 character, 4 forms"),
    dict(name="long", fn=long, bounds="handles of 16 to 300 characters, any character at 3 places, property names of 39 to 130"),
    dict(name="joined", fn=joined, bounds="1 or 2 characters of any kind but letters, digits, parentheses and separators before, in or behind 5 items, 3 surroundings"),
    dict(name="single", fn=single, weight=2, bounds="6 FINDs with up to 3 handles of any 1 character, items of 1 or 2 characters in 8 forms"),
    dict(name="several", fn=several, weight=2, bounds="4 FINDs, 2 or 3 items of any 1 character, one of them in 3 forms, 3 ways to write the comma"),
    dict(name="star", fn=star, bounds="* alone, with another item of any 1 character, and decorated"),
    dict(name="alone", fn=alone, bounds="4 queries without FIND, 5 items, before or after, 0 or 1 whitespace characters"),
    dict(name="handles_of", fn=handles_of, bounds="8 words in 5 forms, 4 orders of the clauses"),
]

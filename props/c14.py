"""Clauses of a query: however they are separated and ordered they mean the same; at most one FIND and one REPORT."""
from props import common
from props.c06 import some

STATEMENTS = {
    "node": ("MAKE (:N{x: 7});", [("N", {"x": 7}, [])]),
    "pair": ("MAKE (a:P)-[:R]->(b:Q);", [("P", None, ["R"]), ("Q", None, [])]),
    "list": ("MAKE (:L), (:M)<-[:S]-(:O);", [("L", None, []), ("M", None, []), ("O", None, ["S"])]),
    "props": ("make (:V{s: 'a b', l: [1, 'x']});", [("V", {"s": "a b", "l": [1, "x"]}, [])]),
}


def sep(h, name, n, cls=r"\s"):
    return h.text(name, n, cls)


def stored(h, db, old, names):
    got = sorted(((r["node_label"], h.dumps(common.ordered(r["properties"])), h.dumps([x["relationship_name"] for x in r["relations"] or []]))
                  for k, r in db.records().items() if k not in old))
    want = sorted((a, h.dumps(common.ordered(b)), h.dumps(c)) for n in names for a, b, c in STATEMENTS[n][1])
    h.check(got == want, "the statements of a query are not all stored as written")


def separated(h):
    """Statements separated, led and followed by any whitespace."""
    names = [h.choice("first", ["node", "pair"] if not h.deep else list(STATEMENTS)), h.choice("second", list(STATEMENTS))]
    if h.flag("three"):
        names.append("list")
    where = h.choice("where", ["between", "around", "all"])
    w = sep(h, "whitespace", h.choice("length", [0, 1, 2] if not h.deep else [0, 1, 2, 3]))
    q = "" if where == "between" else w
    for i, n in enumerate(names):
        if i and where != "around":
            q += w
        q += STATEMENTS[n][0]
    q += "" if where == "between" else w
    db = some(h)
    old = db.records()
    o = db.run(q)
    h.check(o.ok, f"statements separated by whitespace were refused: {o.error}")
    stored(h, db, old, names)
    h.reach(where)


def with_find(h):
    """A FIND and its REPORT between MAKE statements in any order, any whitespace between."""
    parts = ["MAKE (:N{x: 7});", "FIND (f:%s)-[r:%s]->(:B);", "REPORT f, r;"]
    label = h.choice("label", ["A", "N", "P", "X"])
    rel = h.choice("name", ["R", "X"])
    parts[1] = parts[1].replace("%s", label, 1).replace("%s", rel)
    names = ["node"]
    if h.flag("two makes"):
        parts.append(STATEMENTS["pair"][0])
        names.append("pair")
    if h.flag("no report"):
        parts.remove("REPORT f, r;")
    q = ""
    w = sep(h, "whitespace", h.choice("length", [0, 1, 2]))
    left = list(parts)
    for i in range(len(parts)):
        p = h.choice(f"part{i}", left)
        left.remove(p)
        # a REPORT stands at the start of the query, behind a ; or on a new line
        q += (w if i else "") + p
    db = some(h)
    old = db.records()
    o, out = db.run_out(q)
    h.check(o.ok, f"a query was refused in another order: {o.error}")
    stored(h, db, old, names)
    known = {"A", "B", "N"} | ({"P", "Q"} if "pair" in names else set())
    h.check(("No results" in out) == (label not in known or rel == "X"), "the FIND of a query means something else in another order")
    h.reach("any order")


def two(h):
    """A second FIND or REPORT is an error wherever it stands, and nothing is stored."""
    kind = h.choice("kind", ["FIND", "REPORT"])
    w = sep(h, "whitespace", h.choice("length", [0, 1] if not h.deep else [0, 1, 2]))
    if kind == "FIND":
        a = h.choice("first", ["FIND (:A);", "find (a:A)-[:R]->(:B);"])
        b = h.choice("second", ["FIND (:A);", "find (b:B);", "FIND (:Q{x: 1});"])
        parts = [a, b]
    else:
        parts = ["FIND (a:A);", h.choice("first", ["REPORT *;", "report a;"]), h.choice("second", ["REPORT *;", "report a.x;", "REPORT a, a;"])]
    mid = h.choice("make at", [-1] + list(range(len(parts) + 1)))
    if mid >= 0:
        parts.insert(mid, "MAKE (:N);")
    gap = h.choice("in front of the pattern", [(" ", " "), ("", " "), (" ", ""), ("", ""), ("\t", "  ")]) if kind == "FIND" else None
    if gap:
        k = 0
        for i, p in enumerate(parts):
            if "MAKE" not in p:
                parts[i] = p.replace(" ", gap[k], 1)
                k += 1
    db = some(h)
    before = h.everything()
    o = db.run(joined(w, parts))
    h.check(not o.ok, f"two {kind} clauses were accepted")
    h.check(h.same(h.everything(), before), "a refused query changed what is stored")
    h.reach(kind)


def behind_keyword(h):
    """Any whitespace, or none, between a keyword and its pattern; any whitespace between REPORT and its items."""
    which = h.choice("clause", ["MAKE", "make", "FIND", "find", "REPORT", "report"])
    report = which.upper() == "REPORT"
    w = h.text("whitespace", h.choice("length", [1, 2] if report else [0, 1, 2]), r"\s" if not report else r"[^\S\n]")
    db = some(h)
    old = db.records()
    label = h.choice("label", ["A", "X"])
    if which.upper() == "MAKE":
        o = db.run(which + w + STATEMENTS[h.choice("statement", ["node", "pair"])][0][4:].strip())
        h.check(o.ok, "whitespace between MAKE and its pattern was refused")
        h.check(len(db.records()) > len(old), "a MAKE stored nothing because of the whitespace behind it")
    else:
        fd = (which + w if not report else "FIND ") + "(f:" + label + ");"
        o, out = db.run_out(fd + (which + w + h.choice("items", ["f;", "*;", "f.x, f;"]) if report else ""))
        h.check(o.ok, "whitespace between a keyword and what it is about was refused")
        h.check(("No results" in out) == (label == "X"), "a FIND means something else because of whitespace behind a keyword")
        h.check(h.same(db.records(), old), "a FIND changed what is stored")
        if report:
            o = db.run(fd + which + w + "g;")
            h.check(not o.ok, "a REPORT of another handle is accepted because of the whitespace behind the keyword")
    h.reach(which.upper())


def joined(w, parts):
    q = parts[0]
    for p in parts[1:]:
        q += w + p
    return q


def inside(h):
    """Clause words inside labels, handles, names and string values are not clauses."""
    word = h.choice("word", ["MAKE", "FIND", "REPORT", "make", "find", "report", "DNIF", "MKAE"])
    s = h.choice("at", ["MAKE (:%s);", "MAKE (%s:A);", "MAKE (:A{x: '%s'});", "MAKE (:A{x: '%s me'});", "MAKE (:A{x: ['%s', 'b']});",
                        "MAKE (:A{%s: 1});", "MAKE (:A{x: '; %s y'});", "MAKE (:A)-[%s:R]->(:B);"])
    more = h.choice("more", ["", "\nMAKE (:B);", "FIND (:A);"])
    db = some(h)
    old = db.records()
    q = s.replace("%s", word) + more
    o = db.run(q)
    # quoted text with ";" in front of a clause word may be refused, but never taken for a clause
    new = {k: r for k, r in db.records().items() if k not in old}
    if o.ok:
        h.check(len(new) == q.count("(:") + q.count("(" + word) - (1 if "FIND (:A)" in more else 0), "another number of nodes is stored than was written")
        first = new[min(new, key=int)]
        h.check(first["node_label"] == (word if "(:%s" in s else "A"), "a label was not stored as written")
        p = None
        if "{" in s:
            k = word if "{%s" in s else "x"
            v = {"'%s'": word, "'%s me'": word + " me", "['%s', 'b']": [word, "b"], "1": 1, "'; %s y'": "; " + word + " y"}[s[s.index(": ", 7) + 2:-3]]
            p = {k: v}
        h.check(first["properties"] == p, "a property with a clause word in it was not stored as written")
    else:
        h.check("; %s" in s, f"a clause word inside a statement made it fail: {o.error}")
        h.check(len(new) == 0, "a refused query stored something")
    h.reach("stored" if o.ok else "refused")


CASES = [
    dict(name="separated", fn=separated, bounds="2 or 3 of 4 statements, between, around, or both: 0 to 2 (thorough 3) characters of any whitespace"),
    dict(name="with_find", fn=with_find, weight=2, bounds="every order of 1 or 2 MAKE, a FIND and a REPORT, 0 to 2 whitespace characters between, 8 FINDs"),
    dict(name="behind_keyword", fn=behind_keyword, bounds="MAKE and FIND with 0 to 2, REPORT with 1 or 2 characters of any whitespace (REPORT: no newline) behind them"),
    dict(name="two", fn=two, bounds="two FIND or two REPORT clauses, 5 spacings of them, a MAKE at any place or none, 0 or 1 (thorough 2) whitespace characters between"),
    dict(name="inside", fn=inside, bounds="8 clause words at 8 places of a MAKE, 3 continuations"),
]

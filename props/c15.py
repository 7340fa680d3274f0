"""FIND: "No results" exactly when a label or named relationship is in no index; FIND changes no file."""
from props import big, common
from props.common import N, R


def shape(h, name, l, r):
    """(text, labels used, names used) of a pattern from labels l[0..2] and relationship names r[0..1]."""
    k = h.choice(name, ["n", "nn", "n>n", "n<n", "n>n>n", "n<n>n", "n>n<n", "n<n<n"] + (["nnn", "n>nn", "nn<n"] if h.deep else []))
    parts, labels, names = [], [], []
    for c in k:
        if c == "n":
            parts.append(N(l[len(labels)]))
            labels.append(l[len(labels)])
        else:
            parts.append(R(c, r[len(names)]))
            names.append(r[len(names)])
    return common.statement("FIND", [parts], common.TIGHT) + ";", labels, names


def member(h, x, xs):
    return h.any_of([h.same(x, y) for y in xs])


def known(h, labels, names, ilabels, inames):
    return h.all_of([member(h, x, ilabels) for x in labels] + [member(h, x, inames) for x in names if len(x)])


def verdict(h, db, q, expect, before):
    o, out = db.run_out(q)
    h.check(o.ok, f"a valid FIND was refused: {o.error}")
    none = "No results" in out
    h.check(h.same(not none, expect), "a FIND says 'No results' for what is indexed, or not for what is not")
    h.check(h.same(h.everything(), before), "a FIND changed what is stored")
    h.reach(f"results {not none}")


def indexed(h):
    """Any labels and names in the query against any in the indexes."""
    n = h.choice("labels in index", [0, 1, 2, 3] if h.deep else [0, 2])
    m = h.choice("names in index", [0, 1, 2] if h.deep else [0, 1])
    w = h.choice("size", [1] if not h.deep else [1, 2])
    il = [h.text(f"indexed label{i}", w, r"\w") for i in range(n)]
    im = [h.text(f"indexed name{i}", w, r"[A-Z_]") for i in range(m)]
    l = [h.text(f"label{i}", w, r"[A-Za-z0-9_]") for i in range(3)]
    r = [h.text(f"name{i}", w, "[A-Z]") for i in range(2)]
    q, labels, names = shape(h, "pattern", l, r)
    db = common.Db(h, wn="5", labels=il, names=im)
    verdict(h, db, q, known(h, labels, names, il, im), h.everything())


def lengths(h):
    """Labels and names that begin alike or differ in case are different."""
    il = ["A", "Ab", "abc"]
    im = ["R", "RS"]
    a = h.text("label", h.choice("label length", [1, 2, 3]), "[Aabc]")
    b = h.text("name", h.choice("name length", [0, 1, 2, 3]), "[RS]")
    way = h.choice("way", [">", "<"])
    left = h.flag("left")
    parts = [N(a), R(way, b), N("Ab")] if left else [N("Ab"), R(way, b), N(a)]
    third = h.choice("third", [[], [R("<", "RS"), N("A")], [R(">", ""), N("abc")]])
    q = common.statement(h.choice("word", ["FIND", "find "]), [parts + third], common.TIGHT) + ";"
    db = common.Db(h, wn="5", labels=il, names=im)
    verdict(h, db, q, known(h, [a], [b], il, im), h.everything())


def decorated(h):
    """Handles, properties, whitespace and unnamed relationships do not matter."""
    db = common.Db(h, wn="5", labels=["A", "B"], names=["R"])
    lay = common.Layout(h, h.choice("whitespace", ["none", "all"]))
    a = h.text("a", 1, "[ABC]")
    b = h.text("b", 1, "[ABC]")
    name = h.choice("name", ["", "R", "S"])
    pt = h.choice("props", ["", "{x: 1}", "{s: 'C', l: ['S', 2]}"])
    ph = h.choice("props of", ["node", "rel", "both"]) if pt else "node"
    parts = [N(a, handle=h.choice("handle", ["", "S"] if not h.deep else ["", "S", "C"]), props=pt if ph != "rel" else ""),
             R(h.choice("way", [">", "<"]), name, handle=h.choice("rel handle", ["", "A"]) if h.deep else "A", props=pt if ph != "node" else ""),
             N(b, props=pt if ph == "both" else "")]
    q = common.statement("FIND", [parts], lay) + ";"
    if h.flag("report"):
        q += "REPORT *;"
    verdict(h, db, q, known(h, [a, b], [name], ["A", "B"], ["R"]), h.everything())


def after_make(h):
    """What the MAKE of the same or an earlier query stored is found; what a refused one held is not."""
    db = common.Db(h)
    l = h.text("label", h.choice("size", [1, 2]), r"[A-Za-z0-9_]")
    r = h.text("name", 1, "[A-Z]")
    way = h.choice("way", [">", "<"])
    at = h.choice("label at", ["source", "target", "alone", "right", "second pattern"])
    other = N("Zz")
    parts = {"source": [[N(l), R(">", r), other]], "target": [[N(l), R("<", r), other]], "alone": [[other, R(">", r), other], [N(l)]],
             "right": [[other, other, R(way, r), N(l)]], "second pattern": [[other], [N(l), R(way, r), other]]}[at]
    mk = common.make(*parts)
    how = h.choice("how", ["before", "same query", "same query, FIND first", "refused"])
    x = h.text("looked for", h.choice("looked for size", [1, 2]), r"[A-Za-z0-9_]")
    y = h.text("name looked for", h.choice("name size", [0, 1]), "[A-Z]")
    fd = "FIND (:Zz)" + ("<-" if way == "<" else "-") + "[:" + y + "]" + ("-" if way == "<" else "->") + "(:" + x + ");"
    if how == "before":
        o = db.run(mk)
        h.check(o.ok, f"a valid MAKE was refused: {o.error}")
        out = db.run_out(fd)
    elif how == "refused":
        o = db.run(mk + "MAKE (:Q)-[:S]-(:T);")
        h.check(not o.ok, "a faulty query was accepted")
        out = db.run_out(fd)
    else:
        out = db.run_out(mk + fd if how == "same query" else fd + mk)
    h.check(out[0].ok, f"a valid FIND was refused: {out[0].error}")
    found = "No results" not in out[1]
    if how == "refused":
        h.check(not found, "a FIND finds what a refused query held")
    else:
        h.check(h.same(found, known(h, [x], [y], ["Zz", l], [r])), "a FIND does not see what was stored, or sees what was not")
    h.reach(how)


def several(h):
    """A FIND may list more than one node (README_FIND): each of them has to be indexed."""
    w = 1
    il = [h.text(f"indexed label{i}", w, r"\w") for i in range(2)]
    l = [h.text(f"label{i}", w, r"[A-Za-z0-9_]") for i in range(2)]
    sep = h.choice("separator", [",", ", "])
    db = common.Db(h, wn="5", labels=il, names=[])
    before = h.everything()
    o, out = db.run_out("FIND (:" + l[0] + ")" + sep + "(:" + l[1] + ");")
    h.check(o.ok, f"a valid FIND was refused: {o.error}")
    none = "No results" in out
    first, second = member(h, l[0], il), member(h, l[1], il)
    h.check(h.any_of([none, first]), "a FIND of two nodes finds something though the first is not indexed")
    h.check(h.any_of([h.not_(none), h.not_(first), h.not_(second)]), "a FIND of two indexed nodes says 'No results'")
    h.check(h.same(h.everything(), before), "a FIND changed what is stored")
    h.reach(f"results {not none}")
    h.check(h.any_of([none, second]), "a FIND of two nodes ignores that the second is not indexed", key="find-second-pattern-ignored")


def large(h):
    """Indexes that hold a lot."""
    db = big.full_db(h)
    before = h.everything()
    idx = db.indexes()
    n = len(idx["node_labels"])
    i = h.choice("label", [0, 1, n // 2, n - 1, n])
    j = h.choice("name", [0, n // 2 - 1 & ~1, n - 3 & ~1, n + 2 & ~1, "", 1])
    l, r = f"Old{i}" + h.text("more", h.choice("more length", [0, 1]), "[0-9a]"), f"NAME_{j}" if j != "" else ""
    q = h.choice("pattern", ["(:%s)-[:%s]->(:Old0)", "(:Old1)<-[:%s]-(:%s)", "(:Old0)-[:NAME_0]->(:Old1)-[:%s]->(:%s)"])
    q = "FIND " + q % ((l, r) if q.startswith("(:%s") else (r, l)) + ";"
    verdict(h, db, q, known(h, [l], [r], idx["node_labels"], idx["relationship_names"]), before)


def huge(h):
    """Indexes that hold thousands of labels and names."""
    db = big.full_db(h, [1030, 4200] + ([10001] if h.deep else []))
    before = h.everything()
    idx = db.indexes()
    n = len(idx["node_labels"])
    i, j = h.choice("label", [0, 255, n - 1, n]), h.choice("name", [0, 256, n - 2, n])
    q = "FIND (:Old0)-[:NAME_%d]->(:Old%d);" % (j, i)
    verdict(h, db, q, i < n and j < n, before)


def coincide(h):
    """The same label or name in several places of a FIND, and labels that are names."""
    x, y = [h.text(f"word{i}", 1, "[AB]") for i in range(2)]
    il, im = h.choice("index", [(["A"], ["B"]), (["B"], ["A"]), (["A", "B"], []), (["A", "B"], ["A"]), ([], ["A", "B"]), (["A"], ["A", "B"])])
    a, b, c = h.choice("labels", [(x, x, x), (x, y, x), (x, x, y), (y, x, x)])
    r, s = h.choice("names", [("", ""), (x, ""), ("", x), (x, x), (x, y)])
    w, v = h.choice("ways", [">>", "<<", "><", "<>"])
    handles = h.choice("handles", [("", "", ""), ("A", "B", "C")])
    parts = [N(a, handles[0]), R(w, r, "", ":"), N(b, handles[1]), R(v, s, "", ":"), N(c, handles[2])]
    if h.flag("two"):
        parts = parts[:3]
    db = common.Db(h, wn="5", labels=il, names=im)
    used = [n.label for n in parts if isinstance(n, N)], [p.name for p in parts if isinstance(p, R)]
    verdict(h, db, common.statement("FIND", [parts], common.TIGHT) + ";", known(h, *used, il, im), h.everything())


CASES = [
    dict(name="indexed", fn=indexed, weight=3, bounds="8 (thorough 11) patterns of up to 3 nodes; any labels and names of 1 (thorough 2) characters, 0 or 2 (thorough 0 to 3) indexed labels and 0 or 1 (thorough 2) names"),
    dict(name="lengths", fn=lengths, bounds="labels of 1 to 3 and names of 0 to 3 characters over a small alphabet, 2 directions, 3 continuations"),
    dict(name="decorated", fn=decorated, bounds="any 2 of 3 labels, 3 names, handles, properties and whitespace of 1 character"),
    dict(name="several", fn=several, bounds="FIND (:x), (:y) with any labels and two indexed labels of 1 character"),
    dict(name="after_make", fn=after_make, weight=2, bounds="a MAKE of up to 3 nodes with any label and name, before or in the query of the FIND, or refused"),
    dict(name="huge", fn=huge, bounds="indexes of 1030 or 4200 (thorough 10001) labels and half as many names, 16 FINDs"),
    dict(name="large", fn=large, bounds="indexes of up to 101 labels and 50 names, labels with <= 1 symbolic character more, 3 patterns"),
    dict(name="coincide", fn=coincide, bounds="labels and names out of 2 in 4 and 5 coincidences, 6 indexes, all directions"),
]

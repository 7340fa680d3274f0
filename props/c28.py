"""A query depends on its text and the files of its DBMS, and on nothing else: not on what ran before."""
from props import big, common
from props.c27 import strip
from props.edits import edited

POOL = [
    "MAKE (:A);", "MAKE (a:A{x: 1, l: [1, 'b']})-[:R{x: 2}]->(b:B);", "MAKE (:A)<-[r:S]-(:B)-[:R]->(:C), (:D);", "FIND (:A);", "FIND (a:A{x: 1})-[r:R]->(:B);",
    "MAKE (:E);FIND (f:E);REPORT f;", "FIND (f:Q)<-[:R]-(:A);REPORT *;",
    # refused
    "MAKE (:A)-[:R]-(:B);", "MAKE (a:A)(a:B);", "MAKE (:A{x: 'a});", "FIND (a:A);REPORT b;", "MAEK (:A);", "MAKE (:A{x: [1, (2)]});", "REPORT *;",
]


def state(h, db):
    f = h.load(db.idx_file)
    return {"db": strip(h.load(db.db_file)), "labels": sorted(f["node_labels"]), "names": sorted(f["relationship_names"]),
            "rels": {k: sorted(v) for k, v in f["node_relationships"].items()}, "wn": h.read(db.wn_file)}


def start(h, name, c):
    """The same files under any name."""
    k = h.decimal(c - 1)
    return common.Db(h, wn=h.decimal(c), records={k: {"node_metadata": {"wn": c - 1, "created_at": 1.5, "updated_at": None}, "node_label": "B",
                                                      "properties": {"x": 1}, "relations": None}}, labels=["B"], name=name)


def result(h, db, q):
    o, out = db.run_out(q)
    return [o.ok, o.error, str(o.exc) if o.exc is not None else "", out, state(h, db)]


def twice(h):
    """The same query on two DBMS with the same files, another query on a third in between."""
    c = h.int("counter", 1)
    q = h.choice("query", POOL)
    between = h.choice("between", POOL)
    a, b, other = start(h, "a", c), start(h, "b", c), start(h, "c", h.int("other counter", 1))
    first = result(h, a, q)
    left = state(h, a)
    other.run(between)
    h.check(h.same(state(h, a), left), "a query on one DBMS changed another")
    second = result(h, b, q)
    h.check(h.same(first, second), "the same query on the same files does something else the second time")
    h.reach("same")


def after(h):
    """Queries on a DBMS, then the same on a copy while others run in between: the same comes out."""
    c = h.int("counter", 1)
    qs = [h.choice(f"query{i}", POOL[:7] + POOL[7:9]) for i in range(2 if not h.deep else 3)]
    a, b, other = start(h, "a", c), start(h, "b", c), start(h, "c", c)
    one = [result(h, a, q) for q in qs]
    two = []
    for q in qs:
        other.run(h.choice("between", ["MAKE (:Z{x: 9})-[:R{x: 9}]->(:A);", "MAKE (:A{x: 'a});"]))
        two.append(result(h, b, q))
    h.check(h.same(one, two), "the same queries on the same files do something else the second time")
    h.reach("same")


def files_count(h):
    """A query sees what the files hold now, not what they held when they were last looked at."""
    c, d = h.int("counter", 1), h.int("later counter", 1)
    q = h.choice("query", POOL[:7])
    a = start(h, "a", c)
    a.run(h.choice("before", POOL[:8]))
    # the files are replaced, as by another program or a restored backup
    label = h.choice("label", ["A", "Q", "Z"])
    b = start(h, "a", d)
    common.Db(h, wn=h.decimal(d), labels=["B", label], names=["R"], name="a")
    got = result(h, b, q)
    ref = common.Db(h, wn=h.decimal(d), labels=["B", label], names=["R"], name="ref")
    h.check(h.same(got, result(h, ref, q)), "a query does not see what the files hold now")
    h.reach("replaced")


def order_of_files(h):
    """The order in which records and index entries stand in the files does not matter."""
    q = h.choice("query", POOL[:7])
    n = h.int("value")
    recs = {"0": {"node_metadata": {"wn": 0, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": {"x": n}, "relations": None},
            "1": {"node_metadata": {"wn": 1, "created_at": 1.5, "updated_at": None}, "node_label": "B", "properties": None, "relations": None},
            "2": {"node_metadata": {"wn": 2, "created_at": 1.5, "updated_at": None}, "node_label": "C", "properties": None, "relations": None}}
    order = h.choice("order", [["2", "1", "0"], ["1", "0", "2"], ["2", "0", "1"]])
    a = common.Db(h, wn="3", records=recs, labels=["A", "B", "C"], names=["R", "S"], name="a")
    b = common.Db(h, wn="3", records={k: recs[k] for k in order}, labels=["C", "A", "B"], names=["S", "R"], name="b")
    h.check(h.same(result(h, a, q), result(h, b, q)), "the order of the stored entries changes what a query does")
    h.reach("order")


TEMPLATES = [("MAKE (:A{s: '", "'});", "text"), ("MAKE (:", ");", "word"), ("MAKE (:A{n: ", "});", "digit"), ("MAKE (:A)-[:R", "]->(:B);", "name"),
             ("MAKE (:A{l: ['", "', 1]})-[:R]->(:B{x: 1});", "text"), ("MAKE (:A{", ": 1});", "word"), ("MAKE (:B);FIND (:", ");", "word"),
             ("FIND (:B{s: '", "'});", "text"), ("FIND (x", ":B);REPORT xa;", "word"), ("MAKE (:A)-[:R{s: '", "'}]->(:B{s: 'q'});", "text")]
CLASS = {"text": r"[\w ]", "word": r"\w", "digit": "[0-9]", "name": "[A-Z0-9]"}


def similar(h):
    """A query after one that differs from it in one stretch does what it does on its own."""
    a, b, kind = h.choice("query", TEMPLATES)
    c = h.int("counter", 1)
    one = a + h.text("first", h.choice("first length", [1, 2]), CLASS[kind]) + b
    two = a + h.text("second", h.choice("second length", [1, 2]), CLASS[kind]) + b
    x, y, z = start(h, "x", c), start(h, "y", c), start(h, "z", c)
    # the one after the other on the same DBMS, and on different ones
    x.run(one)
    alone = result(h, y, two)
    got = result(h, z, one)
    h.check(h.same(got[4]["db"], strip(h.load(x.db_file))), "the same query on the same files does something else the second time")
    if alone[0]:
        new = [r for k, r in y.records().items() if int(k) >= c]
        for s in new:
            if a == "MAKE (:A{s: '":
                h.check(h.same(s["properties"]["s"], two[len(a):len(two) - len(b)]), "a query stores what an earlier one said")
            if a == "MAKE (:A{n: ":
                h.check(h.same(s["properties"]["n"], int(two[len(a):len(two) - len(b)])), "a query stores what an earlier one said")
            if a == "MAKE (:A{l: ['" and s["node_label"] == "A":
                h.check(h.same(s["properties"]["l"][0], two[len(a):len(two) - len(b)]), "a query stores what an earlier one said")
        if a == "MAKE (:":
            h.check(h.same(new[0]["node_label"], two[len(a):len(two) - len(b)]), "a query stores what an earlier one said")
        if kind == "name":
            h.check(h.same(new[0]["relations"][0]["relationship_name"], "R" + two[len(a):len(two) - len(b)]), "a query stores what an earlier one said")
        if a == "MAKE (:A{":
            h.check(h.same(list(new[0]["properties"]), [two[len(a):len(two) - len(b)]]), "a query stores what an earlier one said")
    if a.startswith("FIND (x"):
        h.check(h.same(alone[0], h.same(two[len("FIND ("):len(two) - len(b)], "xa")), "a REPORT is checked against an earlier FIND")
    if a.startswith("MAKE (:B);FIND"):
        h.check(h.same("No results" in alone[3], h.not_(h.same(two[len(a):len(two) - len(b)], "B"))), "a FIND answers for an earlier one")
    h.reach("similar")


def alike(h):
    """Two DBMS whose files have the same names and sizes and hold other things."""
    la, lb = h.text("a label", 1, r"[A-Z]"), h.text("b label", 1, r"[A-Z]")
    h.differ(la, lb)
    na, nb = h.choice("names", [("R", "S"), ("R", "R")])
    c = h.int("counter", 1)
    dbs = []
    for folder, label, name, x in (("a", la, na, 1), ("b", lb, nb, 2)):
        k = h.decimal(c - 1)
        dbs.append(common.Db(h, wn=h.decimal(c), labels=[label], names=[name], name="g", folder=folder,
                             records={k: {"node_metadata": {"wn": c - 1, "created_at": 1.5, "updated_at": None}, "node_label": label,
                                          "properties": {"x": x}, "relations": None}}))
    if h.flag("with a MAKE"):
        for db in dbs:
            o = db.run("MAKE (:New);")
            h.check(o.ok, f"a sound MAKE was refused: {o.error}")
    for i in range(3):
        k = h.choice(f"dbms{i}", [0, 1])
        looked, name = h.choice(f"label{i}", [la, lb]), h.choice(f"name{i}", ["", "R", "S"])
        o, out = dbs[k].run_out("FIND (:" + looked + ")-[:" + name + "]->(:" + looked + ");")
        h.check(o.ok, f"a sound FIND was refused: {o.error}")
        known = h.all_of([h.same(looked, (la, lb)[k]), name in ("", (na, nb)[k])])
        h.check(h.same("No results" in out, h.not_(known)), "a FIND answers from another DBMS")
    for db, x in zip(dbs, (1, 2)):
        h.check(h.same(db.records()[h.decimal(c - 1)]["properties"]["x"], x), "a query stores in another DBMS")
    h.reach("alike")


def large(h):
    """A query of many statements or patterns, on two DBMS with the same files."""
    q, _ = big.many(h, [4, 5, 9, 17])
    q += h.choice("also", ["", "FIND (:S);REPORT *;"])
    c = h.int("counter", 1)
    a, b = start(h, "a", c), start(h, "b", c)
    one, two = result(h, a, q), result(h, b, q)
    h.check(h.same(one, two), "the same query on the same files does something else the second time")
    h.reach("same")


def hot(h):
    """A query that runs again after many others, on the same files as the first time."""
    q = h.choice("query", POOL)
    n = h.choice("others", [9, 33] + ([129] if h.deep else []))
    k = h.choice("from", [0, 5])
    a, b, other = start(h, "a", 7), start(h, "b", 7), start(h, "c", 7)
    one = result(h, a, q)
    for i in range(n):
        other.run(POOL[(k + i * 3) % len(POOL)].replace("A", "A" + str(i % 11)))
    h.check(h.same(one, result(h, b, q)), "the same query on the same files does something else after many others")
    h.reach("same")


SOUND = ["MAKE (a:Ab{n: 12, s: 'x y'})-[r:RE{m: 1}]->(b:B);", "MAKE (x:A)<-[y:R]-(z:B)-[:S]->(:C{l: [1, 'q']});", "MAKE (:A);MAKE (c:B);FIND (c:B)-[r:R]->(d:A);REPORT c, r;"]


def edited_before(h):
    """A query after one that is an edit away from it, accepted or refused, run elsewhere."""
    q = h.choice("query", SOUND)
    a, b, other = start(h, "a", 5), start(h, "b", 5), start(h, "c", 5)
    h.flag("first") and a.run(q)
    a = start(h, "a", 5)
    o = other.run(edited(h, q, kinds=("replace", "insert", "delete", "swap", "double") if h.deep else ("replace", "delete")))
    one, two = result(h, a, q), result(h, b, q)
    h.check(one[0], f"a sound query was refused after another one: {one[1]}")
    h.check(h.same(one, two), "the same query on the same files does something else the second time")
    h.reach("accepted" if o.ok else "refused")


def faults_before(h):
    """A query after a refused one that uses the same words."""
    bad = h.choice("refused", ["MAKE (a:A)-[a:R]->(b:B);", "MAKE (a:A)(b:B)-[b:R]->(c:C);", "MAKE (a:A)-[r:R]-(b:B);", "MAKE (a:A)-[r:r]->(b:B);", "MAKE (a:A{n: 'x});",
                               "FIND (a:A)-[r:R]->(a:B);", "FIND (a:A)-[r:R]->(b:B);REPORT c;", "MAKE (a:A{n: [(1)]});", "FIND (a:A);FIND (b:B);", "REPORT a;",
                               "MAKE (a:A#);", "MAKE (a:A;", "MEAK (a:A);", "MAKE (a:A{n: None});", "MAKE (a:A{n: 1 m: 2});"])
    q = h.choice("query", ["MAKE (a:A)-[r:R]->(b:B);", "MAKE (c:C{n: 1})<-[b:R]-(a:A);", "FIND (a:A)-[r:R]->(b:B);REPORT a, b, r;", "MAKE (a:A{n: 'x'});FIND (c:A);REPORT c;"])
    times = h.choice("times", [1, 2, 12])
    a, b, other = start(h, "a", 5), start(h, "b", 5), start(h, "c", 5)
    first = h.flag("first") and result(h, a, q)
    for i in range(times):
        other.run(bad)
    got = result(h, b, q)
    h.check(got[0], f"a sound query was refused after another one: {got[1]}")
    h.check(not first or h.same(first, got), "the same query on the same files does something else the second time")
    h.reach("same")


CASES = [
    dict(name="twice", fn=twice, weight=2, bounds="14 queries, each with each of the 14 run elsewhere in between, any counters"),
    dict(name="faults_before", fn=faults_before, bounds="4 queries, each after any of 15 refused ones, once, twice or 12 times"),
    dict(name="edited_before", fn=edited_before, bounds="3 queries, each after any text one edit away from it: any character replaced or deleted (thorough: also inserted, swaps, doublings)"),
    dict(name="large", fn=large, bounds="4 to 17 patterns in one or as many statements, any counter"),
    dict(name="hot", fn=hot, bounds="14 queries after 9 or 33 (thorough 129) others"),
    dict(name="after", fn=after, bounds="every sequence of 2 (thorough 3) of 9 queries, any counter, 2 queries in between"),
    dict(name="similar", fn=similar, weight=2, bounds="10 kinds of queries, two of each that differ in one stretch of 1 or 2 characters, any counter"),
    dict(name="alike", fn=alike, bounds="two DBMS with files of the same names and sizes, any labels of one letter and counter, every sequence of 3 FINDs on them"),
    dict(name="files_count", fn=files_count, bounds="7 queries, 8 before, files replaced with any counter and 3 labels in between"),
    dict(name="order_of_files", fn=order_of_files, bounds="7 queries, 3 orders"),
]

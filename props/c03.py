"""Wiggle ids: unique, never used twice, and counted by the wiggle-number file."""
from props import big, common, rich

# query text, nodes, relationships (None: the query is refused, 0: it stores nothing)
STEPS = [
    ("MAKE (:A);", 1, 0),
    ("MAKE (a:A{x: 1})-[:R]->(b:B);", 2, 1),
    ("MAKE (:A)<-[:R]-(:B)-[:S]->(:C);", 3, 2),
    ("MAKE (:A)-[:R]->(:B)(:C);", 3, 1),
    ("MAKE (:A), (:B)-[:R]->(:C);", 3, 1),
    ("MAKE (:A);MAKE (:B)<-[:R]-(:C);", 3, 1),
    ("FIND (:A);", 0, 0),
    ("MAKE (:A);FIND (:A);", 1, 0),
    ("MAKE (:A)-[:r]->(:B);", None, None),
    ("MAKE (:A), (:B{x: True});", None, None),
    ("MAKE (:A);MAKE (:B);FIND (:A{x: 'a});", None, None),
    ("nothing", None, None),
]


def ids(records):
    """[(id as stored under, id in the record)], relationships included."""
    out = []
    for k, r in records.items():
        out.append((k, r["node_metadata"]["wn"]))
        for x in r["relations"] or []:
            out.append((None, x["relationship_metadata"]["wn"]))
    return out


def step(h, db, q, n_nodes, n_rels, counter):
    before = db.records()
    o = db.run(q)
    after = db.records()
    new = {k: r for k, r in after.items() if k not in before}
    if n_nodes is None:
        h.check(not o.ok, "a faulty query was accepted")
        h.check(h.same(db.counter(), h.decimal(counter)), "a refused query moved the wiggle number")
        h.check(len(new) == 0, "a refused query stored something")
        return counter
    h.check(o.ok, f"a valid query was refused: {o.error}")
    got = ids(new)
    h.check(len(got) == n_nodes + n_rels, f"{n_nodes} nodes and {n_rels} relationships have {len(got)} ids")
    fresh = [i for _, i in got]
    for k, i in got:
        h.check(i >= counter, "an id is used that was given out before")
        h.check(i < counter + n_nodes + n_rels, "an id is used that the wiggle number will give out again")
        if k is not None:
            h.check(h.same(h.decimal(i), k), "a node is stored under an id that is not its own")
    for a in range(len(fresh)):
        for b in range(a):
            h.check(fresh[a] != fresh[b], "two nodes or relationships of one query share an id")
    counter = counter + n_nodes + n_rels
    h.check(h.same(db.counter(), h.decimal(counter)), "the wiggle number did not advance by the number of things stored")
    return counter


def start(h):
    c = h.int("counter", 2)
    old = {h.decimal(c - 2): {"node_metadata": {"wn": c - 2, "created_at": 1.5, "updated_at": None}, "node_label": "Old",
                              "properties": None, "relations": None}}
    return c, common.Db(h, wn=h.decimal(c), records=old, labels=["Old"])


def single(h):
    """Any one query at any counter."""
    c, db = start(h)
    q, n, r = h.choice("query", STEPS + MORE)
    c = step(h, db, q, n, r, c)
    h.observe("counter", db.counter())
    h.reach("refused" if n is None else "made")


MORE = [
    ("MAKE (:A)(:B)(:C);", 3, 0), ("MAKE (:A)(:B)<-[:R]-(:C);", 3, 1), ("MAKE (:A), (:A), (:A);", 3, 0),
    ("MAKE (:A)-[]->(:B)<-[]-(:C), (:A)-[]->(:B)-[]->(:C);", 6, 4),
    ("MAKE (:A)-[:]->(:A);\nMAKE (:A)<-[:]-(:A);\nMAKE (:B);", 5, 2),
    ("MAKE (:A{wn: 3})-[:R{wn: 3}]->(:B);", 2, 1),
    ("FIND (:A)-[:R]->(:B)-[:S]->(:C);\nREPORT *;", 0, 0),
    ("MAKE (:A)-[:R]->(:B)<-[:S]-(:C);FIND (:D);", 3, 2),
    ("REPORT *;", None, None), ("MAKE (:A)-[:R]-(:B);", None, None), ("MAKE (a:A)(a:B);", None, None),
    ("MAKE (:A);FIND (:A);FIND (:B);", None, None), ("MAKE (:A)-[:R]->;", None, None),
]


def history(h):
    """Three (thorough: four) queries one after the other."""
    c, db = start(h)
    for i in range(4 if h.deep else 3):
        q, n, r = h.choice(f"query{i}", STEPS)
        c = step(h, db, q, n, r, c)
    all_ids = [i for _, i in ids(db.records())]
    for a in range(len(all_ids)):
        for b in range(a):
            h.check(all_ids[a] != all_ids[b], "an id was used again by a later query")
    h.reach("history")


def long(h):
    """Four to six queries, mixing refused ones between those that store."""
    c, db = start(h)
    for i in range(6 if h.deep else 4):
        q, n, r = h.choice(f"query{i}", [STEPS[1], STEPS[9], STEPS[10]])
        c = step(h, db, q, n, r, c)
    all_ids = [i for _, i in ids(db.records())]
    for a in range(len(all_ids)):
        for b in range(a):
            h.check(all_ids[a] != all_ids[b], "an id was used again by a later query")
    h.reach("history")


def reopened(h):
    """Ids stay unique over two DBMS used in turn: each has its own counter."""
    c = h.int("counter", 1)
    d = h.int("other counter", 1)
    x = common.Db(h, wn=h.decimal(c), name="x")
    y = common.Db(h, wn=h.decimal(d), name="y")
    for i in range(3):
        q, n, r = h.choice(f"query{i}", [STEPS[0], STEPS[1], STEPS[8]])
        if h.choice(f"dbms{i}", ["x", "y"]) == "x":
            c = step(h, x, q, n, r, c)
        else:
            d = step(h, y, q, n, r, d)
    h.check(h.same(x.counter(), h.decimal(c)), "a query on one DBMS moved the counter of another")
    h.check(h.same(y.counter(), h.decimal(d)), "a query on one DBMS moved the counter of another")
    h.reach("turns")


def coincide(h):
    """Patterns of every shape whose labels, names, properties and handles coincide in every way."""
    g = rich.graph(h)
    c, db = start(h)
    c = step(h, db, g.text, *g.counts(), c)
    step(h, db, "MAKE (:A);", 1, 0, c)
    h.reach("made")


def large(h):
    """Queries of many parts."""
    q, pats = big.many(h, [8, 21, 51, 65] + ([101] if h.deep else []))
    c, db = start(h)
    c = step(h, db, q, *big.counts(pats), c)
    step(h, db, "MAKE (:A);", 1, 0, c)
    h.reach("made")


def session(h):
    """Many queries one after the other."""
    c, db = start(h)
    c = [c]

    def see(db, q, o):
        h.check(o.ok == (q[1] is not None), "a query was refused, or accepted, at some point of a session")
        c[0] = c[0] + (q[1] or 0) + (q[2] or 0)
        h.check(h.same(db.counter(), h.decimal(c[0])), "the wiggle number did not advance by the number of things stored")
    big.session(h, db, STEPS, see=see)
    all_ids = [i for _, i in ids(db.records())]
    for a in range(len(all_ids)):
        for b in range(a):
            h.check(all_ids[a] != all_ids[b], "an id was used again by a later query")
    h.reach("session")


def digits(h):
    """Counters at every change of the number of digits."""
    n = h.choice("digits", [1, 2, 3, 4, 5, 9, 12, 18, 20])
    c = 10 ** n - h.choice("below", [1, 2, 3, 5])
    old = {str(c - 1): {"node_metadata": {"wn": c - 1, "created_at": 1.5, "updated_at": None}, "node_label": "Old",
                        "properties": None, "relations": None}}
    db = common.Db(h, wn=str(c), records=old, labels=["Old"])
    for i in range(2):
        q, n, r = h.choice(f"query{i}", STEPS[:6])
        c = step(h, db, q, n, r, c)
    h.reach("digits")


CASES = [
    dict(name="single", fn=single, bounds="25 queries, any counter >= 2"),
    dict(name="history", fn=history, weight=2, bounds="every sequence of 3 (thorough 4) of 12 queries, any counter >= 2"),
    dict(name="long", fn=long, bounds="every sequence of 4 (thorough 6) of 3 queries"),
    dict(name="reopened", fn=reopened, bounds="every sequence of 3 of 3 queries on two DBMS with any counters"),
    dict(name="coincide", fn=coincide, weight=2, bounds=rich.BOUNDS),
    dict(name="large", fn=large, bounds="queries of up to 65 (thorough 101) patterns of 1 to 3 nodes"),
    dict(name="session", fn=session, bounds="33 (thorough 130) queries one after the other, any one of 12 at 4 places in it"),
    dict(name="digits", fn=digits, bounds="counters 1, 2, 3 and 5 below 10^1..10^20, 2 queries"),
]

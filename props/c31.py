"""A write that fails (full disk) at any point loses nothing stored before, and no id is given out twice after it."""
from props import common
from props.c03 import ids

QUERIES = ["MAKE (:A);", "MAKE (a:A{x: 1})-[:R]->(b:B);", "MAKE (:A)<-[:R]-(:B)-[:S]->(:C), (:D);", "MAKE (:A);MAKE (:B)-[:T]->(:C);FIND (:A);"]
MOST = 90       # write operations of the longest of them


def old(h, c):
    k = h.decimal(c - 3)
    return {k: {"node_metadata": {"wn": c - 3, "created_at": 1.5, "updated_at": None}, "node_label": "Old",
                "properties": {"s": h.text("old text", 1), "n": h.int("old value")},
                "relations": [{"relationship_metadata": {"wn": c - 1, "created_at": 1.5, "updated_at": None}, "relationship_name": "OLD",
                               "wn_from_node": c - 3, "wn_to_node": c - 2, "properties": None}]},
            h.decimal(c - 2): {"node_metadata": {"wn": c - 2, "created_at": 1.5, "updated_at": None}, "node_label": "Old2",
                               "properties": None, "relations": None}}


def check(h, db, before, what):
    got = db.records()
    for k, r in before.items():
        h.check(k in got, f"a stored node is gone after {what}")
        h.check(h.same(got[k], r), f"a stored node was changed by {what}")
    xs = ids(got)
    for a in range(len(xs)):
        h.check(xs[a][0] is None or h.same(h.decimal(xs[a][1]), xs[a][0]), "a node is stored under an id that is not its own")
        for b in range(a):
            h.check(xs[a][1] != xs[b][1], f"an id is used twice after {what}")
    return got


def fault(h):
    """One failing write in a query, then further queries."""
    c = h.int("counter", 3)
    recs = old(h, c)
    db = common.Db(h, wn=h.decimal(c), records=recs, labels=["Old", "Old2"], names=["OLD"], rels={h.decimal(c - 3): [c - 1]})
    q = h.choice("query", QUERIES)
    k = h.choice("failing write", list(range(1, MOST)))
    h.fail_writes(k)
    o = db.run(q)
    h.fail_writes(0)
    h.assume(not o.ok)      # k beyond the last write
    got = check(h, db, recs, "a write that failed")
    n = len([x for x in got if x not in recs])
    h.check(n in (0, q.count("(:") + q.count("(a:") + q.count("(b:") - (1 if "FIND" in q else 0)), "a query is stored in part")
    for i in range(1 if not h.deep else 2):
        before = db.records()
        db.run(h.choice(f"later{i}", ["MAKE (:L);", "MAKE (:L)-[:R]->(:M);", "FIND (:A);"]))
        check(h, db, before, "a query that followed a write that failed")
    h.reach("failed" if n else "nothing stored")


def twice(h):
    """Two queries, each with a failing write of its own."""
    c = h.int("counter", 3)
    recs = old(h, c)
    db = common.Db(h, wn=h.decimal(c), records=recs, labels=["Old", "Old2"], names=["OLD"], rels={h.decimal(c - 3): [c - 1]})
    for i in range(2):
        before = db.records()
        h.fail_writes(h.choice(f"failing write{i}", [1, 2, 3, 4, 5, 8, 12, 20, 30, 40] if not h.deep else list(range(1, 60))))
        db.run(QUERIES[1] if i == 0 else QUERIES[0])
        h.fail_writes(0)
        check(h, db, before, "a write that failed")
    h.reach("twice")


def entries(h, db):
    f = db.indexes()
    h.check(sorted(f) == ["node_labels", "node_relationships", "relationship_names"], "the index file cannot be read")
    return f


def kept(h, old, new, what):
    for k in ("node_labels", "relationship_names"):
        for x in old[k]:
            h.check(h.any_of([h.same(x, y) for y in new[k]]), f"an index entry is gone after {what}")
    for k, v in old["node_relationships"].items():
        h.check(k in new["node_relationships"], f"an index entry is gone after {what}")
        for x in v:
            h.check(h.any_of([h.same(x, y) for y in new["node_relationships"][k]]), f"an index entry is gone after {what}")


def full(h):
    """The disk is full from any of the files on that a query writes, then there is room again."""
    c = h.int("counter", 3)
    recs = old(h, c)
    db = common.Db(h, wn=h.decimal(c), records=recs, labels=["Old", "Old2", h.text("label", 1)], names=["OLD", "OLDER"], rels={h.decimal(c - 3): [c - 1]})
    for i in range(h.choice("how often", [1, 2])):
        recs, idx = db.records(), entries(h, db)
        h.disk_full(h.choice(f"from{i}", [1, 2, 3, 4, 5, 6]))
        db.run(h.choice(f"query{i}", QUERIES[:2] if i else QUERIES))
        h.disk_full(0)
        check(h, db, recs, "a full disk")
        kept(h, idx, entries(h, db), "a full disk")
    recs, idx = db.records(), entries(h, db)
    db.run(h.choice("later", ["MAKE (:L);", "MAKE (:L)-[:R]->(:M);", "FIND (:A);"]))
    check(h, db, recs, "a query that followed a full disk")
    kept(h, idx, entries(h, db), "a query that followed a full disk")
    h.reach("full")


CASES = [
    dict(name="fault", fn=fault, weight=2, bounds="4 queries, any one of their write operations fails before it writes, any counter and old contents, 3 later queries"),
    dict(name="full", fn=full, bounds="disk full from any of the files on that a query writes, once or twice, 4 queries, any counter and old contents, 3 later queries"),
    dict(name="twice", fn=twice, bounds="2 queries with 10 (thorough 59) failing writes each"),
]

"""What is stored stays: no query changes or loses existing nodes, relationships or index entries."""
from props import big, common
from props.c03 import MORE, STEPS

QUERIES = [q for q, _, _ in STEPS + MORE]


def content(h):
    """An existing graph with every kind of value, and texts of any characters."""
    t = h.text("text", h.choice("text length", [1, 2]))
    label = h.text("old label", 1, r"\w")
    n = h.int("old value")
    kind = h.choice("content", ["values", "relationship", "empty"])
    if kind == "empty":
        return {}, {}, [], []
    if kind == "values":
        return {"0": {"node_metadata": {"wn": 0, "created_at": 1696168800.25, "updated_at": None}, "node_label": label,
                      "properties": {"a": t, "b": n, "c": 1.5, "d": [t, None, True, 3, "x"], t: False},
                      "relations": None}}, {}, [label], []
    return {"0": {"node_metadata": {"wn": 0, "created_at": 3.5, "updated_at": 4.5}, "node_label": label, "properties": None,
                  "relations": [{"relationship_metadata": {"wn": 2, "created_at": 2.0, "updated_at": None},
                                 "relationship_name": label, "wn_from_node": 0, "wn_to_node": 1, "properties": {"p": t}}]},
            "1": {"node_metadata": {"wn": 1, "created_at": 3.5, "updated_at": None}, "node_label": "B", "properties": {},
                  "relations": None}}, {"0": [2]}, [label, "B"], [label]


def kept(h, db, before, idx):
    after = db.records()
    for k, r in before.items():
        h.check(k in after, "a stored node is gone")
        h.check(h.same(after[k], r), "a stored node was changed")
    now = db.indexes()
    for part in ("node_labels", "relationship_names"):
        for x in idx[part]:
            h.check(x in now[part], "an index entry is gone")
    for k, v in idx["node_relationships"].items():
        h.check(k in now["node_relationships"], "an index entry is gone")
        for x in v:
            h.check(x in now["node_relationships"][k], "an index entry is gone")


def single(h):
    """One query of any kind on an existing graph."""
    records, rels, labels, names = content(h)
    c = h.int("counter", 3)
    db = common.Db(h, wn=h.decimal(c), records=records, rels=rels, labels=labels, names=names)
    h.check(h.same(db.records(), records), "")
    idx = db.indexes()
    o = db.run(h.choice("query", QUERIES))
    kept(h, db, records, idx)
    h.observe("after", [o.ok, db.records()[k] if (k := next(iter(records), None)) else None])
    h.reach("accepted" if o.ok else "refused")


def history(h):
    """After every query of a sequence, all that was stored before it is still there."""
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    qs = [STEPS[i][0] for i in ((0, 1, 2, 4, 6, 8, 10) if not h.deep else range(12))]
    for i in range(3):
        before, idx = db.records(), db.indexes()
        db.run(h.choice(f"query{i}", qs))
        kept(h, db, before, idx)
    h.reach("history")


def clash(h):
    """A graph that already holds the id the counter stands at is not overwritten."""
    c = h.int("counter", 0)
    k = h.int("taken", 0)
    records = {h.decimal(k): {"node_metadata": {"wn": k, "created_at": 1.5, "updated_at": None}, "node_label": "Old",
                              "properties": {"x": 1}, "relations": None}}
    db = common.Db(h, wn=h.decimal(c), records=records, labels=["Old"])
    idx, before = db.indexes(), db.files()
    q = h.choice("query", ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);", "MAKE (:A)(:B)<-[:R]-(:C);", "MAKE (:Old), (:B)-[:R]->(:C);MAKE (:D);FIND (:Old);"])
    o = db.run(q)
    kept(h, db, records, idx)
    if not o.ok:
        h.check(h.same(db.files(), before), "a query that would overwrite an id was refused and has changed something")
    h.reach("accepted" if o.ok else "refused")


def spelling(h):
    """New nodes of any label, name and property do not disturb what is stored."""
    records, rels, labels, names = content(h)
    db = common.Db(h, wn="7", records=records, rels=rels, labels=labels, names=names)
    idx = db.indexes()
    label, name = h.text("label", 1, r"\w"), h.text("name", 1, r"[A-Z]")
    v = h.text("value", 1, r"[\w \"@.+]")
    o = db.run("MAKE (:" + label + ")-[:" + name + "]->(:B{v: '" + v + "'});")
    kept(h, db, records, idx)
    h.reach("accepted" if o.ok else "refused")


def large(h):
    """A DBMS that already holds a lot."""
    db = big.full_db(h, label=h.text("label", 1, "[A-Z]"))
    records, idx = db.records(), db.indexes()
    for i in range(2):
        o = db.run(h.choice(f"query{i}", [STEPS[k][0] for k in (0, 1, 2, 4, 6, 8)]))
        kept(h, db, records, idx)
    h.reach("accepted" if o.ok else "refused")


HUGE = [260, 1030]


def huge(h):
    """A DBMS that holds thousands of nodes."""
    db = big.full_db(h, HUGE if not h.deep else HUGE + [4200])
    records, idx = db.records(), db.indexes()
    o = db.run(h.choice("query", ["MAKE (:A)-[:R]->(:B);", "MAKE (:Old0), (:C);"]))
    h.check(o.ok, f"a sound query was refused: {o.error}")
    kept(h, db, records, idx)
    h.reach("accepted")


def numbers(h):
    """Stored things of any numbers, however far they are from each other and from the counter."""
    k = h.choice("stored at", [0, 7, 98, 9998, 10**6, 10**9 + 7, "any"])
    k = h.int("number", 0) if k == "any" else k
    gap = h.choice("apart", [1, 1000])
    key = h.decimal(k)
    to = h.decimal(k + gap)
    records = {key: {"node_metadata": {"wn": k, "created_at": 1.5, "updated_at": None}, "node_label": "Old", "properties": {"x": 1},
                     "relations": [{"relationship_metadata": {"wn": k + 2 * gap, "created_at": 1.5, "updated_at": None}, "relationship_name": "OLD",
                                    "wn_from_node": k, "wn_to_node": k + gap, "properties": None}]},
               to: {"node_metadata": {"wn": k + gap, "created_at": 1.5, "updated_at": None}, "node_label": "Old2", "properties": None, "relations": None}}
    db = common.Db(h, wn=h.decimal(k + 2 * gap + h.choice("further", [1, 100000])), records=records, rels={key: [k + 2 * gap]}, labels=["Old", "Old2"], names=["OLD"])
    idx = db.indexes()
    o = db.run(h.choice("query", ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);", "MAKE (:Old)<-[:OLD]-(:B);MAKE (:C)-[]->(:D);", "FIND (:Old);"]))
    h.check(o.ok, f"a sound query was refused: {o.error}")
    kept(h, db, records, idx)
    h.reach("accepted")


VALUES = [0.1234567890123, 1e-7, 1e22, 123456789012.123456, 10 ** 30, 2 ** 53 + 1, -5, 0, True, False, None, "", " x ", "1", "true", "null",
          [], [[]], [1, 1.0, "1", None, True, [2, "b"]], {}, {"a": {"b": []}}, "\u00e9\u20ac\U0001f600", "\ud800", "a\tb\r\n", "\\\"/"]


def odd(h):
    """Stored nodes and relationships with values no MAKE of today writes: long decimals, update times, nested lists."""
    v = h.choice("value", VALUES)
    at = h.choice("at", ["created", "updated", "relationship updated", "property", "name", "relationship", "second"])
    times = [1791782400.123456789, 1791782400.654321] if at not in ("created", "updated", "relationship updated") else [v, v]
    m = {"wn": 0, "created_at": times[0] if at == "created" else 1.5, "updated_at": times[1] if at == "updated" else None}
    rel = {"relationship_metadata": {"wn": 2, "created_at": times[0] if at == "created" else 1696168800.1234567, "updated_at": times[1] if at.endswith("updated") else None},
           "relationship_name": None if at == "second" else "R", "wn_from_node": 0, "wn_to_node": 1, "properties": {"p": v} if at == "relationship" else None}
    rels = [rel, dict(rel, relationship_metadata=dict(m, wn=3), properties={"q": v})] if at == "second" else [rel]
    records = {"0": {"node_metadata": m, "node_label": "A", "properties": {"a": v, "b": 2.50} if at == "property" else {"": v} if at == "name" else None, "relations": rels},
               "1": {"node_metadata": dict(m, wn=1), "node_label": "B", "properties": {}, "relations": []}}
    db = common.Db(h, wn="7", records=records, rels={"0": [2]}, labels=["A", "B", "Gone"], names=["R", "S"])
    idx, copies = db.indexes(), common.own(records)
    o = db.run(h.choice("query", ["MAKE (:A);", "MAKE (:C)-[:R]->(:B)<-[:T{a: 1}]-(:D);", "FIND (:A);", "MAKE (:A{a: 'b});"]))
    kept(h, db, records, idx)
    h.check(all(h.same(db.records().get(k), r) for k, r in copies.items()), "a stored node was changed")
    h.reach("accepted" if o.ok else "refused")


CASES = [
    dict(name="single", fn=single, bounds="25 queries on 3 graphs with texts of <= 2 characters and any integer, any counter"),
    dict(name="history", fn=history, bounds="every sequence of 3 of 7 (thorough 12) queries, any counter"),
    dict(name="clash", fn=clash, bounds="4 queries, any counter and any id taken"),
    dict(name="spelling", fn=spelling, bounds="1-character label, name and value on 3 graphs"),
    dict(name="numbers", fn=numbers, bounds="two nodes and a relationship of any or 6 fixed numbers, near or far from each other and the counter, 4 queries"),
    dict(name="odd", fn=odd, bounds="26 values at 7 places of stored records, 4 queries"),
    dict(name="huge", fn=huge, bounds="260 or 1030 (thorough 4200) stored nodes with half as many relationships, any counter beyond them, 2 queries"),
    dict(name="large", fn=large, bounds="9, 33 or 101 stored nodes with 4 to 50 relationships, any counter beyond them, 2 of 6 queries"),
]

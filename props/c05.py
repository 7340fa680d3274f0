"""The indexes mirror the graph."""
QUICK_S = 110

from props import big, common, rich
from props.c03 import MORE, STEPS
from props.common import N, R


def mirror(h, db):
    """Labels, names and the relationships of every node: what the indexes hold is what the graph holds."""
    records, idx = db.records(), db.indexes()
    h.check(h.same(sorted(idx), ["node_labels", "node_relationships", "relationship_names"]), "the index file has other parts")
    want_labels = [r["node_label"] for r in records.values()]
    rels = [(k, x) for k, r in records.items() for x in (r["relations"] or [])]
    want_names = [x["relationship_name"] for _, x in rels if x["relationship_name"]]
    for part, want, what in (("node_labels", want_labels, "label"), ("relationship_names", want_names, "relationship name")):
        have = idx[part]
        for x in want:
            h.check(x in have, f"a stored {what} is not in the index")
        for x in have:
            h.check(x in want, f"the index holds a {what} that nothing has")
        for a in range(len(have)):
            for b in range(a):
                h.check(h.not_(h.same(have[a], have[b])), f"a {what} is twice in the index")
    have = idx["node_relationships"]
    for k, r in records.items():
        ids = [x["relationship_metadata"]["wn"] for x in (r["relations"] or [])]
        if ids:
            h.check(k in have, "a node with relationships is not in the relationship index")
            h.check(len(have[k]) == len(ids), "the relationship index holds another number of relationships for a node")
            for i in ids:
                h.check(i in have[k], "a relationship is not in the index of its node")
        elif k in have:
            h.check(len(have[k]) == 0, "the relationship index holds relationships for a node that has none")
    for k in have:
        h.check(k in records, "the relationship index holds a node that does not exist")


def history(h):
    """The indexes mirror the graph after every query of a sequence."""
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    for i in range(3 if h.deep else 2):
        db.run(h.choice(f"query{i}", [q for q, _, _ in STEPS + MORE]))
        mirror(h, db)
    h.observe("index", [sorted(db.indexes()["node_labels"]), sorted(db.indexes()["relationship_names"])])
    h.reach("history")


def spelling(h):
    """Any labels and names, which may coincide with each other and with those already there."""
    l0, n0 = h.text("old label", 1, r"\w"), h.text("old name", 1, r"[A-Z]")
    old = {"0": {"node_metadata": {"wn": 0, "created_at": 1.5, "updated_at": None}, "node_label": l0, "properties": None,
                 "relations": [{"relationship_metadata": {"wn": 2, "created_at": 1.5, "updated_at": None},
                                "relationship_name": n0, "wn_from_node": 0, "wn_to_node": 1, "properties": None}]},
           "1": {"node_metadata": {"wn": 1, "created_at": 1.5, "updated_at": None}, "node_label": "B", "properties": None,
                 "relations": None}}
    db = common.Db(h, wn="3", records=old, rels={"0": [2]}, labels=list(dict.fromkeys([l0, "B"])), names=[n0])
    shape = h.choice("shape", ["n", "nrn", "nrnn", "nrnrn"])
    parts, i = [], 0
    for s in shape:
        if s == "n":
            parts.append(N(h.text(f"label{i}", 1, r"\w")))
            i += 1
        else:
            parts.append(R(h.choice(f"way{i}", "<>"), h.text(f"name{i}", h.choice(f"named{i}", [0, 1]), "[A-Z]")))
    o = db.run(common.make(parts))
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach(shape)


def patterns(h):
    """Several patterns and statements in one query, long labels and names."""
    sep = h.choice("separator", [", ", ";MAKE ", ";\nMAKE"])
    labels = [h.text(f"label{i}", 2, r"[A-Za-z]") for i in range(2)]
    names = [h.text(f"name{i}", 2, r"[A-Z]") for i in range(2)]
    way = h.choice("way", "<>")
    a = [N(labels[0]), R(way, names[0]), N("X_1")]
    b = [N("Node"), R(">", names[1]), N(labels[1]), R(way, ""), N("Node")]
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    o = db.run("MAKE " + common.pattern(a) + sep + common.pattern(b) + ";")
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach(sep)


def odd_names(h):
    """Names and labels that begin or end with any character, on any relationship of a chain."""
    x, y = h.text("front", h.choice("front length", [0, 1]), "[A-Z0-9_]"), h.text("end", h.choice("end length", [0, 1]), "[A-Z0-9_]")
    name, other = x + "N" + y, h.choice("other", ["", "M", "N"])
    label = h.text("label front", 1, r"\w") + "l" + h.text("label end", 1, r"\w")
    names = [name, other] if h.flag("first") else [other, name]
    parts = [N("Aa"), R(h.choice("way", "<>"), names[0]), N(label), R(h.choice("other way", "<>"), names[1]), N("Cc")]
    db = common.Db(h, wn="5")
    o = db.run("MAKE (:Q)," + common.pattern(parts) + ";" if h.flag("second pattern") else common.make(parts))
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach("mirrored")


def long(h):
    """Long labels and names."""
    label, name = big.long_word(h, "label", common.WORD), big.long_word(h, "name", "[A-Z]", [2, 17, 65, 300])
    parts = [N("Aa"), R(">", "R"), N("Bb"), R("<", "S"), N("Cc")]
    parts[h.choice("label at", [0, 2, 4])].label = label
    parts[h.choice("name at", [1, 3])].name = name
    db = common.Db(h, wn="5")
    o = db.run(common.make(parts))
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach("mirrored")


def handles(h):
    """Handles and property names are never taken for labels or relationship names."""
    ha, hr, hb = [h.text(n, 1, r"[A-Za-z]") for n in ("handle a", "handle r", "handle b")]
    h.differ(ha, hr), h.differ(ha, hb), h.differ(hr, hb)
    p = h.text("property", 1, r"[A-Za-z]")
    parts = [N("Aa", ha, "{" + p + ": 1}"), R(h.choice("way", "<>"), h.choice("name", ["", "REL"]), hr, ":", "{" + p + ": 'X'}"), N("Bb", hb)]
    db = common.Db(h, wn="5")
    o = db.run(common.make(parts))
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach("handles")


def coincide(h):
    """Patterns of every shape whose labels, names, properties and handles coincide in every way."""
    g = rich.graph(h)
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    if h.choice("again", [False, True]):
        db.run("MAKE (:Label)-[:SAME]->(:Label1);")
    o = db.run(g.text)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    mirror(h, db)
    h.reach("mirrored")


def large(h):
    """Queries of many parts on a DBMS that already holds a lot."""
    if h.flag("big query"):
        db = big.full_db(h, [9])
        q, _ = big.many(h, [11, 33, 65])
    else:
        db = big.full_db(h)
        q = h.choice("query", ["MAKE (:Old8)-[:NAME_4]->(:Old0)<-[:NAME_8]-(:New);", "MAKE (:A)-[:R]->(:B);", "MAKE (:Old8)(:Old9);", "FIND (:Old0);"])
    o = db.run(q)
    h.check(o.ok, f"a valid query was refused: {o.error}")
    mirror(h, db)
    h.reach("mirrored")


def huge(h):
    """A query on a DBMS that holds thousands of nodes."""
    db = big.full_db(h, [260] + ([1030] if h.deep else []))
    o = db.run(h.choice("query", ["MAKE (:Old8)-[:NAME_4]->(:Old0)<-[:NAME_8]-(:New);", "MAKE (:A)-[:R]->(:B);"]))
    h.check(o.ok, f"a valid query was refused: {o.error}")
    mirror(h, db)
    h.reach("mirrored")


def session(h):
    """Many queries one after the other."""
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    big.session(h, db, [s[0] for s in STEPS], see=lambda *a: None)
    mirror(h, db)
    h.reach("session")


CASES = [
    dict(name="history", fn=history, bounds="every sequence of 2 (thorough 3) of 25 queries, any counter"),
    dict(name="spelling", fn=spelling, weight=2, bounds="4 shapes, 1-character labels and names that may coincide with each other and the old ones"),
    dict(name="patterns", fn=patterns, bounds="2 patterns, 2-character labels and names, 3 separators"),
    dict(name="handles", fn=handles, bounds="1-character handles and property names"),
    dict(name="odd_names", fn=odd_names, bounds="names with any character in front and behind, labels of 3 characters, either relationship of a chain"),
    dict(name="long", fn=long, bounds="labels of 16 to 300 and names of 2 to 300 characters whose ends and middle are any, in any place"),
    dict(name="coincide", fn=coincide, weight=2, bounds=rich.BOUNDS),
    dict(name="huge", fn=huge, bounds="2 queries on 260 (thorough also 1030) nodes, any counter"),
    dict(name="large", fn=large, bounds="11, 33 or 65 patterns on 9 nodes, or 4 queries on up to 101 nodes, any counter"),
    dict(name="session", fn=session, bounds="33 (thorough 130) queries one after the other, any one of 12 at 4 places in it"),
]

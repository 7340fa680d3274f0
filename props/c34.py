"""What MAKE stored reads back as the nodes and relationships it was: record -> Node -> record changes nothing."""
from props import common, rich
from props.common import N, R, own

SHAPES = [("N",), ("N", ">", "N"), ("N", "<", "N"), ("N", ">", "N", ">", "N"), ("N", "<", "N", ">", "N"), ("N", ">", "N", "<", "N")]


def back(h, records, tag):
    """Every record, read as a Node, is that record again."""
    Node = h.imp("models.wql", "Node")
    for k in records:
        o = h.attempt(lambda: Node(**own(records[k])))
        h.check(o.ok, "a stored record cannot be read as a node")
        x = o.value
        h.check(h.same(h.decimal(x.wn), k), "a record read back has another number than the one it is stored under")
        h.check(h.same(x.node_label, records[k]["node_label"]), "a record read back has another label")
        h.check(h.same(x.properties, records[k]["properties"]), "a record read back has other properties")
        rels = records[k]["relations"] or []
        h.check(len(x.relations or []) == len(rels), "a record read back has another number of relationships")
        for a, b in zip(x.relations or [], rels):
            h.check(h.all_of([h.same(a.wn, b["relationship_metadata"]["wn"]), h.same(a.wn_from_node, b["wn_from_node"]),
                              h.same(a.wn_to_node, b["wn_to_node"])]), "a relationship read back has other ends or another number")
            h.check(h.same(a.relationship_name, b["relationship_name"]) and h.same(a.properties, b["properties"]), "a relationship read back has another name or other properties")
        h.check(h.same(x.node_relationship_names(), [r["relationship_name"] for r in rels] if rels else None), "the names of the relationships of a record are not those stored")
        out = x.export_node()
        h.check(len(out) == 1 and h.same(list(out)[0], k), "a record read back is exported under another number")
        h.check(h.same(out[list(out)[0]], records[k]), "a record is not the same after it was read and exported")
    h.reach(tag)


def load(h, db):
    f = h.imp("wiggle_query_language.graph.database.database", "load_database")
    got = f(db.db_file)
    h.check(h.same(got, db.records()), "the database that is loaded is not the one in the file")
    return got


def made(h):
    """MAKE, then read what is stored."""
    shape = h.choice("shape", SHAPES)
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    parts = []
    for i, s in enumerate(shape):
        if s == "N":
            t, v = common.small_props(h, f"node {i}", ["", "two"] if i else ["", "int", "str"])
            parts.append(N(h.text(f"label{i}", 1, common.WORD), props=t, value=v))
        else:
            t, v = common.small_props(h, f"relationship {i}", ["", "str"])
            parts.append(R(s, h.choice(f"name {i}", ["", "R"]), props=t, value=v))
    h.check(db.run(common.make(parts)).ok, "a sound MAKE is refused")
    back(h, load(h, db), f"made {len(shape)}")


VALUES = ["null", "true", "false", "0", "1", "007", "1.50", "1.0", "0.0", "100000000000000000000000", "100.0", "1000000.0", "99999999999999999999.0", "123456789.123456789", "''", "' '", "'1'", "'1.0'", "'null'", "'true'", "'[1]'", '"x"',
          "[1, 2]", "[true, false, null]", "[1, 1.0, '1', \"true\"]", "['', ' ']", "[0.5]", "'2023-01-01'", "a b", "'\u00e9'"]


def values(h):
    """Property values of every kind keep their type when they are read."""
    db = common.Db(h, wn="5")
    a, b = h.choice("first", VALUES), h.choice("second", VALUES)
    c = h.text("third", 1, r"[^\W\d]")
    o = db.run("MAKE (:A{x: " + a + ", y: '" + c + "'})-[:R{y: " + b + "}]->(:B);")
    if o.ok:
        back(h, load(h, db), "values")


def coincide(h):
    """Graphs in which labels, names and properties coincide."""
    db = common.Db(h, wn=h.decimal(h.int("counter", 0)))
    h.check(db.run(rich.graph(h).text).ok, "a sound MAKE is refused")
    back(h, load(h, db), "coincide")


def any_node(h):
    """A node of any contents: to a record and back."""
    Node, Rel, Meta = (h.imp("models.wql", x) for x in ("Node", "Relationship", "WiggleGraphMetalData"))
    w, t, r = h.int("wn"), h.int("to"), h.int("relationship")
    h.assume(w != t)
    up = h.choice("updated", [None, 0.0, 17.25, 1.7e9])
    props = h.choice("props", [None, {}, {"a": 1}, {"a": None, "b": False, "c": ""}, {"a": [1, True, None, "x", 1.5], "wn": 3, "relations": "x"}])
    name = h.text("name", h.choice("length", [0, 1, 2]))
    way = h.choice("way", [">", "<", "none"])
    rels = None
    if way != "none":
        ends = (w, t) if way == ">" else (t, w)
        o = h.attempt(lambda: Rel(relationship_metadata=Meta(wn=r, updated_at=up), relationship_name=h.choice("named", [True, False]) and name or None,
                                  wn_from_node=ends[0], wn_to_node=ends[1], properties=own(props)))
        h.check(o.ok, "a sound relationship cannot be made")
        x, rels = o.value, [o.value]
        h.check(h.all_of([h.same(x.wn, r), h.same(x.wn_from_node, ends[0]), h.same(x.wn_to_node, ends[1])]), "a relationship that was made has other ends or another number")
        h.check(h.same(x.properties, props), "a relationship that was made has other properties")
    o = h.attempt(lambda: Node(node_metadata=Meta(wn=w, created_at=12.5, updated_at=up), node_label=name, properties=own(props), relations=rels))
    h.check(o.ok, "a sound node cannot be made")
    node = o.value
    h.check(h.all_of([h.same(node.wn, w), h.same(node.node_label, name), h.same(node.properties, props)]), "a node that was made has another number, label or other properties")
    if rels is None:
        h.check(node.relations is None and node.node_relationship_names() is None, "a node that was made has relationships from nowhere")
    else:
        h.check(len(node.relations) == 1, "a node that was made has another number of relationships")
        z = node.relations[0]
        h.check(h.all_of([h.same(z.wn, r), h.same(z.wn_from_node, ends[0]), h.same(z.wn_to_node, ends[1]), h.same(z.relationship_name, x.relationship_name), h.same(z.properties, props)]),
                "a node that was made has another relationship")
        h.check(h.same(list(node.node_relationship_names()), [x.relationship_name]), "a node names other relationships than it has")
    rec = node.export_node()
    k = list(rec)[0]
    h.check(h.same(k, h.decimal(w)), "a node is exported under another number")
    h.check(rec[k]["node_metadata"]["created_at"] == 12.5 and h.same(rec[k]["node_metadata"]["updated_at"], up), "a node is exported with other times")
    db = common.Db(h, wn="0", records=rec)
    back(h, load(h, db), f"any {way}")


CASES = [
    dict(name="made", fn=made, bounds="6 shapes, labels of 1 symbolic character, 3 property maps per node and 2 per relationship, counter any integer >= 0"),
    dict(name="values", fn=values, bounds=f"{len(VALUES)} values of every kind on the node and on the relationship"),
    dict(name="coincide", fn=coincide, bounds=rich.BOUNDS),
    dict(name="any_node", fn=any_node, bounds="any integers as numbers, names of up to 2 characters, 5 property maps, 4 update times"),
]

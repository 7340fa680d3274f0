"""The stored models: no relationship from a node to itself, none on a node it does not touch."""
from props.common import own


def meta(h, wn):
    return h.imp("models.wql", "WiggleGraphMetalData")(wn=wn)


def rel(h, wn, a, b, name="R", props=None):
    Rel = h.imp("models.wql", "Relationship")
    return h.attempt(lambda: Rel(relationship_metadata=meta(h, wn), relationship_name=name, wn_from_node=a, wn_to_node=b, properties=props))


def loop(h):
    """Any two ends: refused exactly when they are the same."""
    a, b, w = h.int("from"), h.int("to"), h.int("wn")
    name = h.choice("name", ["", "R", None])
    o = rel(h, w, a, b, name)
    h.check(h.same(o.ok, a != b), "a relationship from a node to itself is accepted, or another is not")
    if o.ok:
        r = o.value
        h.check(r.wn_from_node == a and r.wn_to_node == b and r.wn == w, "a relationship does not keep its ends")
        h.check(r.relationship_name == name, "a relationship does not keep its name")
        h.check(r.relationship_metadata.updated_at is None, "a new relationship counts as updated")
    h.reach(f"loop {not o.ok}")


def loop_large(h):
    """The same for ids of every size."""
    a, b, w = (h.int(x, h.choice("at least", [1000, 10 ** 6, 2 ** 40])) for x in ("from", "to", "wn"))
    o = rel(h, w, a, b, h.choice("name", ["R", None]))
    h.check(h.same(o.ok, a != b), "a relationship from a node to itself is accepted, or another is not")
    h.reach(f"loop {not o.ok}")


def unrelated(h):
    """Any node with any relationships: refused exactly when one of them touches another two nodes only."""
    n = h.choice("relationships", [1, 2] if not h.deep else [1, 2, 3])
    w = h.int("wn")
    rels, ok = [], []
    for i in range(n):
        a, b = h.int(f"from{i}"), h.int(f"to{i}")
        h.assume(a != b)
        o = rel(h, h.int(f"relationship{i}"), a, b)
        h.check(o.ok, "a relationship between two nodes is refused")
        rels.append(o.value)
        ok.append(h.any_of([h.same(w, a), h.same(w, b)]))
    Node = h.imp("models.wql", "Node")
    props = h.choice("props", [None, {"x": 1}])
    o = h.attempt(lambda: Node(node_metadata=meta(h, w), node_label="A", relations=list(rels), properties=own(props)))
    h.check(h.same(o.ok, h.all_of(ok)), "a node with a relationship it is no end of is accepted, or one with its own is not")
    if o.ok:
        x = o.value
        h.check(h.same(x.wn, w) and x.node_label == "A" and h.same(x.properties, props), "a node does not keep what it is given")
        h.check(len(x.relations) == n, "a node does not keep its relationships")
        h.check(h.all_of([h.same(p.wn, q.wn) for p, q in zip(x.relations, rels)]), "a node does not keep its relationships")
    h.reach(f"node {o.ok}")


def crowd(h):
    """A node with many relationships: a single one that does not touch it, wherever it stands, is enough."""
    n = h.choice("relationships", [3, 5, 9, 12, 33] if not h.deep else [3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 65])
    at = h.choice("at", sorted({0, 1, n // 2, n - 2, n - 1}))
    w = h.int("wn")
    a, b = h.int("from"), h.int("to")
    h.assume(a != b)
    way = h.choice("the others", ["out", "in", "both"])
    rels = []
    for i in range(n):
        out = way == "out" or way == "both" and i % 2
        e = (w, w + 1 + i) if out else (w + 1 + i, w)
        if i == at:
            e = (a, b)
        o = rel(h, 1000 + i, e[0], e[1], h.choice("names", [None, "R"]) if i == at else "R", h.choice("props", [None, {"k": "v"}]) if i == at else None)
        h.check(o.ok, "a relationship between two nodes is refused")
        rels.append(o.value)
    Node = h.imp("models.wql", "Node")
    o = h.attempt(lambda: Node(node_metadata=meta(h, w), node_label=h.choice("label", ["A", ""]), relations=list(rels)))
    h.check(h.same(o.ok, h.any_of([h.same(w, a), h.same(w, b)])), "a node with a relationship it is no end of is accepted, or one with its own is not")
    h.reach(f"crowd {o.ok}")


def export(h):
    """A node is exported under its own number with all it holds."""
    w, t, r = h.int("wn", 0), h.int("to", 0), h.int("relationship", 0)
    u = h.int("to as well", 0)
    h.assume(w != t)
    h.assume(w != u)
    n = h.choice("relationships", [0, 1, 2])
    label = h.text("label", h.choice("length", [0, 1, 3]))
    props = h.choice("props", [None, {}, {"a": 1, "b": [True, None, 1.5, "x"]}])
    rels = [rel(h, r, w, t).value, rel(h, r + 1, w, u, "", {"k": "v"}).value][:n] or None
    node = h.imp("models.wql", "Node")(node_metadata=meta(h, w), node_label=label, relations=rels, properties=own(props))
    out = node.export_node()
    h.check(len(out) == 1, "a node is exported as something else than one record")
    k = list(out)[0]
    h.check(h.same(k, h.decimal(w)), "a node is exported under another number")
    d = out[k]
    h.check(h.same(d["node_label"], label) and h.same(d["properties"], props) and h.same(d["node_metadata"]["wn"], w), "an exported node has lost something")
    h.check(len(d["relations"] or []) == n, "an exported node has another number of relationships")
    names = node.node_relationship_names()
    h.check(h.same(names, ["R", ""][:n] if n else None), "the names of the relationships of a node are not those it has")
    ix = node.export_relationship_indexes()
    if n == 0:
        h.check(ix is None, "a node without relationships exports relationships")
    else:
        h.check(len(ix) == 1 and h.same(list(ix)[0], h.decimal(w)), "relationships are exported for another node")
        got = list(ix[list(ix)[0]])
        want = [t, u][:n]
        h.check(h.all_of([h.any_of([h.same(x, y) for y in got]) for x in want]) and h.all_of([h.any_of([h.same(x, y) for y in want]) for x in got]),
                "the targets exported for a node are not those of its relationships")
    h.reach(f"{n} relationships")


CASES = [
    dict(name="loop", fn=loop, bounds="any integers for both ends and the number, 3 names"),
    dict(name="loop_large", fn=loop_large, bounds="any integers >= 1000, 10**6 or 2**40"),
    dict(name="unrelated", fn=unrelated, bounds="1 or 2 (thorough 3) relationships, any integers"),
    dict(name="crowd", fn=crowd, bounds="3 to 33 (thorough 65) relationships, one of them with any ends at 5 places"),
    dict(name="export", fn=export, bounds="0 to 2 relationships, any integers >= 0, labels of 0, 1 or 3 characters"),
]

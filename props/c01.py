"""MAKE stores exactly the nodes that are described."""
from props import big, common, rich
from props.common import N, R

SHAPES = ["n", "nn", "nnn", "nrn", "nrnn", "nnrn", "nrnrn"]


def some_db(h):
    """A DBMS at any counter value with a node in it."""
    n = h.int("counter", 1)
    old = {"0": {"node_metadata": {"wn": 0, "created_at": 1.5, "updated_at": None}, "node_label": "Old",
                 "properties": {"x": 1}, "relations": None}}
    return common.Db(h, wn=h.decimal(n), records=old, labels=["Old"])


def build(h, shape, label_sizes, kinds, tag="", handles="abc"):
    parts, i = [], 0
    for s in shape:
        if s == "n":
            label = common.words(h, f"{tag}label{i}", label_sizes)
            t, v = common.small_props(h, f"{tag}props{i}", kinds)
            parts.append(N(label, handles[i:i + 1], t, v))
            i += 1
        else:
            parts.append(R(h.choice(f"{tag}way{i}", "<>"), "R"))
    return parts


def all_differ(h, patterns):
    ls = [n.label for p in patterns for n in common.nodes_of(p)]
    for a in range(len(ls)):
        for b in range(a):
            h.differ(ls[a], ls[b])


def run(h, db, q, patterns):
    before = db.records()
    o = db.run(q)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    after = db.records()
    common.expect_stored(h, before, after, patterns, check_rels=False)
    h.observe("db", [[r["node_label"], r["properties"]] for r in after.values()])


def one_pattern(h):
    """Every shape of a pattern; labels of two characters, no or one property, no or any whitespace."""
    shape = h.choice("shape", SHAPES)
    lay = common.Layout(h, h.choice("whitespace", ["none", "all"]))
    parts = build(h, shape, [2], ["", "int"])
    all_differ(h, [parts])
    run(h, some_db(h), common.make(parts, lay=lay), [parts])
    h.reach(shape)


def one_node(h):
    """One node: long labels, handles of any spelling, whitespace in any single place, more properties."""
    n = h.choice("label length", [1, 3, 6] + ([10, 20] if h.deep else []))
    label = h.text("label", n, common.WORD)
    handle = common.words(h, "handle", [0, 1, 3], common.WORD)
    t, v = common.small_props(h, "props", ["", "int", "str", "two"])
    style = h.choice("whitespace", ["none", "all", 0, 1, 2, 3, 4, 5])
    parts = [N(label, handle, t, v)]
    lay = common.Layout(h, style, h.choice("spaces", [1, 3]) if style != "none" else 1)
    run(h, some_db(h), common.make(parts, lay=lay), [parts])
    h.reach("stored")


def many(h):
    """Several patterns and statements in one query."""
    sep = h.choice("separator", [", ", ",", ";MAKE", "; MAKE ", ";\nMAKE", ";\n\n  make "])
    shapes = h.choice("shapes", [["n", "n"], ["n", "n", "n"], ["nrn", "n"], ["n", "nrn"], ["nrn", "nrn"], ["nrnrn", "nrnrn"],
                                 ["nn", "nrn"]] + ([["nrnrn", "n", "nrn", "nnn"], ["n"] * 6] if h.deep else []))
    pats = [build(h, s, [2], [""], f"p{k}", "") for k, s in enumerate(shapes)]
    all_differ(h, pats)
    t, v = common.small_props(h, "props", ["int", "str"])
    last = common.nodes_of(pats[-1])[-1]
    last.props, last.value = t, v
    q = "MAKE" + h.choice("before", ["", " "]) + sep.join(common.pattern(p) for p in pats) + ";"
    run(h, some_db(h), q, pats)
    h.reach(sep)


def alike(h):
    """Nodes may share labels and properties: each is stored."""
    labels = [h.text(f"label{i}", 1, common.WORD) for i in range(3)]
    sep = h.choice("separator", [", ", ";MAKE ", "-[:R]->"])
    props = h.choice("props", ["", "{x: 1}"])
    q = "MAKE " + sep.join("(:" + x + props + ")" for x in labels) + ";"
    db = some_db(h)
    before = db.records()
    o = db.run(q)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    after = db.records()
    new = [k for k in after if k not in before]
    h.check(len(new) == 3, f"3 nodes were described and {len(new)} are stored")
    for x in labels:
        want = len([1 for y in labels if h.same(x, y)])
        got = len([1 for k in new if h.same(after[k]["node_label"], x)])
        h.check(want == got, "a label is stored more or less often than it was described")
    for k in new:
        h.check(h.same(after[k]["properties"], {"x": 1} if props else None), "the properties of a node are not stored")
    h.reach(sep)


WORDS = ["Make", "MAKE", "Find", "FIND", "Report", "REPORT", "Null", "True", "MakeFind", "Criteria", "wn", "_", "0", "Reporter"]


def keywords(h):
    """Labels and handles may be words of the language."""
    label = h.choice("label", WORDS) + h.text("more", h.choice("more length", [0, 1]), common.WORD)
    handle = h.choice("handle", ["", "make", "find", "report", "FIND", "null"])
    two = h.choice("second", [False, True])
    parts = [N(label, handle)] + ([R(">", "MAKE"), N("Other", "", "{find: 1}", {"find": 1})] if two else [])
    if two:
        h.differ(label, "Other")
    run(h, some_db(h), h.choice("space", ["MAKE ", "make", "\nMake  "]) + common.pattern(parts) + ";", [parts])
    h.reach("stored")


def coincide(h):
    """Patterns of every shape whose labels, names, properties and handles coincide in every way."""
    g = rich.graph(h)
    db = some_db(h)
    before = db.records()
    o = db.run(g.text)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    rich.stored(h, before, db.records(), g, rels=False)
    h.reach("stored")


def large(h):
    """Queries of many nodes on a DBMS of many."""
    q, pats = big.many(h)
    run(h, some_db(h), q, pats)
    h.reach("stored")


def hundreds(h):
    """Queries of more nodes, relationships and statements than small numbers count."""
    n, sep = h.choice("patterns", [260, 300]), h.choice("separator", [", ", ";MAKE "])
    label = h.text("label", 1, "[A-Z]")
    pats = [[N(f"L{i}"), R("><"[i % 2], f"R_{i}"), N(f"K{i % 7}")] if i % 3 == 2 else [N(f"L{i}")] for i in range(n - 1)] + [[N("Last" + label)]]
    run(h, some_db(h), "MAKE " + sep.join(common.pattern(p) for p in pats) + ";", pats)
    h.reach("stored")


def long(h):
    """Long labels and handles."""
    label, handle = big.long_word(h, "label", common.WORD), big.long_word(h, "handle", common.WORD, [2, 65]) if h.flag("handle") else ""
    where = h.choice("where", ["alone", "left", "right", "third"])
    me, a, b = N(label, handle), N("Aa"), N("Bb")
    parts = {"alone": [me], "left": [me, R(">", "R"), a], "right": [a, R("<", "R"), me], "third": [a, R(">", "R"), b, R(">", "S"), me]}[where]
    run(h, some_db(h), common.make(parts), [parts])
    h.reach(where)


def properties(h):
    """Nodes with several properties of every combination of kinds."""
    t, v = common.several_props(h, "props", h.deep)
    at = h.choice("at", [0, 1, 2])
    parts = [N("Aa"), R(">", "R"), N("Bb"), R("<", "S"), N("Cc")]
    parts[2 * at].props, parts[2 * at].value = t, v
    run(h, some_db(h), common.make(parts), [parts])
    h.reach("stored")


CASES = [
    dict(name="one_pattern", fn=one_pattern, weight=3,
         bounds="all 7 pattern shapes, both directions, 2-character labels, 0 or 1 int property per node, no whitespace or "
                "one same whitespace character in every place, any counter >= 1"),
    dict(name="one_node", fn=one_node, weight=2,
         bounds="label <= 6 (thorough 20) and handle <= 3 word characters, <= 3 properties, 1 or 3 whitespace characters in "
                "all or any single place"),
    dict(name="many", fn=many, bounds="<= 3 (thorough 6) patterns in 1 to 3 statements, 6 separators"),
    dict(name="alike", fn=alike, bounds="3 nodes with 1-character labels that may coincide"),
    dict(name="keywords", fn=keywords, bounds="14 labels with <= 1 more character, 6 handles"),
    dict(name="large", fn=large, bounds=big.BOUNDS),
    dict(name="coincide", fn=coincide, weight=2, bounds=rich.BOUNDS),
    dict(name="properties", fn=properties, bounds="2 to 4 (thorough 5) properties, two of them of any of 10 values, on any of 3 nodes"),
    dict(name="hundreds", fn=hundreds, bounds="260 and 300 patterns in one or as many statements, one letter symbolic"),
    dict(name="long", fn=long, bounds="labels of 16 to 300 characters, handles of 65, whose ends and middle are any"),
]

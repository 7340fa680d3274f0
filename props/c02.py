"""Relationships are stored as drawn: on their source, once, with their direction, name and properties."""
from props import big, common, rich
from props.c01 import all_differ, some_db
from props.common import N, R

UP = "[A-Z_]"


def run(h, db, q, patterns):
    before = db.records()
    o = db.run(q)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    after = db.records()
    common.expect_stored(h, before, after, patterns)
    h.observe("rels", [[(x["relationship_name"] or "", x["properties"]) for x in (r["relations"] or [])]
                       for r in after.values()])


def rel(h, tag, kinds, names=(2,), dashes=("-",)):
    bracket = h.choice(tag + "bracket", kinds)
    name = handle = ""
    colon = ":" if ":" in bracket else ""
    if "R" in bracket:
        n = h.choice(tag + "name length", names)
        name = h.text(tag + "name", 1, "[A-Z]") + h.text(tag + "name rest", n - 1, r"[A-Z0-9_]")
    if "h" in bracket:
        handle = tag + "k"
    t, v = ("", None)
    if "p" in bracket:
        d = h.text(tag + "prop", 1, "[0-9]")
        t, v = "{n: " + d + "}", {"n": int(d)}
    return R(h.choice(tag + "way", "<>"), name, handle, colon, t, v, h.choice(tag + "dashes before", dashes),
             h.choice(tag + "dashes after", dashes))


def nodes(h, n):
    return [N(h.text(f"label{i}", 1, common.WORD), "abc"[i]) for i in range(n)]


def one(h):
    """One relationship in every form."""
    a, b = nodes(h, 2)
    h.differ(a.label, b.label)
    r = rel(h, "r", ["", ":", "h", "h:", ":R", "h:R", ":Rp", "h:Rp", ":p", "h:p"], (1, 3) if not h.deep else (1, 3, 8), ("-", "--"))
    lay = common.Layout(h, h.choice("whitespace", ["none", "all"]))
    run(h, some_db(h), common.make([a, r, b], lay=lay), [[a, r, b]])
    h.reach(r.way)


def two(h):
    """Chains of two relationships, every combination of directions."""
    ns = [N("Aa", "a", "{i: 1}", {"i": 1}), N("Bb", "b"), N("Cc", "", "{i: 2}", {"i": 2})]
    kinds = ["", ":R", "h:Rp"] if h.deep else ["", "h:Rp"]
    r1, r2 = rel(h, "r1", kinds), rel(h, "r2", kinds)
    lay = common.Layout(h, h.choice("whitespace", ["none", "all"]))
    parts = [ns[0], r1, ns[1], r2, ns[2]]
    run(h, some_db(h), common.make(parts, lay=lay), [parts])
    h.reach(r1.way + r2.way)


def places(h):
    """Whitespace in any single place, and dashes of any length, do not change what is stored."""
    ns = [N("Aa", "a", "{i: 1}", {"i": 1}), N("Bb", "", "{i: 2}", {"i": 2}), N("Cc")]
    shape = h.choice("shape", ["rr", "rn"])
    r1 = R(h.choice("way1", "<>"), "ONE", "r", ":", "{x: 1}", {"x": 1}, *h.choice("dashes", [("-", "-"), ("---", "--")]))
    parts = [ns[0], r1, ns[1]]
    if shape == "rr":
        parts += [R(h.choice("way2", "<>"), "TWO_2", "", ":", "", None, "-", "--"), ns[2]]
    k = h.choice("place", list(range(2, 32 if shape == "rr" else 20)))
    lay = common.Layout(h, k, h.choice("spaces", [1, 2]) if h.deep else 1)
    run(h, some_db(h), common.make(parts, lay=lay), [parts])
    h.reach(shape)


def several(h):
    """Relationships of several patterns and statements stay with their own pattern."""
    sep = h.choice("separator", [", ", ";MAKE ", ";\nMAKE", " ,"])
    pats = []
    for k in range(3 if h.deep else 2):
        a, b = N(h.text(f"label{k}a", 1, common.WORD)), N(h.text(f"label{k}b", 1, common.WORD))
        r = R(h.choice(f"way{k}", "<>"), h.choice(f"name{k}", ["", "LIKES"]), "")
        parts = [a, r, b]
        if k == 0 and h.choice(f"long{k}", [False, True]):
            parts += [R(h.choice(f"way{k}2", "<>"), "SEES"), N(f"end_{k}")]
        pats.append(parts)
    all_differ(h, pats)
    run(h, some_db(h), "MAKE " + sep.join(common.pattern(p) for p in pats) + ";", pats)
    h.reach("several")


def twins(h):
    """Labels and names may coincide: the number of relationships per name stays right."""
    labels = [h.text(f"label{i}", 1, common.WORD) for i in range(3)]
    names = [h.text(f"name{i}", 1, "[A-Z]") for i in range(2)]
    ways = [h.choice(f"way{i}", "<>") for i in range(2)]
    parts = [N(labels[0]), R(ways[0], names[0]), N(labels[1]), R(ways[1], names[1]), N(labels[2])]
    db = some_db(h)
    before = db.records()
    o = db.run(common.make(parts))
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    after = db.records()
    keys = [k for k in after if k not in before]
    h.check(len(keys) == 3, f"3 nodes were described and {len(keys)} are stored")
    stored = [(k, x) for k in keys for x in (after[k]["relations"] or [])]
    h.check(len(stored) == 2, f"2 relationships were described and {len(stored)} are stored")
    want = [(names[i], labels[i] if ways[i] == ">" else labels[i + 1], labels[i + 1] if ways[i] == ">" else labels[i]) for i in range(2)]
    label = {}
    for k in keys:
        label[k] = after[k]["node_label"]
    got = []
    for k, x in stored:
        h.check(h.same(h.decimal(x["wn_from_node"]), k), "a relationship is not stored on its source")
        to = [y for y in keys if h.same(h.decimal(x["wn_to_node"]), y)]
        h.check(len(to) == 1, "a relationship ends at no node")
        got.append((x["relationship_name"], label[k], label[to[0]]))
    for a in want:
        n = len([1 for b in want if h.same(a, b)])
        h.check(len([1 for b in got if h.same(a, b)]) == n, "a relationship is not stored between its nodes under its name")
    h.reach("twins")


def coincide(h):
    """Patterns of every shape whose labels, names, properties and handles coincide in every way."""
    g = rich.graph(h)
    db = some_db(h)
    before = db.records()
    o = db.run(g.text)
    h.check(o.ok, f"a valid MAKE was refused: {o.error}")
    rich.stored(h, before, db.records(), g)
    h.reach("stored")


def large(h):
    """Queries of many relationships."""
    q, pats = big.many(h)
    run(h, some_db(h), q, pats)
    h.reach("stored")


def long(h):
    """Long names, handles and properties."""
    d = h.text("digit", 1, "[0-9]")
    name = big.long_word(h, "name", "[A-Z]")
    r = R(h.choice("way", "<>"), name, "k" * 70 if h.flag("handle") else "", ":", "{n: " + d * 40 + "}", {"n": int(d * 40)})
    parts = [N("Aa"), r, N("Bb")]
    if h.flag("third"):
        parts = [N("Zz"), R(h.choice("other way", "<>"), "OTHER" * 20)] + parts
    run(h, some_db(h), common.make(parts), [parts])
    h.reach("long")


def properties(h):
    """Relationships with several properties of every combination of kinds."""
    t, v = common.several_props(h, "props", h.deep)
    at = h.choice("at", [0, 1])
    way, name = h.choice("drawn", [(">", "S"), ("<", "")] if not h.deep else [(">", "S"), ("<", ""), (">", ""), ("<", "S")])
    parts = [N("Aa"), R(way, "R"), N("Bb"), R("<", name), N("Cc")]
    parts[1 + 2 * at].props, parts[1 + 2 * at].value = t, v
    run(h, some_db(h), common.make(parts), [parts])
    h.reach("stored")


CASES = [
    dict(name="one", fn=one, weight=2, bounds="10 bracket forms, 1 or 2 dashes on either side, names of 1 or 3 characters (thorough 8), "
                                              "no whitespace or one same whitespace character in every place"),
    dict(name="two", fn=two, weight=2, bounds="2 (thorough 3) bracket forms per relationship, all 4 direction pairs"),
    dict(name="places", fn=places, bounds="1 (thorough 2) whitespace characters in any one place, 1 to 3 dashes"),
    dict(name="several", fn=several, bounds="2 (thorough 3) patterns of 1 or 2 relationships, 4 separators"),
    dict(name="twins", fn=twins, bounds="3 labels and 2 names of one character, any of which may coincide"),
    dict(name="coincide", fn=coincide, weight=2, bounds=rich.BOUNDS),
    dict(name="large", fn=large, bounds=big.BOUNDS),
    dict(name="properties", fn=properties, bounds="2 to 4 (thorough 5) properties, two of them of any of 10 values, on either of 2 relationships"),
    dict(name="long", fn=long, bounds="names of 16 to 300 characters whose ends and middle are any, first or second relationship"),
]

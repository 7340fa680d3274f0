"""A FIND is turned into exactly the search it describes."""
from props import big, common, rich
from props.common import N, R
from props.c07 import TEXT

FIND = "wiggle_query_language.clauses.find"


def search(h, q):
    o = h.attempt(h.imp(FIND, "parse_find_statement_from_query_string"), q)
    h.check(o.ok and o.value is not None, f"a valid FIND was not read: {o.error}")
    p = h.attempt(h.imp(FIND + ".transform.find_pre", "process_parsed_find"), o.value)
    h.check(p.ok, f"a valid FIND was not turned into a search: {p.error}")
    return p.value


def nodes_in(pre):
    return [n for n in (pre.left_node, pre.middle_node, pre.right_node) if n is not None]


def compare(h, pre, parts):
    """The search holds the nodes and relationships of the pattern, and nothing else."""
    want = common.nodes_of(parts)
    got = nodes_in(pre)
    h.check(len(got) == len(want), f"{len(want)} nodes are looked for and the search has {len(got)}")
    out = [[] for _ in want]
    for r, a, b in common.rels_of(parts):
        out[a].append(r)
    for g, w, rels in zip(got, want, out):
        h.check(h.same(g.node_label, w.label), "a node is looked for under another label")
        h.check(h.same(g.node_handle or "", w.handle), "a node of a search has another handle")
        h.check(h.same(g.props_dict_yes or None, w.value or None), "a node is looked for with other properties")
        h.check(not g.props_dict_no, "a FIND on its own excludes properties")
        h.check(len(g.relationships) == len(rels), f"a node of a search has {len(g.relationships)} outgoing relationships, not {len(rels)}")
        for x, r in zip(g.relationships, rels):
            h.check(h.same(x.rel_name or "", r.name), "a relationship is looked for under another name")
            h.check(h.same(x.rel_handle or "", r.handle), "a relationship of a search has another handle")
            h.check(h.same(x.props_dict_yes or None, r.value or None), "a relationship is looked for with other properties")
            h.check(not x.props_dict_no, "a FIND on its own excludes properties")
    names = [r.name for r, _, _ in common.rels_of(parts) if len(r.name)]
    sets(h, pre.node_labels, [n.label for n in want], "labels")
    sets(h, pre.relationship_names, names, "relationship names")
    h.observe("labels", [(g.node_label, g.node_handle or "", g.props_dict_yes or None) for g in got])


def sets(h, got, want, what):
    got = list(got)
    h.check(h.all_of([h.any_of([h.same(x, y) for y in got]) for x in want]), f"a search does not look up all of its {what}")
    h.check(h.all_of([h.any_of([h.same(x, y) for x in want]) for y in got]), f"a search looks up {what} that were not asked for")


def fill(h, shape, handles, props, size=1, apart=True):
    """Parts of a pattern of the shape with symbolic labels, names, handles and property values."""
    parts = []
    i = 0
    hs = []
    for c in shape:
        i += 1
        handle = ""
        if handles == "all" or handles == i:
            handle = h.text(f"handle{i}", size, r"\w") + "xyzuv"[i - 1]
            hs.append(handle)
        t, v = "", None
        if props == "all" or props == i:
            d = h.text(f"value{i}", 1, "[0-9]")
            s = h.text(f"text{i}", 1, TEXT)
            t, v = "{n: " + d + ", s: 'q" + s + "'}", {"n": int(d), "s": "q" + s}
        if c == "n":
            parts.append(N(h.text(f"label{i}", size, r"\w") + ("KLMNO"[i - 1] if apart else ""), handle, t, v))
        else:
            k = h.choice("named", [0, size]) if i == 2 or apart is None else size
            name = h.text(f"name{i}", 1 if k else 0, "[A-Z]") + h.text(f"name rest{i}", max(0, k - 1), "[A-Z0-9_]")
            if k and apart:
                name += "KLMNO"[i - 1]
            parts.append(R(c, name, handle, ":", t, v))
    return parts


SHAPES = ["n", "nn", "n>n", "n<n", "n>n>n", "n<n>n", "n>n<n", "n<n<n", "nnn", "n>nn", "nn<n"]


def shapes(h):
    """Every shape of pattern; handles and properties on none, each or all of its parts."""
    shape = h.choice("shape", SHAPES)
    spots = ["none", "all"] + list(range(1, len(shape) + 1))
    what = h.choice("with", ["handles", "props", "both"])
    spot = h.choice("on", spots if what != "both" else ["all"])
    parts = fill(h, shape, spot if what != "props" else "none", spot if what != "handles" else "none", 2 if h.deep else 1)
    compare(h, search(h, common.statement(h.choice("word", ["FIND", "find "]), [parts], common.TIGHT) + ";"), parts)
    h.reach(shape)


def alike(h):
    """Labels and names of the parts may be the same or not."""
    parts = fill(h, h.choice("shape", ["nn", "n>n", "n<n", "n<n>n", "n>n>n"] if not h.deep else SHAPES), "none", "none", 1, None)
    compare(h, search(h, common.statement("FIND", [parts], common.TIGHT) + ";"), parts)
    h.reach("alike")


def coincide(h):
    """Every shape; labels, names, handles and properties of the parts may coincide."""
    g = rich.graph(h, twos=[], word=h.choice("word", ["FIND", "MAKE (:Q)-[:R]->(:Q);FIND"]))
    compare(h, search(h, g.text), g.patterns[0])
    h.reach("coincide")


def layout(h):
    """Whitespace anywhere does not matter."""
    shape = h.choice("shape", ["n", "n>n", "n<n", "n<n>n", "n>n<n"])
    parts = fill(h, shape, "all", h.choice("props", ["none", "all"]))
    d1, d2 = h.choice("dashes", [("-", "-"), ("--", "-"), ("-", "---")])
    for p in parts:
        if isinstance(p, R):
            p.d1, p.d2 = d1, d2
    lay = common.Layout(h, "all", h.choice("size", [1, 2] if h.deep else [1]))
    q = h.choice("before", ["", "MAKE (:Q);\n"]) + common.statement("FIND", [parts], lay) + ";" + h.choice("after", ["", "\nREPORT *;", " MAKE (:Q);"])
    compare(h, search(h, q), parts)
    h.reach(shape)


def values(h):
    """Property values of every kind arrive as they were written."""
    spot = h.choice("on", [0, 1, 2])
    kind = h.choice("kind", ["int", "float", "true", "false", "null", "string", "list", "many"])
    if kind == "int":
        d = h.text("int", h.choice("digits", [1, 2]), "[0-9]")
        t, v = d, int(d)
    elif kind == "float":
        a, b = h.text("whole", 1, "[0-9]"), h.text("fraction", 1, "[0-9]")
        t, v = a + "." + b, float(a + "." + b)
    elif kind in ("true", "false", "null"):
        t, v = kind, {"true": True, "false": False, "null": None}[kind]
    elif kind == "string":
        s = "z" + h.text("text", h.choice("length", [0, 1, 3]), TEXT)
        q = h.choice("quote", ["'", '"'])
        t, v = q + s + q, s
    elif kind == "list":
        d = h.text("item", 1, "[0-9]")
        s = h.text("text", 1, "[a-z]")
        t, v = "[" + d + ", '" + s + "k', true]", [int(d), s + "k", True]
    else:
        d = h.text("item", 1, "[0-9]")
        t, v = "1, b: 'x y', c: [1, null], d: " + d, 1
    val = {"a": v}
    if kind == "many":
        val = {"a": 1, "b": "x y", "c": [1, None], "d": int(d)}
    parts = [N("A"), R(h.choice("way", "<>"), "R"), N("B")]
    parts[spot].props, parts[spot].value = "{a: " + t + "}", val
    compare(h, search(h, common.statement("FIND", [parts], common.TIGHT) + ";"), parts)
    h.reach(kind)


def properties(h):
    """Several properties of every combination of kinds."""
    t, v = common.several_props(h, "props", h.deep)
    parts = [N("Aa"), R(h.choice("way", "<>") if h.deep else ">", "R"), N("Bb"), R("<", "S"), N("Cc")]
    at = h.choice("at", [0, 1, 2, 3, 4])
    parts[at].props, parts[at].value = t, v
    compare(h, search(h, common.statement("FIND", [parts], common.TIGHT) + ";"), parts)
    h.reach("properties")


def long(h):
    """Long labels, names, handles and texts."""
    parts = [N("Aa"), R(h.choice("way", "<>"), "R"), N("Bb"), R("<", "S"), N("Cc")]
    p = parts[h.choice("at", [0, 1, 2, 3, 4])]
    what = h.choice("long", ["label", "handle", "text"])
    if what == "handle":
        p.handle = big.long_word(h, "handle", common.WORD)
    elif what == "text":
        s = big.long_word(h, "text", "[a-z ]")
        p.props, p.value = "{s: '" + s + "'}", {"s": s}
    elif isinstance(p, N):
        p.label = big.long_word(h, "label", common.WORD)
    else:
        p.name = big.long_word(h, "name", "[A-Z]")
    compare(h, search(h, common.statement("FIND", [parts], common.TIGHT) + ";"), parts)
    h.reach(what)


CASES = [
    dict(name="shapes", fn=shapes, weight=3, bounds="11 patterns, labels, handles, names of 1 (thorough 2) characters and properties on none, any one or all parts"),
    dict(name="alike", fn=alike, bounds="5 (thorough 11) patterns, any labels and names of 1 character, equal or not"),
    dict(name="coincide", fn=coincide, weight=2, bounds=rich.BOUNDS.replace("6 (thorough 16) of two in one or two statements; ", "")),
    dict(name="layout", fn=layout, weight=2, bounds="5 patterns, 3 pairs of dash lengths, the same 1 (thorough 2) whitespace characters everywhere, other clauses around"),
    dict(name="properties", fn=properties, bounds="2 to 4 (thorough 5) properties, two of them of any of 10 values, on any of 5 parts"),
    dict(name="long", fn=long, bounds="a label, name, handle or text of 16 to 300 characters whose ends and middle are any, on any of 5 parts"),
    dict(name="values", fn=values, bounds="7 kinds of values with symbolic text or digits on any part"),
]

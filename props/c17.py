"""CRITERIA properties go to the node or relationship with their handle, and only there."""
from props import common
from props.common import N, R
from props.c16 import FIND, nodes_in


def pieces(pre, parts):
    """The models of a search in the order of the pattern's parts (relationships by source node)."""
    nodes = nodes_in(pre)
    left = [list(n.relationships) for n in nodes]
    out = []
    i = -1
    for p in parts:
        if isinstance(p, N):
            i += 1
            out.append(nodes[i])
        else:
            out.append(left[i if p.way == ">" else i + 1].pop(0))
    return out


def criteria(h, entries):
    """entries: [(handle, yes dict, no dict)]"""
    YesNo = h.imp("models.wql", "ParsedCriteriaYesNo")
    return h.imp("models.wql", "ParsedCriteria")(
        raw_statement="CRITERIA a.x = 1;", criteria_handle_props={k: YesNo(props_dict_yes_match=dict(y), props_dict_no_match=dict(n)) for k, y, n in entries})


def run(h, parts, entries):
    q = common.statement("FIND", [parts], common.TIGHT) + ";"
    parsed = h.attempt(h.imp(FIND, "parse_find_statement_from_query_string"), q)
    h.check(parsed.ok, f"a valid FIND was not read: {parsed.error}")
    o = h.attempt(h.imp(FIND + ".transform.find_pre", "process_parsed_find"), parsed.value, criteria(h, entries))
    h.check(o.ok, f"a FIND with CRITERIA failed: {o.error}")
    for p, m in zip(parts, pieces(o.value, parts)):
        yes, no = dict(p.value or {}), {}
        for k, y, n in entries:
            if len(p.handle) and h.same(k, p.handle):
                yes.update(y)
                no.update(n)
        h.check(h.same(m.props_dict_yes or {}, yes), "a part of a FIND has other properties than its own and those of its CRITERIA")
        h.check(h.same(m.props_dict_no or {}, no), "a part of a FIND excludes other properties than its CRITERIA says")


SHAPES = ["n", "n>n", "n<n", "n<n>n", "n>n<n", "n>n>n", "n<n<n"]


def fill(h, shape, handles):
    parts = []
    for i, c in enumerate(shape):
        handle = h.text(f"handle{i}", 1, r"\w") + "xyzuv"[i] if handles in ("all", i + 1) else ""
        parts.append(N("ABCDE"[i], handle) if c == "n" else R(c, h.choice("name", ["", "R"]) if i == 1 else "S", handle))
    return parts


def one(h):
    """CRITERIA for any handle (of a part, or of none) on every shape."""
    shape = h.choice("shape", SHAPES if h.deep else ["n", "n>n", "n<n", "n<n>n", "n>n<n"])
    parts = fill(h, shape, h.choice("handles", ["all"] + list(range(1, len(shape) + 1))))
    pt = h.choice("props", ["", "one", "other", "both"] if h.deep else ["", "both"])
    for p in parts:
        if pt:
            p.props, p.value = {"one": ("{x: 1}", {"x": 1}), "other": ("{z: 'q'}", {"z": "q"}), "both": ("{x: 'o', z: 2}", {"x": "o", "z": 2})}[pt]
    k = h.text("criteria for", h.choice("length", [1, 2]), r"\w")
    v = h.int("value")
    w = h.text("text", 1)
    kind = h.choice("kind", ["yes", "no", "both"])
    run(h, parts, [(k, {"x": v} if kind != "no" else {}, {"x": w} if kind == "no" else {"y": w} if kind == "both" else {})])
    h.reach(kind)


def two(h):
    """Two CRITERIA entries, on two parts, on one part and none, or on none."""
    shape = h.choice("shape", SHAPES[1:] if h.deep else ["n>n", "n<n", "n<n>n", "n>n<n"])
    n = len(shape)
    parts = fill(h, shape, "none")
    for i, p in enumerate(parts):
        p.handle = "abcde"[i]
        if i == 0 and h.flag("with props"):
            p.props, p.value = "{x: 1}", {"x": 1}
    k1 = h.text("first for", 1, "[a-f]")
    k2 = h.text("second for", 1, "[a-f]")
    h.differ(k1, k2)
    v = h.int("value")
    run(h, parts, [(k1, {"x": v, "k": "o"}, {"n": 1}), (k2, {"p": [v]}, {"m": True, "n": v})])
    h.reach("two")


def repeated(h):
    """The same CRITERIA and the same FIND used again give the same search (nothing leaks from one to the next)."""
    Find = h.imp(FIND, "parse_find_statement_from_query_string")
    process = h.imp(FIND + ".transform.find_pre", "process_parsed_find")
    v = h.int("value")
    way = h.choice("way", "<>")
    q1 = "FIND (a:A{x: 1})" + ("-[r:R]->" if way == ">" else "<-[r:R]-") + "(b:B);"
    q2 = h.choice("next", ["FIND (a:A);", "FIND (b:B)-[r:R]->(a:A);", "FIND (c:C);", q1])
    k = h.choice("handle", ["a", "b", "r"])
    c = criteria(h, [(k, {"x": v}, {"y": v})])
    first = h.attempt(process, Find(q1), c)
    plain = h.attempt(process, Find(q2))
    again = h.attempt(process, Find(q1), c)
    h.check(first.ok and plain.ok and again.ok, "a FIND with CRITERIA failed")
    h.check(h.same(first.value.dict(), again.value.dict()), "the same FIND and CRITERIA give two different searches")
    for n in nodes_in(plain.value):
        for m in [n] + n.relationships:
            h.check(not m.props_dict_no, "CRITERIA of one FIND exclude properties in another")
    if q2 != q1:
        h.check(not plain.value.left_node.props_dict_yes, "CRITERIA of one FIND are applied to another")
    h.reach(k)


def coincide(h):
    """The same property in the FIND, to match and not to match, with values that may be equal, empty or false."""
    shape = h.choice("shape", ["n", "n>n", "n<n>n"] if not h.deep else SHAPES)
    parts = fill(h, shape, "none")
    at = h.choice("part", list(range(len(shape))))
    for i, p in enumerate(parts):
        p.handle = "abcde"[i]
    if h.flag("own"):
        parts[at].props, parts[at].value = "{x: 0, y: ''}", {"x": 0, "y": ""}
    v = h.int("value")
    vals = [v, 0, "", False, None, [], "x", 1.0, [v, None]]
    kind = h.choice("kind", ["both", "yes", "no", "neither"])
    yes = {h.choice("yes name", ["x", "y", "z"]): h.choice("yes", vals)} if kind in ("both", "yes") else {}
    no = {h.choice("no name", ["x", "z"]): h.choice("no", [v, 0, None, ""])} if kind in ("both", "no") else {}
    entry = ("abcde"[at], yes, no)
    run(h, parts, [entry] + ([("q", {"x": 5}, {"y": 5})] if h.flag("another") else []))
    h.reach(kind)


CASES = [
    dict(name="one", fn=one, weight=2, bounds="5 (thorough 7) patterns, handles of any 2 characters on all or any one part, CRITERIA for any handle of 1 or 2 characters, any integer and character values"),
    dict(name="two", fn=two, bounds="4 (thorough 6) patterns, CRITERIA for any two of 6 handles"),
    dict(name="repeated", fn=repeated, bounds="4 second FINDs, 3 handles, 2 directions, any integer"),
    dict(name="coincide", fn=coincide, bounds="3 (thorough 7) patterns, any part, 3 names with 9 values to match and 2 names with 4 values not to match, own properties or none, any integer"),
]

"""Scalar property values come back exactly as written, with their type."""
from props import big, common
from props.common import N, R

SPACES = "\t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2003\u2028\u2029\u3000"
LISTED = r"[\w .@,]"        # what a quoted string in a list may always hold
TEXT = r"[\w .@,:\r%s]" % SPACES       # and any other quoted string


def place(h, name, props, value):
    """A statement with the property map on a node or on a relationship, and where to find it again."""
    where = h.choice(name, ["node", "rel", "right", "left rel"])
    if where == "node":
        parts = [N("A", "", props)]
    elif where == "rel":
        parts = [N("A"), R(">", "R", "", ":", props), N("B", "", "{y: 1}")]
    elif where == "right":
        parts = [N("A", "", "{y: 1}"), R(">", "R", "", ":", "{z: 2}"), N("B", "b", props)]
    else:
        parts = [N("A"), R(">", "R"), N("B"), R("<", "", "r", ":", props), N("C")]

    def stored(records):
        key = {"node": "0", "rel": "0", "right": "1", "left rel": "2"}[where]
        rec = records[key]
        return rec["properties"] if where in ("node", "right") else rec["relations"][0]["properties"]
    return common.make(parts), stored


def check(h, props, value, where="place"):
    q, stored = place(h, where, props, value)
    db = common.Db(h)
    o = db.run(q)
    h.check(o.ok, f"a valid property was refused: {o.error}")
    got = stored(db.records())
    h.check(h.same(got, value), "a property is not stored as it was written")
    h.observe("stored", got)


def gap(h):
    return h.choice("gap", ["", " ", "  "])


def strings(h):
    n = h.choice("length", [0, 1, 2, 4] + ([8, 12] if h.deep else []))
    s = h.text("text", n, TEXT)
    for w in ("true", "True", "false", "False", "Null", "None", "none"):
        if len(w) == n:
            h.differ(s, w)
    q = h.choice("quote", ["'", '"'])
    check(h, "{s: " + q + s + q + "}", {"s": s})
    h.reach("string")


def both_quotes(h):
    """The other kind of quote is part of the text."""
    a, b = h.text("before", 1, TEXT), h.text("after", h.choice("after length", [0, 1]), TEXT)
    q, o = h.choice("quotes", [("'", '"'), ('"', "'")])
    s = a + o + b
    check(h, "{s:" + q + s + q + gap(h) + "}", {"s": s})
    h.reach("quotes")


LOOKALIKES = ["12", "1.5", "1", "null", "nulls", "TRUE", "0", "007", "1_0", "nan", "inf", "trues", "atrue", "[]", "None_", "1.", "truefalse",
              " true", "false ", "NULL", "1 2"]


def lookalikes(h):
    """A quoted text stays a text, also if it looks like something else."""
    s = h.choice("text", [x for x in LOOKALIKES if x != "[]"])
    q = h.choice("quote", ["'", '"'])
    check(h, "{s:" + gap(h) + q + s + q + gap(h) + "}", {"s": s})
    h.reach("lookalike")


def integers(h):
    n = h.choice("digits", [1, 2, 3, 9, 19, 30])
    d = h.text("int", n, "[0-9]")
    check(h, "{n" + gap(h) + ":" + gap(h) + d + gap(h) + "}", {"n": int(d)})
    h.reach("int")


def floats(h):
    a, b = h.text("whole", h.choice("whole digits", [1, 2, 4, 8, 17]), "[0-9]"), h.text("part", h.choice("part digits", [1, 2, 3, 12]), "[0-9]")
    if h.flag("whole number"):
        b = "0" * len(b)
    check(h, "{f:" + gap(h) + a + "." + b + gap(h) + "}", {"f": float(a + "." + b)})
    h.reach("float")


def keywords(h):
    w, v = h.choice("keyword", [("true", True), ("false", False), ("null", None)])
    check(h, "{k" + gap(h) + ":" + gap(h) + w + gap(h) + "}", {"k": v})
    h.reach(w)


def bare(h):
    """Texts without quotes."""
    s = h.text("first", 1, "[a-z_]")
    form = h.choice("form", ["word", "address", "version"])
    if form == "word":
        s += h.text("text", h.choice("length", [0, 1, 2]), r"[\w]")
    else:
        s += h.text("sign", 1, "[@.]") + {"address": "bar.net", "version": "1.2.3"}[form] + h.text("last", 1, r"\w")
    check(h, "{s:" + gap(h) + s + gap(h) + "}", {"s": s})
    h.reach("bare")


def several(h):
    """Properties do not run into each other: any two or three kinds side by side, any names."""
    def one(i):
        k = h.choice(f"kind{i}", ["int", "float", "true", "null", "'", '"', "list"])
        name = h.text(f"name{i}", 1, r"\w")
        if k == "int":
            d = h.text(f"digit{i}", 1, "[0-9]")
            return name, d, int(d)
        if k == "float":
            return name, "10.25", 10.25
        if k in ("true", "null"):
            return name, k, {"true": True, "null": None}[k]
        if k == "list":
            return name, "[1, 'a', null]", [1, "a", None]
        s = h.text(f"text{i}", 1, TEXT)
        return name, k + s + k, s
    items = [one(i) for i in range(3 if h.deep else 2)] + [("last", "'end'", "end")]
    for a in range(len(items)):
        for b in range(a):
            h.differ(items[a][0], items[b][0])
    sep = h.choice("separator", [", ", ",", " , "])
    sp = h.choice("around", ["", " "])
    props = "{" + sp + sep.join(n + ":" + sp + t for n, t, _ in items) + sp + "}"
    db = common.Db(h)
    o = db.run("MAKE (:A " + props + ");")
    h.check(o.ok, f"valid properties were refused: {o.error}")
    got = db.records()["0"]["properties"]
    h.check(h.same(got, {n: v for n, _, v in items}), "properties are not stored as they were written")
    h.reach("several")


def long(h):
    """Long texts, numbers, names and words."""
    k = h.choice("kind", ["text", "digits", "float", "name", "bare"])
    if k in ("text", "bare", "name"):
        w = big.long_word(h, k, TEXT if k == "text" else "[A-Za-z_]")
        p, v = {"text": ("{s: '" + w + "'}", {"s": w}), "bare": ("{s: " + w + "}", {"s": w}), "name": ("{" + w + ": 1}", {w: 1})}[k]
    elif k == "digits":
        d = h.text("first", 1, "[1-9]") + "0123456789" * h.choice("tens", [2, 4, 10, 30]) + h.text("last", 1, "[0-9]")
        p, v = "{n: " + d + "}", {"n": int(d)}
    else:
        d = h.choice("float", ["3.141592653589793", "0.1000000000000001", "123456789.125", "0.000001", "1234567890123.5", "99999.99999", "0.5", "10.0", "1.10", "0." + "3" * 60, "1" * 60 + ".5", "2." + "0" * 50 + "1"])
        p, v = "{f: " + d + "}", {"f": float(d)}
    check(h, p, v)
    h.reach(k)


def crowd(h):
    """Many properties: each keeps its own name and value."""
    n = h.choice("properties", [5, 8, 10, 11, 17, 33, 65, 101])
    at = h.choice("special", [0, n // 2, n - 1])
    c, d = h.text("text", 1, TEXT), h.text("digit", 1, "[0-9]")
    kinds = h.choice("kinds", ["mixed", "texts", "numbers"])
    items = []
    for i in range(n):
        t, v = {"mixed": [("%d" % i, i), ("'v%d, x'" % i, "v%d, x" % i), ("null", None), ("[%d, 'a']" % i, [i, "a"]), ("true", True), ("%d.5" % i, i + .5)],
                "texts": [('"v %d"' % i, "v %d" % i)], "numbers": [("%d" % i, i)]}[kinds][i % (6 if kinds == "mixed" else 1)]
        if i == at:
            t, v = ("'" + c + "'", c) if kinds == "texts" else (d, int(d))
        items.append((h.choice("names", ["p%d", "%d", "p_%d_long_name"]) % i if i == 0 else items[0][0].replace("0", str(i)), t, v))
    check(h, "{" + ", ".join(f"{a}: {t}" for a, t, _ in items) + "}", {a: v for a, _, v in items})
    h.reach(kinds)


def swarm(h):
    """Hundreds of properties."""
    n = h.choice("properties", [260, 300])
    d = h.text("digit", 1, "[0-9]")
    items = [("p%d" % i, "%d" % i, i) for i in range(n - 1)] + [("last", d, int(d))]
    db = common.Db(h)
    o = db.run("MAKE (:A {" + ", ".join(a + ": " + b for a, b, _ in items) + "});")
    h.check(o.ok, f"a valid property was refused: {o.error}")
    h.check(h.same(db.records()["0"]["properties"], {a: v for a, _, v in items}), "a property is not stored as it was written")
    h.reach("stored")


NAMES = ["label", "props", "properties", "wn", "id", "handle", "name", "true", "null", "none", "created_at", "node_label", "relations",
         "MAKE", "FIND", "REPORT", "criteria", "self", "class", "dict", "copy", "0", "00", "x1", "X", "__class__", "_", "ab_", "float", "list"]


def names(h):
    """Properties may have any name."""
    a, b = h.choice("name", NAMES) + h.text("more", h.choice("more of it", [0, 1]), r"\w"), h.choice("other", ["z", "Z9"])
    h.differ(a, b)
    v, w = h.choice("value", [("1", 1), ("'x'", "x"), ("[1, 'a']", [1, "a"]), ("null", None)])
    if h.flag("last"):
        check(h, "{" + b + ": 2, " + a + ": " + v + "}", {b: 2, a: w})
    else:
        check(h, "{" + a + ": " + v + ", " + b + ": 'y'}", {a: w, b: "y"})
    h.reach("named")


CASES = [
    dict(name="strings", fn=strings, weight=2, bounds="quoted strings of 0 to 4 (thorough 12) characters out of word characters, '.', '@', ',', ':' and any whitespace but the newline; both quotes; nodes and relationships"),
    dict(name="both_quotes", fn=both_quotes, bounds="one quote of the other kind inside"),
    dict(name="lookalikes", fn=lookalikes, bounds="20 texts that look like numbers or keywords"),
    dict(name="integers", fn=integers, bounds="1 to 30 digits"),
    dict(name="floats", fn=floats, bounds="1 to 17 digits before and 1 to 12 after the point"),
    dict(name="keywords", fn=keywords, bounds="true, false, null, whitespace around them"),
    dict(name="bare", fn=bare, bounds="unquoted words of 1 to 3 characters, addresses and version numbers with @ and . in them"),
    dict(name="several", fn=several, weight=2, bounds="3 (thorough 4) properties of 7 kinds, 1-character names and texts, 3 separators"),
    dict(name="long", fn=long, bounds="texts, names and words of 16 to 300 characters, integers of 22 to 302 digits, 12 decimal numbers"),
    dict(name="crowd", fn=crowd, bounds="5 to 101 properties in one map, one value symbolic"),
    dict(name="swarm", fn=swarm, bounds="260 and 300 properties in one map, one digit symbolic"),
    dict(name="names", fn=names, bounds="30 property names with <= 1 more character, 4 kinds of values"),
]

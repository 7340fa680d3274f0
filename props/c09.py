"""No property value is stored as something other than what was written: what cannot be read is refused."""
from props.edits import Reader, Unreadable, Unspecified
from props import common

PLACES = [("{x: ", "}"), ("{x: '", "'}"), ('{x: "', '"}'), ("{x: 1", "}"), ("{x: 1.", "}"), ("{x: tr", "}"), ("{x: 'a'", "}"),
          ("{a: 1, x: ", "}"), ("{x: ", ", z: 'e'}"), ("{x: 'a", ", z: 'e'}")]
LISTS = [("{x: [", "]}"), ("{x: ['", "']}"), ("{x: [1, ", "]}"), ("{x: ['a'", "]}"), ("{x: [", "'a']}"), ("{x: [1", ", 2]}"), ("{x: [1]", "}"),
         ("{x: [1, 'b'", ", 'c'], y: 2}"), ("{x: [true", "]}")]
NAMES = [("{", ": 1}"), ("{x", ": 1}"), ("{x: 1, ", ": 2}"), ("{x: 1", "y: 2}"), ("", "{x: 1}"), ("{x: 1}", ""), ("{x: 1", ""), ("", "x: 1}")]


def judge(h, props):
    where = h.choice("where", ["node", "rel"]) if h.deep else "node"
    text = "(:A" + props + ")" if where == "node" else "(:A)-[:R" + props + "]->(:B)"
    for c in props:
        h.differ(c, ";")
    db = common.Db(h)
    o = db.run("MAKE " + text + ";")
    h.observe("ok", o.ok)
    if not o.ok:
        h.reach("refused")
        return
    r = Reader(text)
    try:
        r.read()
    except Unspecified:
        return
    except Unreadable:
        h.check(False, "a property was accepted that cannot be read")
    rec = db.records()
    h.check(len(rec) == len(r.nodes), "the statement was read as another number of nodes")
    got = rec["0"]["properties"] if where == "node" or not r.rels else rec["0"]["relations"][0]["properties"]
    want = r.nodes[0][1] if where == "node" or not r.rels else r.rels[0][3]
    h.check(h.same(rec["0"]["node_label"], r.nodes[0][0]), "the label was read as another one")
    h.check(h.same(got, want), "a property is stored as something other than what was written")
    h.reach("stored")


def hole(h, places, sizes):
    a, b = h.choice("place", places)
    judge(h, a + h.text("hole", h.choice("size", sizes)) + b)


def scalars(h):
    hole(h, PLACES, [1, 2, 3] if h.deep else [1, 2])


def lists(h):
    hole(h, *h.choice("sizes", [(LISTS, [1]), (LISTS if h.deep else LISTS[:4], [2, 3] if h.deep else [2])]))


def names(h):
    hole(h, NAMES, [1, 2, 3] if h.deep else [1, 2])


def plain(h):
    """Longer values from a few telling characters."""
    a, b = h.choice("place", [("{x: ", "}"), ("{x: [", "]}"), ("{x: 'a", "}"), ("{x: ['a", "]}")])
    n = h.choice("size", [3, 4] if not h.deep else [3, 4, 5, 6])
    judge(h, a + h.text("hole", n, "['\",1a. ]" if n <= 3 else "[',1 ]") + b)


def words(h):
    """Words of the language in other spellings, alone or with something attached."""
    w = h.choice("word", ["True", "False", "None", "none", "Null", "true", "null", "nUll", "1e5"] +
                 (["TRUE", "false", "NaN", "Infinity", "1_0", "0x1"] if h.deep else []))
    c = h.text("attached", h.choice("attached length", [0, 1]))
    v = h.choice("order", [w + c, c + w])
    a, b = h.choice("place", [("{x: ", "}"), ("{x: [", "]}"), ("{x: '", "'}"), ("{x: ['", "']}"), ("{x: [1, ", ", 2]}")])
    judge(h, a + v + b)


def long(h):
    """Numbers and texts of many characters: none is cut, rounded or turned into another."""
    form = h.choice("form", ["%", "0.%", "1.%", "%.0", "%.5", "0.000001%", "'%'", "12345678.%", "%0000000000",
                             "0.123456789012%", "3.14159265358979%", "1%.1000000000001", "1234567890123%", "12345678901234567890123%", "0.1234567%89012",
                             "%" + "7" * 308 + ".5", "%" + "9" * 307 + ".0", "%" + "0" * 400 + ".0", "1e30%", "%" + "1" * 320])
    n = h.choice("digits", [1] if len(form) > 11 else [1, 9, 17] if not h.deep else [1, 6, 9, 13, 17, 22])
    d = h.text("digits", n, "[0-9]")
    v = form.replace("%", d)
    a, b = h.choice("place", [("{x: ", "}"), ("{x: [", "]}"), ("{x: [1, ", ", true]}"), ("{x: 1, y: ", "}")])
    judge(h, a + v + b)


def long_names(h):
    """Property names of many characters: two that differ in one character stay apart, and none is cut."""
    n = h.choice("length", [15, 31, 63, 100, 255] if not h.deep else [15, 31, 40, 63, 64, 100, 127, 255, 1000])
    a, b = h.text("first end", 1, r"\w"), h.text("second end", 1, r"\w")
    two = h.choice("form", ["{%a: 1, %b: 2}", "{%a: 'x', b: 2}", "{b: [1], %a: true}", "{%a: null,%b: 1.5}"])
    h.differ(a, b)
    at = h.choice("at", ["end", "front"])
    w = "x" * n
    judge(h, two.replace("%a", w + a if at == "end" else a + w).replace("%b", w + b if at == "end" else b + w))


QUICK_S = 50

CASES = [
    dict(name="scalars", fn=scalars, weight=2, bounds="10 places, 1 or 2 (thorough 3) arbitrary characters"),
    dict(name="lists", fn=lists, weight=2, bounds="9 places, 1 arbitrary character; 4 (thorough 9) places, 2 (thorough 3)"),
    dict(name="names", fn=names, bounds="8 places, 1 or 2 (thorough 3) arbitrary characters"),
    dict(name="plain", fn=plain, bounds="4 places, 3 or 4 (thorough 6) characters of quotes, comma, digit, letter, point, space"),
    dict(name="words", fn=words, bounds="9 (thorough 15) words with <= 1 arbitrary character attached, 5 places"),
    dict(name="long_names", fn=long_names, bounds="names of 16 to 256 (thorough 1001) characters with any first or last one, one or two that differ there, 4 forms"),
    dict(name="long", fn=long, bounds="9 forms of numbers of 1, 9 or 17 (thorough up to 22) any digits and 11 of up to 400 digits with any one, in 4 places"),
]

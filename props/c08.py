"""List property values come back exactly as written, element by element, with their types and order."""
from props import big
from props.c07 import LISTED as TEXT, SPACES, check, gap

ELEMENTS = ["int", "float", "'", '"', "true", "false", "null"]


def element(h, i, kinds=ELEMENTS, sizes=(1,)):
    k = h.choice(f"kind{i}", kinds)
    if k == "int":
        d = h.text(f"digit{i}", 1, "[1-9]") + h.text(f"digits{i}", h.choice(f"more digits{i}", [0, 2]) if i == 0 else 0, "[0-9]")
        return d, int(d)
    if k == "float":
        d = h.text(f"tenth{i}", 1, "[0-9]")
        return "3." + d, float("3." + d)
    if k in ("true", "false", "null"):
        return k, {"true": True, "false": False, "null": None}[k]
    s = h.text(f"text{i}", h.choice(f"size{i}", list(sizes)), TEXT)
    return k + s + k, s


def mixed(h):
    """Any two (thorough: three) elements of any kinds next to each other, with any layout."""
    items = [element(h, i) for i in range(h.choice("length", [1, 2, 3] if h.deep else [1, 2]))]
    sep = h.choice("separator", [", ", ",", "  ,  "])
    sp = h.choice("around", ["", " "])
    value = "[" + sp + sep.join(t for t, _ in items) + sp + "]"
    check(h, "{l:" + h.choice("gap", ["", " "]) + value + "}", {"l": [v for _, v in items]})
    h.reach("mixed")


def texts(h):
    """Texts in lists: any allowed characters, empty, and the words of the language inside them."""
    s = h.text("text", h.choice("length", [0, 1, 3] + ([6, 9] if h.deep else [])), TEXT)
    q = h.choice("quote", ["'", '"'])
    more, v = h.choice("next", [("", []), (", 1", [1]), (", 'b'", ["b"])])
    value, want = "[" + q + s + q + more + "]", [s] + v
    check(h, "{l: " + value + "}", {"l": want})
    h.reach("text")


WORDS = ["true", "false", "null", "True", "None", "a true b", "nullable", "xfalse", "true null", "untrue", "[", "1", "1.5", "", "o", "a null"]


def words(h):
    """Words of the language inside texts of a list are left alone."""
    w = h.choice("word", [x for x in WORDS if x != "["]) + h.text("more", h.choice("more length", [0, 1]), r"[\w .]")
    q = h.choice("quote", ["'", '"'])
    k, v = h.choice("beside", [("true", True), ("null", None), ("7", 7), ("'true'", "true")])
    first = h.choice("order", [True, False])
    value = "[" + (q + w + q + ", " + k if first else k + "," + q + w + q) + "]"
    check(h, "{l: " + value + "}", {"l": [w, v] if first else [v, w]})
    h.reach("words")


def spaces(h):
    """Whitespace of any kind in a text of a list, also at its ends."""
    a, b = h.text("before", h.choice("before length", [0, 1]), r"\w"), h.text("after", h.choice("after length", [0, 1]), r"\w")
    s = a + h.text("space", h.choice("spaces", [1, 2] if h.deep else [1]), "[ " + SPACES + "]") + b
    q = h.choice("quote", ["'", '"'])
    v, w = h.choice("list", [(q + s + q, [s]), ("1, " + q + s + q, [1, s]), (q + s + q + " , null", [s, None]), ("'x'," + q + s + q + ",'y'", ["x", s, "y"])])
    check(h, "{l: [" + v + "]}", {"l": w})
    h.reach("spaces")


def both_quotes(h):
    q, o = h.choice("quotes", [("'", '"'), ('"', "'")])
    s = h.text("before", 1, r"[\w .@]") + o + h.text("after", h.choice("after length", [0, 1]), r"[\w .@]")
    check(h, "{l: [" + q + s + q + "]}", {"l": [s]})
    h.reach("quotes")


def punctuation(h):
    """Commas inside the texts of a list do not split them."""
    s = h.text("text", 1, r"[\w .@,]") + h.choice("middle", [",", ", ", ",,"]) + h.text("end", 1, r"[\w ,]")
    q = h.choice("quote", ["'", '"'])
    check(h, "{l: [" + q + s + q + ", 2]}", {"l": [s, 2]})
    h.reach("punctuation")


def beside(h):
    """Lists next to other properties, and several lists."""
    a, va = element(h, 0)
    b, vb = element(h, 1, ["int", "'", "null"])
    k = h.choice("layout", ["list first", "list last", "two lists", "between"])
    if k == "list first":
        p, v = "{l: [" + a + ", " + b + "], n: 1}", {"l": [va, vb], "n": 1}
    elif k == "list last":
        p, v = "{n: 'x', l: [" + a + ", " + b + "]}", {"n": "x", "l": [va, vb]}
    elif k == "two lists":
        p, v = "{l: [" + a + "], m: [" + b + ", " + a + "]}", {"l": [va], "m": [vb, va]}
    else:
        p, v = "{n: 1.5, l: [" + a + "], m: null, o: " + b + "}", {"n": 1.5, "l": [va], "m": None, "o": vb}
    check(h, p, v)
    h.reach(k)


def long(h):
    """Longer lists of one kind."""
    n = h.choice("length", [4, 8] + ([16] if h.deep else []))
    k = h.choice("kind", ["int", "'", "true", "null", "float"])
    items = [element(h, i + 1, [k]) if i in (0, n - 1) or k != "'" or h.deep and i < 4 else ("'e%d'" % i, "e%d" % i) for i in range(n)]
    check(h, "{l: [" + ", ".join(t for t, _ in items) + "]}", {"l": [v for _, v in items]})
    h.reach(k)


def huge(h):
    """Lists of many elements and long texts."""
    if h.flag("text"):
        w = big.long_word(h, "text", TEXT)
        check(h, "{l: [1, '" + w + "', 2]}", {"l": [1, w, 2]})
        h.reach("text")
        return
    n = h.choice("length", [10, 11, 17, 21, 33, 65, 101, 260, 1001])
    kind = h.choice("kind", ["mixed", "equal", "texts", "numbers"] if n < 200 else ["mixed"])
    at = h.choice("special", [0, n // 2, n - 1] if n < 200 else [n - 1])
    d = h.text("digit", 1, "[0-9]")
    items = []
    for i in range(n):
        t, v = {"mixed": [("%d" % i, i), ("'e%d, x'" % i, "e%d, x" % i), ("null", None), ("true", True), ("%d.5" % i, i + .5), ("false", False), ('"%d"' % i, str(i))][i % 7],
                "equal": ("1", 1), "texts": ("'e%d'" % i, "e%d" % i), "numbers": ("%d" % (n - i), n - i)}[kind]
        items.append((d, int(d)) if i == at else (t, v))
    check(h, "{l: [" + ", ".join(t for t, _ in items) + "]}", {"l": [v for _, v in items]})
    h.reach(kind)


def same(h):
    """Elements, lists and properties that are the same as others are kept each."""
    k = h.choice("what", ["elements", "lists", "list and scalar", "node and relationship"])
    a, va = element(h, 0)
    b, vb = element(h, 1)
    if k == "elements":
        check(h, "{l: [" + ", ".join([a, b, a, a]) + "]}", {"l": [va, vb, va, va]})
    elif k == "lists":
        check(h, "{l: [" + a + ", " + b + "], m: [" + a + ", " + b + "], n: [" + b + "]}", {"l": [va, vb], "m": [va, vb], "n": [vb]})
    elif k == "list and scalar":
        check(h, "{l: [" + a + "], m: " + a + ", n: [" + a + "]}", {"l": [va], "m": va, "n": [va]})
    else:
        check(h, "{y: [" + a + "], z: [" + b + "]}", {"y": [va], "z": [vb]})
    h.reach(k)


CASES = [
    dict(name="mixed", fn=mixed, weight=2, bounds="1 or 2 (thorough 3) elements of 7 kinds, 3 separators, whitespace around"),
    dict(name="texts", fn=texts, bounds="texts of 0 to 3 (thorough 9) characters"),
    dict(name="spaces", fn=spaces, bounds="texts with 1 (thorough 2) whitespace characters of any kind (no line feed or carriage return) at any place, 4 lists"),
    dict(name="words", fn=words, bounds="15 words with <= 1 more character, beside 4 kinds"),
    dict(name="both_quotes", fn=both_quotes, bounds="one quote of the other kind inside"),
    dict(name="punctuation", fn=punctuation, bounds="commas in texts of 3 or 4 characters"),
    dict(name="beside", fn=beside, bounds="4 layouts of lists and other properties"),
    dict(name="long", fn=long, bounds="4 or 8 (thorough 16) elements of one kind"),
    dict(name="huge", fn=huge, bounds="lists of 10 to 1001 elements, one of them symbolic; texts of 16 to 300 characters"),
    dict(name="same", fn=same, bounds="2 elements of 7 kinds repeated in 4 ways"),
]

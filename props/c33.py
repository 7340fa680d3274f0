"""MAKE and FIND read a pattern alike: what one of them accepts the other accepts, and what was made is found."""
QUICK_S = 110

from props import common, rich
from props.edits import edited

BASES = ["(a:Ab{n: 12, s: 'x y'})", "(a:A)-[r:RE{n: 1}]->(b:B)", "(:A)<-[:R]-(:B)-[:S]->(:C)", '(:A{l: [1, "a"], f: 1.5, b: true, z: null})', "(:A) <- [ :R ] - (b:B)",
         "(:A)-[]->(b:B)", "(a:A)<-[r:]-(:B{n: 1})", "(:A{s: 'x  y', t: \"  \"})<-[:R{s: ' z '}]-(:A)"]
FIND = "wiggle_query_language.clauses.find"


def alike(h, p, records):
    """The search of a FIND asks for what a MAKE of the same pattern has stored."""
    o = h.attempt(h.imp(FIND, "parse_find_statement_from_query_string"), "FIND " + p + ";")
    h.check(o.ok and o.value is not None, "a FIND that was accepted is not read")
    o = h.attempt(h.imp(FIND + ".transform.find_pre", "process_parsed_find"), o.value)
    h.check(o.ok, "a FIND that was accepted is not turned into a search")
    nodes = [n for n in (o.value.left_node, o.value.middle_node, o.value.right_node) if n is not None]
    h.check(len(nodes) == len(records), "the search has another number of nodes than was stored")
    each(h, nodes, list(records.values()), node_alike)


def each(h, xs, ys, f):
    h.check(h.all_of([h.any_of([f(h, x, y) for y in ys]) for x in xs]), "a search asks for something else than the same pattern stores")
    h.check(h.all_of([h.any_of([f(h, x, y) for x in xs]) for y in ys]), "a pattern stores something that its search does not ask for")


def node_alike(h, n, r):
    rels = r["relations"] or []
    if len(rels) != len(n.relationships):
        return False
    return h.all_of([h.same(n.node_label, r["node_label"]), h.same(n.props_dict_yes or None, r["properties"] or None)]
                    + [h.any_of([rel_alike(h, x, y) for y in rels]) for x in n.relationships]
                    + [h.any_of([rel_alike(h, x, y) for x in n.relationships]) for y in rels])


def rel_alike(h, x, y):
    return h.all_of([h.same(x.rel_name or "", y["relationship_name"] or ""), h.same(x.props_dict_yes or None, y["properties"] or None)])


def judge(h, p):
    a, b = common.Db(h, wn="0", name="a"), common.Db(h, wn="0", name="b")
    m = a.run("MAKE " + p + ";")
    f, _ = b.run_out("FIND " + p + ";")
    h.check(m.ok == f.ok, "a pattern is accepted in a MAKE and refused in a FIND, or the other way round")
    if not m.ok:
        h.reach("refused")
        return
    alike(h, p, a.records())
    r, out = a.run_out("FIND " + p + ";")
    h.check(r.ok and "No results" not in out, "what was just made is not found")
    o = b.run("MAKE " + p + ";FIND " + p + ";")
    h.check(o.ok, "a MAKE and a FIND of the same pattern are refused together")
    h.reach("accepted")


def one_pattern(h, p):
    """The semicolon ends a statement, and a comma outside of properties separates patterns (a FIND has one)."""
    inside = False
    for c in p:
        h.differ(c, ";")
        if c == "{":
            inside = True
        elif c == "}":
            inside = False
        elif not inside:
            h.differ(c, ",")
    return p


def one_edit(h):
    """Every text one edit away from sound patterns."""
    p = edited(h, h.choice("pattern", BASES))
    judge(h, one_pattern(h, p))


def cut(h):
    """A stretch of the pattern is missing."""
    base = h.choice("pattern", BASES)
    i = h.choice("from", list(range(len(base))))
    j = h.choice("to", [k for k in range(i + 1, len(base) + 1)][: (60 if h.deep else 8)])
    judge(h, one_pattern(h, base[:i] + base[j:]))


def drawn(h):
    """Sound patterns of all shapes whose parts coincide in any way: found again by the same pattern, with and without properties."""
    g = rich.graph(h, twos=[])
    p = g.text[len("MAKE "):-1]
    db = common.Db(h, wn="3", labels=["Z"], names=["Z"], name="a")
    h.check(db.run("MAKE " + p + ";").ok, "a sound pattern is refused")
    alike(h, p, db.records())
    o, out = db.run_out("FIND " + p + ";")
    h.check(o.ok and "No results" not in out, "what was just made is not found")
    for x in g.patterns[0]:
        x.props = ""
    o, out = db.run_out("FIND " + common.pattern(g.patterns[0]) + ";")
    h.check(o.ok and "No results" not in out, "what was just made is not found without its properties")
    h.reach("drawn")


def drawn_wrong(h):
    """Relationships of any direction, name and dashes, sound or not."""
    rels = []
    for i in range(1 if not h.flag("two") else 2):
        name = h.choice(f"name{i}", ["", ":", ":R", ":r", ":Rr", "q:R", "q", "R", ":1", ":_"])
        a, b = h.choice(f"arrow{i}", [("-", "-"), ("<-", "-"), ("-", "->"), ("<-", "->"), ("--", "-->"), ("->", "-"), ("-", "<-"), ("", "->"), ("", "")])
        rels.append(a + "[" + name + h.choice(f"props{i}", ["", "{n: 1}"] if h.deep or not i else [""]) + "]" + b)
        if i:
            h.assume("q" not in rels[0] + name)
    p = "(:A)" + "(b:B)".join(rels) + "(:C)"
    judge(h, p)


def texts(h):
    """Whitespace, quotes and characters of every kind inside of texts and between the parts."""
    w = h.text("inside", h.choice("length", [1, 2] if not h.deep else [1, 2, 3]), r"[^\"'\\;#%&*${}()\[\],:<>]")
    where = h.choice("where", ["{s: '%s'}", '{s: "a%sb"}', "{l: ['%s', 1]}", "{n: 1, s: 'a %s', b: true}"])
    at = h.choice("at", ["(:A{})", "(:A)-[:R{}]->(:B)", "(:A)<-[r:R]-(b:B{})", "(:A) -[:R]-> (:B) <-[:S {} ]- (:C)"])
    judge(h, at.replace("{}", where.replace("%s", w, 1)))


def long(h):
    """Long words, values and lists."""
    n = h.choice("length", [33, 65, 129, 256, 300])
    c = h.text("end", 1, "[A-Z0-9]")
    w = "X" * (n - 1) + c
    d = h.text("digits", 2, "[1-9]")
    at = h.choice("at", ["(:%)", "(%:A)", "(:A)-[:%]->(:B)", "(:A)<-[%:R]-(:B)", "(:A{%: 1})", "(:A{s: '%'})", "(:A)-[:R]->(:%)<-[:%Y]-(:%Z)",
                         "(:A{n: #})", "(:A{f: 1.#})", "(:A{l: [@]})", "(:A)-[:R{l: [@], s: '%'}]->(:B)", "(:A{@@})", "(:A)" + "-" * 300 + "[:R]->(:B)", "(:A" + " " * 300 + ")"])
    at = at.replace("@@", ", ".join(f"p{i}: {i}" for i in range(n // 3)) + ", p: " + d).replace("@", ", ".join(str(i) for i in range(n // 3)) + ", " + d)
    judge(h, at.replace("%", w).replace("#", "1" * (n - 2) + d if "f:" not in at else d + "1" * 12))


CASES = [
    dict(name="long", fn=long, bounds="words of 33 to 300 characters, lists and property maps of 11 to 100 entries, numbers of as many digits, with any end, in 14 places"),
    dict(name="one_edit", fn=one_edit, weight=3, bounds="8 patterns, every position, any character replaced or inserted; deletions, swaps and doublings"),
    dict(name="drawn_wrong", fn=drawn_wrong, bounds="one or two relationships of 9 arrows and 10 names, sound or not, with or without properties"),
    dict(name="cut", fn=cut, bounds="8 patterns, any stretch of <= 8 characters removed"),
    dict(name="texts", fn=texts, bounds="4 places inside a text of any 1 or 2 (thorough 3) characters but quotes, brackets and punctuation, at 4 places of patterns"),
    dict(name="drawn", fn=drawn, bounds=rich.BOUNDS),
]

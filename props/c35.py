"""A refusal says what is refused: the error, and what the shell prints of it, names the offending part."""
from props import common
from props.c06 import some

SHELL = "wiggle_shell.wiggleshell"
GOOD = ["", "MAKE (:Z);", "MAKE (z:Z{a: 1})-[:Y]->(:X{b: 'c'});"]


def says(h, q, parts, what, also=()):
    """The query is refused and the message has all of the parts."""
    o = some(h).run(q)
    h.check(not o.ok, f"{what} was accepted")
    text = str(o.exc)
    if h.choice("through", ["query", "shell"]) == "shell":
        o, out, left = h.console(h.imp(SHELL, "start_wiggle_shell"), ["n", "g", q, "q"])
        h.check(o is not None and o.ok and left == 0, "a line ended the shell, or q did not")
        h.check(text in out, "the shell does not print why a line is refused")
    for p in parts:
        h.check(p in text, f"{what} is refused without naming it")
    h.reach(what)


def illegal(h):
    """An illegal character anywhere inside the parentheses."""
    q = h.choice("query", ["MAKE (a:Ab{n: 12, s: 'x y'});", "MAKE (:A)-[r:RE{l: [1, 'a']}]->(b:B);", "FIND (a:A)<-[:R]-(:B{s: \"x\"});"])
    i = h.choice("at", list(range(q.index("(") + 1, len(q) - 1)))
    c = h.text("character", 1, "[#%&*$]")
    says(h, h.choice("before", GOOD) + q[:i] + c + q[i:], [c], "an illegal character")


def arrow(h):
    """A relationship without direction, or with two."""
    n = h.text("name", h.choice("length", [1, 2]), "[A-Z]")
    a, b = h.choice("arrow", [("-", "-"), ("<-", "->"), ("--", "-"), ("<--", "-->")])
    k = h.choice("handle", ["", "r", "rel "])
    rel = a + "[" + k + ":" + n + "]" + b
    pat = h.choice("pattern", ["(:A)%(:B)", "(:A)-[:Q]->(:C)%(:B)", "(a:A{x: 1})%(b:B)<-[:Q]-(:C)", "(:C), (:A)%(:B)"])
    if h.choice("word", ["MAKE ", "FIND "]) == "FIND ":
        h.assume("," not in pat)
        q = "FIND " + pat.replace("%", rel) + ";"
    else:
        q = h.choice("before", GOOD) + "MAKE " + pat.replace("%", rel) + ";"
    says(h, q, [n, a + "[", "]" + b], "a relationship without one direction")


def name(h):
    """A relationship name that is not upper case: the name and what it should be."""
    n = h.text("first", h.choice("before the letter", [0, 1]), "[A-Z]") + h.text("letter", 1, "[a-z]") + h.text("last", h.choice("after it", [0, 1]), "[A-Z_0-9]")
    pat = h.choice("pattern", ["(:A)-[:%]->(:B)", "(:A)<-[r:%{x: 1}]-(:B)", "(:A)-[:Q]->(:C)-[:%]->(:B)", "(:C), (:A)-[:%]->(:B)"])
    form = h.choice("form", ["%", "%_of_it", "is_part_%", "IS_PART_%_b", "a__%__", "%" + "x" * 30, "r2_d2_%"])
    n = form.replace("%", n)
    says(h, h.choice("before", GOOD) + "MAKE " + pat.replace("%", n) + ";", [n, n.upper()], "a relationship name that is not upper case")


def far(h):
    """The part at fault stands behind a lot of others, or among them."""
    n = h.choice("others", [3, 12, 40])
    front = h.choice("place", [0, n // 2, n])
    x = h.text("word", 1, "[A-Za-z]")
    what = h.choice("fault", ["illegal", "arrow", "name", "handle", "item", "value", "spelling"])
    some_nodes = ["(n%d:L%d{t: 'quite a long text, number %d'})" % (i, i, i) for i in range(n)]
    if what == "item":
        q = "FIND (" + x + "a:A);REPORT " + ", ".join([x + "a"] * front + [x + "q"] + [x + "a"] * (n - front)) + ";"
        return says(h, q, [x + "q"], what)
    if what == "spelling":
        return says(h, "MAKE " + "".join(some_nodes) + ";MKAE (:" + x + ");", ["MKAE", "MAKE"], what)
    if what == "value":
        props = ["p%d: %d" % (i, i) for i in range(front)] + ["z: 'null"] + ["q%d: 'x'" % i for i in range(n - front)]
        o = some(h).run("MAKE (:A{" + ", ".join(props) + "});")
        h.check(not o.ok, "a property without its closing quote was accepted")
        h.check("null" in str(o.exc) or "z: " in str(o.exc) or "'" in str(o.exc), "a property value is refused without naming it")
        return h.reach(what)
    bad, parts = {"illegal": ("(:A{x: '" + "long text " * (n // 3) + x + "#" + x + "'})", ["#"]),
                  "arrow": ("(:A)-[:Q" + x + "]-(:B)", ["-[:Q" + x + "]-"]),
                  "name": ("(:A)-[:" + x + "q]->(:B)", [x + "q", x.upper() + "Q"]),
                  "handle": ("(one:A)-[two:R]->(" + x + "z:B)-[" + x + "z:S]->(:C)", [x + "z"])}[what]
    if what == "handle" and h.flag("at the end"):
        bad = "(one:A)-[two:R]->(three:B)<-[" + x + "z:S]-(" + x + "z:C)"
    q = "MAKE " + ", ".join(some_nodes[:front] + [bad] + some_nodes[front:]) + ";"
    says(h, q, parts, what)


def handles(h):
    """A handle that stands twice in a pattern."""
    x = h.text("handle", h.choice("length", [1, 2]), r"\w")
    pat = h.choice("pattern", ["(%:A)-[%:R]->(:B)", "(%:A)-[:R]->(%:B)", "(:A)-[%:R]->(%:B)", "(:A)-[%:R]->(:B)-[%:S]->(:C)", "(:A)-[:R]->(%:B)<-[:S]-(%:C)"])
    q = h.choice("word", ["MAKE ", "FIND "]) + pat.replace("%", x) + ";"
    says(h, h.choice("before", GOOD) + q, [x], "a handle that stands twice")


def item(h):
    """A REPORT item that the FIND does not have."""
    x, y = h.text("handle", 1, r"\w"), h.text("item", h.choice("length", [1, 2]), r"\w")
    h.differ(x, y)
    form = h.choice("form", ["%", "wn(%)", "%.name"])
    others = h.choice("others", ["", "x0, ", "*, "]).replace("x0", x)
    says(h, "FIND (" + x + ":A);REPORT " + others + form.replace("%", y) + ";", [y], "a REPORT item that is not known")


VALUES = ["True", "False", "None", "Null", "none", "TRUE", "fALSE", "NULL", "'a", "a'", "\"a", "'a'b'", "[(1)]", "[1, 'a' 'b']", "[[1]]", "[a]", "1.5.2'"]


def value(h):
    """A property value that is no value: the value is named."""
    v = h.choice("value", VALUES)
    c = h.text("property", 1, "[a-z]")
    pat = h.choice("pattern", ["(:A{%})", "(:A{q: 1, %})", "(:A)-[:R{%}]->(:B)", "(:C), (:A{%, q: 'r'})"])
    q = h.choice("before", GOOD) + "MAKE " + pat.replace("%", c + ": " + v) + ";"
    o = some(h).run(q)
    if o.ok:
        return
    text = str(o.exc)
    h.check(v in text or any(p in text for p in v.strip("[]()").split()) or c + ": " in text, "a property value is refused without naming it")
    h.reach("value")


def spelling(h):
    """A misspelt clause: what was written, and what was meant."""
    word = h.choice("word", ["MAKE", "FIND", "REPORT"])
    perm = list(word)
    i = h.choice("first", list(range(len(word))))
    j = h.choice("second", list(range(len(word))))
    h.assume(i < j and word[i] != word[j])
    perm[i], perm[j] = perm[j], perm[i]
    bad = "".join(perm)
    if h.choice("letters", ["upper", "lower"]) == "lower":
        bad = bad.lower()
    x = h.text("handle", 1, "[a-z]")
    rest = {"MAKE": " (" + x + ":A);", "FIND": " (" + x + ":A);", "REPORT": " " + x + ";"}[word]
    first = "FIND (" + x + ":A);" if word == "REPORT" else h.choice("before", GOOD)
    says(h, first + bad + rest, [bad, word], "a misspelt clause")


def bracket(h):
    """One bracket too few or too many: which kind."""
    q = h.choice("query", ["MAKE (a:A{x: 1, y: [1, 2]})-[r:R{z: 'a'}]->(b:B{l: ['a']});", "FIND (:A)<-[:R{x: [1]}]-(:B);"])
    at = [i for i, c in enumerate(q[:-2]) if c in "(){}[]" and i > q.index("(")]
    i = h.choice("at", at)
    c = q[i]
    bad = q[:i] + (c + c if h.choice("edit", ["drop", "double"]) == "double" else "") + q[i + 1:]
    kind = {"(": "parenthes", ")": "parenthes", "{": "curly", "}": "curly", "[": "square", "]": "square"}[c]
    says(h, h.choice("before", GOOD) + bad, [kind], "a bracket too few or too many")


def taken(h):
    """An id that is taken."""
    c = h.int("counter", 0)
    k = h.choice("which", [0, 1])
    rec = {h.decimal(c + k): {"node_metadata": {"wn": c + k, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": None, "relations": None}}
    db = common.Db(h, wn=h.decimal(c), records=rec)
    o = db.run("MAKE (:A), (:B);")
    h.check(not o.ok, "a taken id was given again")
    h.check(h.decimal(c + k) in str(o.exc), "a taken id is refused without naming it")
    h.reach("taken")


def twice(h):
    """A clause that may stand only once."""
    x = h.text("handle", 1, "[a-z]")
    f = "FIND (" + x + ":A);"
    q, word = h.choice("query", [(f + f, "FIND"), (f + "FIND (:B);", "FIND"), (f + "REPORT " + x + ";REPORT *;", "REPORT"), ("MAKE (:A);" + f + f, "FIND")])
    says(h, q, [word], "a clause that stands twice")


CASES = [
    dict(name="illegal", copy=True, fn=illegal, bounds="5 characters at every position inside 3 statements after 3 beginnings, query and shell"),
    dict(name="arrow", copy=True, fn=arrow, bounds="4 arrows in 4 patterns, names of 1 or 2 symbolic letters, 3 handles, MAKE and FIND"),
    dict(name="name", copy=True, fn=name, bounds="names of 1 to 3 symbolic characters with a lower case letter, alone or in 6 longer names, in 4 patterns"),
    dict(name="handles", copy=True, fn=handles, bounds="handles of 1 or 2 symbolic characters in 5 patterns, MAKE and FIND"),
    dict(name="far", copy=True, fn=far, bounds="7 kinds of faults with a symbolic letter before, among or behind 3, 12 or 40 other parts"),
    dict(name="item", copy=True, fn=item, bounds="items of 1 or 2 symbolic characters in 3 forms after 3 others"),
    dict(name="value", fn=value, bounds=f"{len(VALUES)} values in 4 patterns"),
    dict(name="spelling", copy=True, fn=spelling, bounds="all exchanges of two letters of a clause word, upper and lower case"),
    dict(name="bracket", copy=True, fn=bracket, bounds="every bracket of 2 statements dropped or doubled"),
    dict(name="taken", fn=taken, bounds="any counter, the first or the second new id taken"),
    dict(name="twice", copy=True, fn=twice, bounds="FIND or REPORT twice in 4 queries"),
]

"""A MAKE that is accepted is stored in full: nothing that was written is dropped or read as something else."""
from props import common
from props.edits import MAKES, Reader, Unreadable, Unspecified, edited

KEY = "MAKE "


def judge(h, body):
    """Run MAKE <body>; and compare what is stored with an independent reading of the text."""
    db = common.Db(h, wn="3")
    o = db.run(KEY + body + ";")
    h.observe("ok", o.ok)
    if not o.ok:
        h.reach("refused")
        return
    r = Reader(body)
    try:
        r.read()
    except Unspecified:
        return
    except Unreadable:
        h.check(False, "a MAKE was accepted that cannot be read in full")
    after = db.records()
    h.check(len(after) == len(r.nodes), f"{len(r.nodes)} nodes were written and {len(after)} are stored")
    keys = [str(k) for k in sorted([int(k) for k in after])]
    # nodes are numbered in the order they are written, relationships of a pattern after its nodes
    for k, (label, props) in zip(keys, r.nodes):
        h.check(h.same(after[k]["node_label"], label), "a node is stored with another label than was written")
        h.check(h.same(after[k]["properties"], props), "a node is stored with other properties than were written")
    stored = [x for k in keys for x in (after[k]["relations"] or [])]
    h.check(len(stored) == len(r.rels), f"{len(r.rels)} relationships were written and {len(stored)} are stored")
    for a, b, name, props in r.rels:
        hit = [x for x in (after[keys[a]]["relations"] or []) if str(x["wn_from_node"]) == keys[a] and str(x["wn_to_node"]) == keys[b]]
        h.check(len(hit) == 1, "a relationship that was written is not stored on its source")
        h.check(h.same(hit[0]["relationship_name"] or "", name), "a relationship is stored with another name than was written")
        h.check(h.same(hit[0]["properties"], props), "a relationship is stored with other properties than were written")
    h.reach("accepted")


def one_edit(h):
    base = h.choice("statement", MAKES)[len(KEY):-1]
    body = edited(h, base)
    one_statement(h, body)
    judge(h, body)


def one_statement(h, body):
    """The semicolon ends a statement, and text outside of statements is not its business."""
    for c in body:
        h.differ(c, ";")


def cuts(h):
    """A stretch of the statement is missing."""
    base = h.choice("statement", MAKES)[len(KEY):-1]
    i = h.choice("from", list(range(len(base))))
    j = h.choice("to", [k for k in range(i + 1, len(base) + 1)][: (60 if h.deep else 8)])
    body = base[:i] + base[j:]
    if "(" not in body:
        return
    judge(h, body)


def two_edits(h):
    base = h.choice("statement", ["(a:A{n: 1})", "(:A)-[r:R]->(:B)"])
    body = edited(h, base, kinds=("replace", "insert", "delete"))
    i = h.choice("second at", list(range(len(body))))
    body = body[:i] + h.text("second character", 1) + body[i + (1 if h.choice("second", ["replace", "insert"]) == "replace" else 0):]
    one_statement(h, body)
    judge(h, body)


PATTERNS = ["(:A)", "(:A)-[:R]->(:B)", "(:A{n: 1})", "(:B)", "(a:A)<-[:R]-(:B)", "(:A)(:A)", "(:A)-[:R]->(:A)<-[:R]-(:A)"]


def repeats(h):
    """The same pattern may stand several times in a statement, and each time counts."""
    n = h.choice("patterns", [2, 3] if not h.deep else [2, 3, 4])
    pats = [h.choice(f"pattern{i}", PATTERNS[:5] if n > 2 else PATTERNS) for i in range(n)]
    body = h.choice("comma", [", ", ","]).join(pats)
    at = body.index(":") + 1  # the label of the first node
    body = body[:at] + h.text("label", 1, r"\w") + body[at + 1:]
    judge(h, body)


def alike(h):
    """Parts of one path may be written alike, and each still counts."""
    x = h.text("letter", 1, r"[a-z0-9]")
    props = ["", "{a: '" + x + "'}"]
    node = lambda i: "(:" + h.choice(f"label{i}", ["A", "B"] if i else ["A"]) + h.choice(f"props{i}", props) + ")"
    rel = lambda i: "-[:" + h.choice(f"name{i}", ["R", ""] if i else ["R", "A"]) + h.choice(f"rel props{i}", ["", "{a: '" + x + "'}"]) + "]-"
    body = node(0)
    n = h.choice("relations", [0, 1, 2])
    for i in range(n):
        left = h.flag(f"left{i}")
        body += ("<" if left else "") + rel(i) + ("" if left else ">") + node(i + 1)
    if n < 2 and h.flag("again"):
        body = body + ", " + body if h.flag("whole") else body + ",(:A)"
    judge(h, body)


CASES = [
    dict(name="one_edit", fn=one_edit, weight=4,
         bounds="4 statements, every position, any character replaced or inserted; deletions, swaps and doublings; no further semicolon"),
    dict(name="cuts", fn=cuts, bounds="4 statements, any stretch of <= 8 characters removed"),
    dict(name="repeats", fn=repeats, bounds="2 or 3 (thorough 4) of 7 patterns, the same or not, one label any character"),
    dict(name="two_edits", fn=two_edits, bounds="2 statements, two edits at any positions", thorough_only=True),
    dict(name="alike", fn=alike, bounds="paths of 1 to 3 nodes with 2 labels, 2 names and 2 property texts in any combination and direction, a symbolic letter; one relationship or none also twice"),
]

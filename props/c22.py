"""The index file: every index holds exactly what was added to it, whatever happens to the others."""
from props import common

IDX = "wiggle_query_language.graph.database.indexes."
LABELS, NAMES, RELS = "node_labels", "relationship_names", "node_relationships"


def fn(h, verb, kind):
    return h.imp(IDX + kind + "_index", verb % kind)


def load(h, db, kind):
    o = h.attempt(fn(h, "load_%s_index", kind), db.idx_file)
    h.check(o.ok, f"an index cannot be loaded: {o.error}")
    return o.value


def covers(h, xs, ys):
    return h.all_of([h.any_of([h.same(x, y) for y in ys]) for x in xs])


def same_set(h, got, want, what):
    got, want = list(got), list(want)
    h.check(covers(h, want, got), f"the {what} index has lost something")
    h.check(covers(h, got, want), f"the {what} index holds something that was not added")


class Model:
    """What each index must hold: lists with repeats, rels as [(node, [ids])]."""

    def __init__(self, labels=(), names=(), rels=()):
        self.labels, self.names, self.rels = list(labels), list(names), [(k, list(v)) for k, v in rels]

    def compare(self, h, db):
        same_set(h, load(h, db, LABELS), self.labels, "label")
        same_set(h, load(h, db, NAMES), self.names, "name")
        got = load(h, db, RELS)
        h.check(covers(h, [k for k, _ in self.rels], list(got)), "the relationships index has lost a node")
        h.check(covers(h, list(got), [k for k, _ in self.rels]), "the relationships index holds a node that was not added")
        for k in got:
            want = []
            for n, ids in self.rels:
                if h.same(n, k):
                    want += ids
            same_set(h, got[k], want, "relationships")
        f = h.load(db.idx_file)
        h.check(sorted(f) == sorted([LABELS, NAMES, RELS]), "the index file does not hold the three indexes")
        # as it stands in the file: no value twice
        for kind, want in ((LABELS, self.labels), (NAMES, self.names)):
            xs = f[kind]
            h.check(h.all_of([h.not_(h.same(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)]), "an index holds a value twice")


def fresh(h, n=1):
    labels = [h.text(f"old label{i}", 1) for i in range(n)]
    if n > 1:
        h.differ(labels[0], labels[1])
    names = [h.text("old name", 1)]
    k, v = "3", [4, 5]
    db = common.Db(h, wn="9", labels=labels, names=names, rels={k: v})
    return db, Model(labels, names, [(k, v)])


def add(h, db, m, kind, tag, n):
    if kind == RELS:
        k = h.text(f"{tag} node", 1, "[0-9]")
        ids = [h.int(f"{tag} id{i}", 0) for i in range(n)]
        arg = {k: set(ids)}
        m.rels.append((k, ids))
    else:
        xs = [h.text(f"{tag} item{i}", 1) for i in range(n)]
        arg = set(xs)
        (m.labels if kind == LABELS else m.names).extend(xs)
    o = h.attempt(fn(h, "add_items_to_%s_index", kind), db.idx_file, arg)
    h.check(o.ok, f"nothing can be added to an index: {o.error}")


def wipe(h, db, m, kind, sure):
    f = fn(h, "wipe_%s_index", kind)
    if sure:
        o = h.attempt(f, db.idx_file, im_sure=True)
    else:
        unsure = h.choice("unsure", common.UNSURE)
        o = h.attempt(f, db.idx_file) if unsure == "no answer" else h.attempt(f, db.idx_file, im_sure=unsure)
    h.check(o.ok, f"an index cannot be wiped: {o.error}")
    if sure:
        setattr(m, {LABELS: "labels", NAMES: "names", RELS: "rels"}[kind], [])


def single(h):
    """Any one addition, of up to 3 items."""
    db, m = fresh(h, 2)
    kind = h.choice("index", [LABELS, NAMES, RELS])
    add(h, db, m, kind, "new", h.choice("items", [0, 1, 2] if not h.deep else [0, 1, 2, 3]))
    m.compare(h, db)
    h.reach(kind)


def history(h):
    """Additions and wipes in any order: each index is on its own."""
    db, m = fresh(h)
    for i in range(2 if not h.deep else 3):
        what = h.choice(f"step{i}", ["add", "wipe", "not sure"])
        kind = h.choice(f"index{i}", [LABELS, NAMES, RELS])
        if what == "add":
            add(h, db, m, kind, f"step{i}", 1)
        else:
            wipe(h, db, m, kind, what == "wipe")
    m.compare(h, db)
    h.reach("history")


def shrink(h):
    """After a wipe of long indexes the file holds nothing of them, and can be added to again."""
    n = h.choice("old items", [0, 1, 4])
    old = ["a longer label number %d" % i for i in range(n)]
    db = common.Db(h, labels=old, names=[x.upper() for x in old], rels={"7": list(range(n))} if n else {})
    m = Model(old, [x.upper() for x in old], [("7", list(range(n)))] if n else [])
    kind = h.choice("index", [LABELS, NAMES, RELS])
    wipe(h, db, m, kind, True)
    m.compare(h, db)
    h.check(h.loads(h.read(db.idx_file))[kind] in ([], {}), "a wiped index still holds something")
    add(h, db, m, h.choice("then", [LABELS, NAMES, RELS]), "new", 1)
    m.compare(h, db)
    h.reach(kind)


def odd(h):
    """Entries that are empty, that look like other types, or differ in case or blanks only: none is lost, none is made one."""
    kind = h.choice("index", [LABELS, NAMES])
    odds = ["", " ", "0", "null", "None", "false", "a", "A", " a", "a ", "\u00e9", "e\u0301", "[]", "\u20ac", '"']
    i = h.choice("there", list(range(len(odds))))
    j = h.choice("new", list(range(len(odds))))
    c = h.text("any", h.choice("length", [0, 1]))
    old, new = [odds[i]], [odds[j], c]
    db = common.Db(h, labels=old, names=[x + "_" for x in old], rels={"3": [4, 5]})
    m = Model(old, [x + "_" for x in old], [("3", [4, 5])])
    o = h.attempt(fn(h, "add_items_to_%s_index", kind), db.idx_file, set(new))
    h.check(o.ok, f"nothing can be added to an index: {o.error}")
    (m.labels if kind == LABELS else m.names).extend(new)
    m.compare(h, db)
    h.reach(kind)


def many_nodes(h):
    """Several nodes added at once: each keeps its own relationships."""
    db, m = fresh(h)
    a, b = h.text("node a", 1, "[0-9]"), h.text("node b", h.choice("length", [1, 2]), "[0-9]")
    h.differ(a, b)
    i, j, k = h.int("id i", 0), h.int("id j", 0), h.int("id k", 0)
    o = h.attempt(fn(h, "add_items_to_%s_index", RELS), db.idx_file, {a: {i, j}, b: {k}})
    h.check(o.ok, f"nothing can be added to an index: {o.error}")
    m.rels += [(a, [i, j]), (b, [k])]
    m.compare(h, db)
    h.reach("nodes")


def large(h):
    """Many items at once, or many one after the other, on top of many: all are kept."""
    kind = h.choice("index", [LABELS, NAMES, RELS])
    there, new = h.choice("there", [0, 1, 9, 33]), h.choice("new", [3, 5, 9, 17, 33, 65])
    old = ["Old_%d" % i for i in range(there)]
    rels = {"5": list(range(100, 100 + there))} if there else {}
    db = common.Db(h, labels=old, names=[x.upper() for x in old], rels=rels)
    m = Model(old, [x.upper() for x in old], list(rels.items()))
    way = h.choice("way", ["together", "one by one", "two by two"])
    if kind == RELS:
        ids = [200 + i for i in range(new - 1)] + [h.int("id", 1000)]  # none of the others
        node = h.choice("node", ["5", "6"])
        steps = {"together": [ids], "one by one": [[x] for x in ids], "two by two": [ids[i:i + 2] for i in range(0, new, 2)]}[way]
        for s in steps:
            o = h.attempt(fn(h, "add_items_to_%s_index", kind), db.idx_file, {node: set(s)})
            h.check(o.ok, f"nothing can be added to an index: {o.error}")
        m.rels.append((node, ids))
    else:
        xs = ["New%d" % i for i in range(new - 1)] + [h.text("item", 1)]
        steps = {"together": [xs], "one by one": [[x] for x in xs], "two by two": [xs[i:i + 2] for i in range(0, new, 2)]}[way]
        for s in steps:
            o = h.attempt(fn(h, "add_items_to_%s_index", kind), db.idx_file, set(s))
            h.check(o.ok, f"nothing can be added to an index: {o.error}")
        (m.labels if kind == LABELS else m.names).extend(xs)
    m.compare(h, db)
    h.reach(kind)


def huge(h):
    """Thousands of entries: all of them stay when one is added, or many."""
    n = h.choice("there", [260, 1030, 4200] + ([10001] if h.deep else []))
    labels, rels = ["Old_%d" % i for i in range(n)], {str(i): [i + n] for i in range(n)}
    kind = h.choice("index", [LABELS, NAMES, RELS])
    if kind == RELS:
        rels["7"] = list(range(n, n + h.choice("of one node", [1, 65, 300])))
    db = common.Db(h, labels=labels, names=[x.upper() for x in labels], rels=rels)
    if kind == RELS:
        new = h.choice("new", [{"7": {1}}, {str(n): {1, 2}}, {str(i): {0} for i in range(n - 5, n + 300)}])
    else:
        new = h.choice("new", [{"New"}, {"Old_0"}, {"New_%d" % i for i in range(300)}])
    o = h.attempt(fn(h, "add_items_to_%s_index", kind), db.idx_file, common.own(new) if kind == RELS else set(new))
    h.check(o.ok, f"nothing can be added to an index: {o.error}")
    want = {LABELS: set(labels), NAMES: {x.upper() for x in labels}, RELS: {k: set(v) for k, v in rels.items()}}
    if kind == RELS:
        for k, v in new.items():
            want[RELS].setdefault(k, set()).update(v)
    else:
        want[kind] |= new
    for k in want:
        got = load(h, db, k)
        h.check(sorted(got) == sorted(want[k]), "an index has lost something, or holds something that was not added")
        h.check(k != RELS or all(set(got[x]) == want[k][x] for x in got), "a node has lost a relationship, or has one that was not added")
    h.reach(kind)


def looking(h):
    """Loading changes nothing, and what was loaded is the caller's own."""
    db, m = fresh(h)
    before = h.everything()
    x = load(h, db, h.choice("index", [LABELS, NAMES]))
    h.check(h.same(h.everything(), before), "loading an index changes a file")
    x.add("something else")
    m.compare(h, db)
    r = load(h, db, RELS)
    r["8"] = {1}
    m.compare(h, db)
    h.reach("looked")


CASES = [
    dict(name="single", fn=single, weight=2, bounds="one addition of 0 to 2 (thorough 3) items of any character, or ids, to an index of any 2 characters"),
    dict(name="history", fn=history, weight=2, bounds="every sequence of 2 (thorough 3) additions, wipes and refused wipes on the 3 indexes"),
    dict(name="shrink", fn=shrink, bounds="0, 1 or 4 old entries, every index wiped, then added to any"),
    dict(name="odd", fn=odd, bounds="15 odd entries there and added, with any one of 0 or 1 characters"),
    dict(name="many_nodes", fn=many_nodes, bounds="2 nodes of 1 or 2 digits with any 3 ids"),
    dict(name="huge", fn=huge, bounds="260, 1030 or 4200 (thorough 10001) entries in every index, of one node 1, 65 or 300, 1 to 305 added to one"),
    dict(name="large", fn=large, bounds="3 to 65 items added to an index of 0 to 33, together, one by one or two by two, one item any"),
    dict(name="looking", fn=looking, bounds="any contents of one character"),
]

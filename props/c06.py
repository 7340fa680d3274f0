"""A refused query leaves every file as it was."""
from props import big, common
from props.c03 import MORE, STEPS
from props.edits import MAKES, edited

QUERIES = [
    "MAKE (:A{x: 1});MAKE (b:B)-[:S]->(:C);",
    "MAKE (:A);FIND (a:A)-[r:R]->(:B{s: 'q'});REPORT a;",
]

FAULTS = [
    "MAKE (:A)-[:R]-(:B);", "MAKE (:A)-[:R]->;", "MAKE (:A)-[:R]->(:B)-[:S]->;", "MAKE -[:R]->(:B);", "MAKE (:A{x: True});", "MAKE (:A{x: 'a});", "MAKE (:A{x: [1 2]});",
    "MAKE (:A{x: [(1)]});", "MAKE (:A{x 1});", "MAKE (:A{x:});", "MAKE (a:A)(a:B);", "MAKE (:A#);", "MAKE (A);", "MAKE ();", "MAKE (:A)-[:r]->(:B);",
    "MAKE (:A)<-[:R]->(:B);", "MAEK (:A);", "FIND (:A);FIND (:B);", "FIND (:A{x: none});", "FIND (:A)-[:R]->;", "REPORT *;", "FIND (a:A);REPORT b;",
    "DNIF (:A);", "FIND (a:A);REPROT a;", "MAKE (:A)-[:R{x: Null}]->(:B);", "MAKE (:A{x: [1, [2]]});", "MAKE (:A{x: [a]});",
    "MAKE (:A)-[:R]->(:B)-[:S]->(:C)-[:T]->(:D);", "", ";", "nothing",
]


def some(h):
    records = {"0": {"node_metadata": {"wn": 0, "created_at": 1.5, "updated_at": None}, "node_label": "A",
                     "properties": {"x": 1}, "relations": None}}
    return common.Db(h, wn=h.decimal(h.int("counter", 1)), records=records, labels=["A", "B"], names=["R"])


def unchanged(h, db, q):
    before = h.everything()
    o = db.run(q)
    h.observe("ok", o.ok)
    if not o.ok:
        h.check(h.same(h.everything(), before), "a query that was refused changed what is stored")
    h.reach("accepted" if o.ok else "refused")
    return o


def one_edit(h):
    """Any query with any single edit: if it is refused then nothing was touched."""
    unchanged(h, some(h), edited(h, h.choice("query", QUERIES + (MAKES if h.deep else MAKES[:1])),
                                 kinds=("replace", "insert", "delete", "cut") + (("swap", "double") if h.deep else ())))


def late_fault(h):
    """A fault in any part of a query, after parts that are fine, undoes the whole query."""
    good = h.choice("first", ["MAKE (:A);", "MAKE (:A), (:B)-[:R]->(:C);", "MAKE (:A);MAKE (:B{x: 1});"])
    bad = h.choice("fault", FAULTS[:28])
    order = h.choice("order", ["good bad", "bad good", "good bad good"])
    q = {"good bad": good + bad, "bad good": bad + good, "good bad good": good + "\n" + bad + "\nMAKE (:Z);"}[order]
    o = unchanged(h, some(h), q)
    h.check(not o.ok, "a query with a faulty part was accepted")


def in_pattern(h):
    """A fault in one pattern of a statement refuses the others too."""
    bad = h.choice("fault", [f[5:-1] for f in FAULTS if f.startswith("MAKE (") and f != "MAKE (:A)-[:R]->;"])
    where = h.choice("where", [0, 1, 2])
    pats = ["(:X)", "(:Y)-[:R]->(:Z)"]
    pats.insert(where, bad)
    o = unchanged(h, some(h), "MAKE " + ", ".join(pats) + ";")
    h.check(not o.ok, "a statement with a faulty pattern was accepted")


def alone(h):
    o = unchanged(h, some(h), h.choice("fault", FAULTS))
    h.check(not o.ok, "a faulty query was accepted")


def value(h):
    """Property values of any characters: refused ones leave no trace."""
    n = h.choice("length", [1, 2] if not h.deep else [1, 2, 3])
    v = h.text("value", n)
    place = h.choice("place", ["MAKE (:B);MAKE (:A{x: %s});", "MAKE (:A)-[:R{x: %s}]->(:B);", "MAKE (:A), (:B)-[:R]->(:C{x: 1, y: [%s]});",
                               "MAKE (:B);FIND (:A{x: %s});"])
    a, b = place.split("%s")
    unchanged(h, some(h), a + v + b)


def bad_state(h):
    """Files that cannot be used (damaged counter, database or indexes) are not made worse by a query."""
    kind = h.choice("damage", ["empty counter", "counter text", "database", "no database", "no counter"])
    db = some(h)
    if kind == "empty counter":
        h.write(db.wn_file, "")
    elif kind == "counter text":
        t = h.text("counter text", h.choice("size", [1, 2]))
        h.write(db.wn_file, t)
    elif kind == "database":
        h.write(db.db_file, h.choice("database", ["", "{", "[]x", "{\"0\": }"]))
    elif kind == "no database":
        db.fp = h.imp("models.wigish", "GDBMSFilePath")(
            database_file_path=h.path("elsewhere.json"), indexes_file_path=db.idx_file, wiggle_number_file_path=db.wn_file)
    else:
        db.fp = h.imp("models.wigish", "GDBMSFilePath")(
            database_file_path=db.db_file, indexes_file_path=db.idx_file, wiggle_number_file_path=h.path("none.txt"))
    unchanged(h, db, h.choice("query", ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);", "FIND (:A);", "MAKE (:C);FIND (:A);"]))


def large(h):
    """A fault in a long query, or on a DBMS that holds a lot."""
    if h.flag("long query"):
        db = some(h)
        q, _ = big.many(h, [8, 33, 65])
    else:
        db = big.full_db(h)
        q = "MAKE (:X)-[:T]->(:Y);"
    bad = h.choice("fault", ["MAKE (:A)-[:R]-(:B);", "MAKE (:A{x: True});", "MAKE (a:A)(a:B);", "FIND (:A{x: none});", "REPORT *;", "MAKE (:A{x: [1 2]});"])
    o = unchanged(h, db, q + bad if h.flag("behind") else bad + q)
    h.check(not o.ok, "a query with a faulty part was accepted")


def taken(h):
    """Any id that the query needs may be taken already: then nothing of it is stored."""
    k, where = h.int("counter", 0, 1000), h.int("taken", 0, 1020)
    t = h.decimal(where)
    records = {t: {"node_metadata": {"wn": where, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": None, "relations": None}}
    db = common.Db(h, wn=h.decimal(k), records=records, labels=["A"], names=["R"])
    q = h.choice("query", [
        "MAKE (:A);", "MAKE (:A), (:B);", "MAKE (:A);MAKE (:B)-[:R]->(:C);", "MAKE (:A)-[:R]->(:B)<-[:S]-(:C);",
        "MAKE (:A)-[:R]->(:B), (:C), (:D)<-[:S{n: 1}]-(:A);MAKE (:E);", "FIND (:A);MAKE (:A), (:B);"])
    before = h.everything()
    o = db.run(q)
    if not o.ok:
        h.check(h.same(h.everything(), before), "a query that was refused changed what is stored")
    h.observe("ok", o.ok)
    h.reach("accepted" if o.ok else "refused")


def taken_late(h):
    """The id of any one of many nodes or relationships may be taken."""
    k, n = h.int("counter", 0, 1000), h.choice("patterns", [20, 60] if not h.deep else [20, 60, 130, 300])
    where = h.int("taken", 0, 2000)
    h.assume(h.all_of([where >= k, where < k + n]))
    t = h.decimal(where)
    records = {t: {"node_metadata": {"wn": where, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": None, "relations": None}}
    db = common.Db(h, wn=h.decimal(k), records=records, labels=["A"], names=["R"])
    q = h.choice("query", ["MAKE " + ", ".join(["(:A)"] * n) + ";", "MAKE (:A);" * n])
    before = h.everything()
    o = db.run(q)
    h.check(not o.ok, "a query that needs an id that is taken was accepted")
    h.check(h.same(h.everything(), before), "a query that was refused changed what is stored")
    h.reach("refused")


CASES = [
    dict(name="taken_late", fn=taken_late, bounds="20 or 60 (thorough 130, 300) nodes in one or many statements, any counter <= 1000 and any of their ids taken"),
    dict(name="one_edit", fn=one_edit, weight=4, bounds="3 (thorough 6) queries of up to 3 clauses, every position, any character replaced or inserted, one deleted, or cut off there"),
    dict(name="late_fault", fn=late_fault, bounds="3 sound queries with 28 faulty ones before, after or between"),
    dict(name="in_pattern", fn=in_pattern, bounds="24 faulty patterns in any of 3 places"),
    dict(name="alone", fn=alone, bounds="31 faulty queries"),
    dict(name="value", fn=value, weight=2, bounds="values of <= 2 (thorough 3) of any characters in 4 places"),
    dict(name="bad_state", fn=bad_state, bounds="5 kinds of damaged or missing files, 4 queries"),
    dict(name="taken", fn=taken, bounds="6 queries of up to 6 nodes, any counter <= 1000 with any id taken"),
    dict(name="large", fn=large, bounds="6 faults before or behind queries of up to 65 patterns, or on DBMS of up to 101 nodes"),
]

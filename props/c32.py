"""A query reads and changes the three files it is given and nothing else, whatever lies beside them."""
from props import common
from props.c28 import state

QUERIES = ["MAKE (:A{x: 1})-[:R{y: 'a'}]->(:B);", "MAKE (:Q);", "FIND (:A)-[:R]->(:B);", "FIND (:Q);REPORT *;", "MAKE (:Q), (:A)<-[:S]-(:C);FIND (q:Q);REPORT q;",
           "MAKE (:A)-[:R]-(:B);", "FIND (:A{x: });", "MAKE (a:A)-[a:R]->(:B);", "MAKE (:A{x: [1, (2)]});", "what is this"]
LAYOUTS = [
    # (folder, name) of three DBMS
    [("g", "g"), ("gg", "gg"), ("g2", "g2")],
    [("g", "g"), ("g/g", "g"), ("h", "g")],             # the same file names, one inside the other
    [("all", "a"), ("all", "b"), ("all", "ab")],        # all in one folder
    [("a b", "a b"), ("a", "a"), ("A", "A")],
    [("..a", "..a"), ("[a]", "[a]"), ("*", "*")],
    [("g", "g"), ("g.json", "g.json"), ("database_g.json", "x")],
]


def three(h):
    lay = h.choice("layout", LAYOUTS)
    dbs = []
    for i, (folder, name) in enumerate(lay):
        c = h.int(f"counter{i}", 1)
        lab = h.text(f"label{i}", 1, "[A-Z]")
        k = h.decimal(c - 1)
        dbs.append(common.Db(h, wn=h.decimal(c), folder=folder, name=name, labels=[lab], names=[],
                             records={k: {"node_metadata": {"wn": c - 1, "created_at": 1.5, "updated_at": None}, "node_label": lab, "properties": None, "relations": None}}))
    return dbs


def mine(db):
    return [str(db.db_file), str(db.idx_file), str(db.wn_file)]


def others(world, db):
    """Everything there is but for the three files of a DBMS."""
    own = mine(db)
    return {k: v for k, v in world.items() if not any(p.endswith("/" + k.split("/", 1)[-1]) for p in own)}


def one(h):
    """One query beside two other DBMS and other files."""
    dbs = three(h)
    h.write(h.path("database_g.json"), "{}")
    h.write(h.path("dbms", "indexes.json"), "x")
    h.write(h.path("wiggle_number.txt"), h.text("other file", 1))
    db = h.choice("dbms", [0, 1, 2])
    a = dbs[db]
    before, paths = h.everything(), len(h.everything())
    a.run(h.choice("query", QUERIES))
    after = h.everything()
    h.check(len(after) == paths, "a query made a file appear or disappear")
    x, y = others(before, a), others(after, a)
    for k in x:
        h.check(k in y and h.same(x[k], y[k]), "a query changed a file that is not its own")
    h.reach("one")


def sequence(h):
    """Queries on three DBMS in turn: each holds what it would hold alone."""
    dbs = three(h)
    qs = QUERIES[:6]
    steps = [(h.choice(f"dbms{i}", [0, 1] if i else [0]), h.choice(f"query{i}", qs)) for i in range(3 if not h.deep else 4)]
    alone = []
    for i in (0, 1):
        copy = common.Db(h, folder=f"alone{i}", name="copy")
        for src, dst in ((dbs[i].db_file, copy.db_file), (dbs[i].idx_file, copy.idx_file), (dbs[i].wn_file, copy.wn_file)):
            h.write(dst, h.read(src))
        alone.append(copy)
    kept = state(h, dbs[2])
    got = [[], []]
    for i, q in steps:
        o, out = dbs[i].run_out(q)
        got[i].append((o.ok, out))
    for i in (0, 1):
        want = []
        for j, q in steps:
            if j == i:
                o, out = alone[i].run_out(q)
                want.append((o.ok, out))
        h.check(h.same(got[i], want), "a query on one DBMS is answered from another")
        h.check(h.same(state(h, dbs[i]), state(h, alone[i])), "a DBMS holds something else than it would hold alone")
    h.check(h.same(state(h, dbs[2]), kept), "a DBMS changed that no query ran on")
    h.reach("sequence")


def scattered(h):
    """The three files may lie anywhere and have any names."""
    kinds = ["db", "x.json", "database_g.json", "indexes_g.json", "wiggle_number_g.txt", "0", "a b", ".x"]
    a = [h.path(d, n) for d, n in (("one", h.choice("database", kinds)), (h.choice("index folder", ["two", "one/in", "."]), "i"), ("three", h.choice("number", kinds)))]
    b = common.Db(h, wn="5", labels=["A"], name="g", folder="one")
    # files beside them that are named as the program names its own
    for d in ("one", "two", "three"):
        h.write(h.path(d, "database_one.json"), "{}")
        h.write(h.path(d, "indexes_one.json"), "{}")
        h.write(h.path(d, "wiggle_number_one.txt"), "3")
    h.write(a[0], "{}")
    h.write(a[1], h.dumps({"node_relationships": {}, "node_labels": [], "relationship_names": []}))
    c = h.int("counter", 0)
    h.write(a[2], h.decimal(c))
    fp = h.imp("models.wigish", "GDBMSFilePath")(database_file_path=a[0], indexes_file_path=a[1], wiggle_number_file_path=a[2])
    before = h.everything()
    lab = h.text("label", 1, "[A-Z]")
    o = h.attempt(h.imp("wiggle_shell.core.query.query", "query"), "MAKE (:" + lab + ")-[:R]->(:B);", fp)
    h.check(o.ok, f"a sound query is refused: {o.error}")
    h.check(len(h.load(a[0])) == 2, "the nodes are not in the database file that was given")
    h.check("R" in h.load(a[1])["relationship_names"], "the names are not in the index file that was given")
    h.check(h.same(h.read(a[2]), h.decimal(c + 3)), "the number is not in the file that was given")
    after = h.everything()
    h.check(len(after) == len(before), "a query made a file appear or disappear")
    n = len([k for k in before if not h.same(before[k], after.get(k))])
    h.check(n == 3, "another number of files than the three that were given changed")
    h.reach("scattered")


def much(h):
    """A DBMS that holds much already, with files beside its own that are named like copies of them."""
    n = h.choice("nodes", [9, 40])
    c = h.int("counter", n)
    recs = {str(i): {"node_metadata": {"wn": i, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": {"x": i}, "relations": None} for i in range(n)}
    folder, name = h.choice("folder", [("g", "g"), ("a.b", "a.b"), ("in/g", "1")])
    db = common.Db(h, wn=h.decimal(c), folder=folder, name=name, labels=["A"] + ["L%d" % i for i in range(h.choice("labels", [0, 30]))], names=["R"], records=recs,
                   rels={str(i): [i] for i in range(h.choice("relations", [0, 20]))})
    own = [str(f).split("/")[-1] for f in (db.db_file, db.idx_file, db.wn_file)]
    if h.flag("files beside"):
        for f in own:
            base, ext = f.rsplit(".", 1)
            # another index, database and number, each sound: whatever is read or written there instead shows
            text = h.dumps({"node_relationships": {}, "node_labels": ["Other"], "relationship_names": ["OTHER"]}) if "index" in f else "{}" if ext == "json" else "7"
            for like in (f + ".tmp", f + ".bak", f[:-1], "~" + f, base, base + ".bak", base + ".tmp", "." + f, f + "~", base + "." + ext.upper(), "a_" + f, base + "_old." + ext):
                h.write(db.dir.joinpath(like), text)
        for like in ("indexes_a.json", "indexes.json", "wiggle_number_old.txt", "wiggle_number_0.txt", "database_a.json", "lock", "indexes_zz.json", "wiggle_number_zz.txt"):
            if like not in own:
                h.write(db.dir.joinpath(like), h.dumps({"node_relationships": {}, "node_labels": ["Other"], "relationship_names": ["OTHER"]}) if "index" in like else "{}" if "base" in like else "5000000")
    before = h.everything()
    q = h.choice("query", QUERIES + ["FIND (:Other);", "FIND (:A)-[:OTHER]->(:A);", "MAKE (:B)-[:S]->(:C), (:D);FIND (:D);"])
    o, out = db.run_out(q)
    after = h.everything()
    h.check(sorted(after) == sorted(before), "a query made a file appear or disappear")
    x, y = others(before, db), others(after, db)
    for k in x:
        h.check(h.same(x[k], y[k]), "a query changed a file that is not its own")
    h.check(o.ok == (q not in QUERIES[5:]), f"a sound query is refused, or another one is not: {o.error}")
    if "FIND" in q and o.ok:
        h.check(("No results" in out) == (q in ("FIND (:Q);REPORT *;", "FIND (:Other);", "FIND (:A)-[:OTHER]->(:A);", "FIND (:A)-[:R]->(:B);", "FIND (:Q);")), "a FIND is answered from another file")
    if o.ok and "MAKE" in q:
        h.check(all(k in db.records() for k in recs), "stored nodes are gone")
        h.check(h.any_of([h.same(k, h.decimal(c)) for k in db.records()]), "the ids come from another file")
    h.reach("made" if o.ok and "MAKE" in q else "found" if o.ok else "refused")


def goes_wrong(h):
    """Whatever goes wrong in a query - a fault, an id that is taken, files that cannot be read or written: no file appears and no other one changes."""
    how = h.choice("how", ["fault", "taken", "damaged", "full"])
    c = h.int("counter", 0, 50)
    t = h.int("taken", 0, 55) if how == "taken" else 60
    db = common.Db(h, wn=h.decimal(c), labels=["A"], names=["R"], rels={"60": [61]},
                   records={h.decimal(t): {"node_metadata": {"wn": t, "created_at": 1.5, "updated_at": None}, "node_label": "A", "properties": None, "relations": None}})
    q = h.choice("query", ["MAKE (:A);", "MAKE (:B)-[:S]->(:C), (:D);FIND (:A);", "FIND (:A)-[:R]->(:A);", "FIND (a:X);MAKE (:A);REPORT a;"])
    if how == "fault":
        from props.c06 import FAULTS
        q = h.choice("fault", FAULTS)
    elif how == "damaged":
        f = h.choice("file", [db.db_file, db.idx_file, db.wn_file])
        h.write(f, h.choice("contents", ["", "{", "x", "[]", "null", "-"]))
    elif how == "full":
        h.fail_writes(h.int("write", 1, 9))
    before = h.everything()
    o = db.run(q)
    after = h.everything()
    h.check(sorted(after) == sorted(before), "a query made a file appear or disappear")
    x, y = others(before, db), others(after, db)
    h.check(all(h.same(x[k], y[k]) for k in x), "a query changed a file that is not its own")
    h.reach(how + (" stored" if o.ok else " refused"))


CASES = [
    dict(name="goes_wrong", fn=goes_wrong, bounds="31 faults, any taken id, 6 damages of each file and any one failing write, 4 queries"),
    dict(name="one", fn=one, bounds="10 queries on any of 3 DBMS with any counters and labels in 6 layouts of folders, other files beside"),
    dict(name="sequence", fn=sequence, bounds="every sequence of 3 (thorough 4) of 6 queries on 2 of 3 DBMS in 6 layouts of folders, any counters and labels"),
    dict(name="scattered", fn=scattered, bounds="the three files in different folders under 8 names, any counter and label"),
    dict(name="much", fn=much, bounds="13 queries on a DBMS of 9 or 40 nodes, up to 30 labels and 20 index entries, any counter, 3 folders, 40 files with names like copies of its own beside it or none"),
]

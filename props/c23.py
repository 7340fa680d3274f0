"""The database file: records are added under new ids only, and nothing else changes."""
from props import common

DBM = "wiggle_query_language.graph.database.database"


def record(h, tag, small=False):
    v = h.int(f"{tag} value")
    s = h.text(f"{tag} text", 1)
    p = h.choice(f"{tag} props", [None, {"x": v, "s": s, "l": [v, None, True, s]}] if not small else [{"x": v, "s": s}])
    return {"node_metadata": {"wn": v, "created_at": 1.5, "updated_at": None}, "node_label": s, "properties": p, "relations": None}


def number(h, name, sizes=(1, 2)):
    return h.text(name, h.choice(name + " digits", list(sizes)), "[0-9]")


def add(h, db, items):
    return h.attempt(h.imp(DBM, "add_item_to_database"), db.db_file, common.own(items))


def expect(h, db, want, what):
    """want: [(key, record)] with distinct keys."""
    got = h.attempt(h.imp(DBM, "load_database"), db.db_file)
    h.check(got.ok, f"the database cannot be loaded: {got.error}")
    h.check(len(got.value) == len(want), what)
    for k, r in want:
        hit = [x for x in got.value if h.same(x, k)]
        h.check(len(hit) == 1, what)
        h.check(h.same(got.value[hit[0]], r), "a record was changed")
    h.check(h.same(h.load(db.db_file), got.value), "the file holds something else than is loaded")


def one(h):
    """One addition of up to 3 records to up to 2: refused exactly when a number is taken, and then nothing changes."""
    old = []
    for i in range(h.choice("old records", [0, 1, 2])):
        k = number(h, f"old number{i}", (1, 2) if i == 0 else (1,))
        for j, _ in old:
            h.differ(k, j)
        old.append((k, record(h, f"old{i}", i > 0 or not h.deep)))
    new = []
    for i in range(h.choice("new records", [0, 1, 2] if not h.deep else [0, 1, 2, 3])):
        k = number(h, f"new number{i}", (1, 2) if i == 0 else (1,))
        for j, _ in new:
            h.differ(k, j)
        new.append((k, record(h, f"new{i}", i > 0)))
    db = common.Db(h, records=dict(old))
    before = h.everything()
    taken = h.any_of([h.same(k, j) for k, _ in new for j, _ in old])
    o = add(h, db, dict(new))
    h.check(h.same(o.ok, h.not_(taken)), "a taken number is accepted, or a free one is not")
    if o.ok:
        expect(h, db, old + new, "records are missing or added")
    else:
        h.check(h.same(h.everything(), before), "a refused addition changed a file")
        expect(h, db, old, "records are missing or added")
    h.reach("added" if o.ok else "refused")


def unwritable(h):
    """Records that cannot be written as JSON are refused and leave the file as it was."""
    bad = h.choice("bad", [{1, 2}, object, b"x", {"a": {3}}, [1, {4}]])
    old = {"0": record(h, "old", True), "1": {"a": "a much longer record " * 3}}
    new = {number(h, "number", (2,)): {"x": bad}}
    if h.flag("bad number"):
        new = {h.choice("number that is none", [(1, 2), b"5", object]): {"x": 1}}
    if h.flag("good before"):
        new = {"7": {"x": 1}, **new}
    if h.flag("good after"):
        new["8"] = {"x": 1}
    db = common.Db(h, records=old)
    before = h.everything()
    o = add(h, db, new)
    h.check(not o.ok, "a record that cannot be written is accepted")
    h.check(h.same(h.everything(), before), "a refused addition changed a file")
    h.reach("refused")


def history(h):
    """Additions, wipes and loads in any order."""
    db = common.Db(h)
    want = []
    for i in range(3 if not h.deep else 4):
        what = h.choice(f"step{i}", ["add", "wipe", "wipe, not sure", "load"])
        if what == "add":
            k = number(h, f"number{i}", (1,))
            r = record(h, f"record{i}", True)
            taken = h.any_of([h.same(k, j) for j, _ in want])
            o = add(h, db, {k: r})
            h.check(h.same(o.ok, h.not_(taken)), "a taken number is accepted, or a free one is not")
            if o.ok:
                want.append((k, r))
        elif what == "load":
            got = h.imp(DBM, "load_database")(db.db_file)
            got["99"] = {"x": 1}
        else:
            wipe = h.imp(DBM, "wipe_database")
            unsure = h.choice("unsure", common.UNSURE) if what != "wipe" else ""
            if what == "wipe":
                o = h.attempt(wipe, db.db_file, im_sure=True)
            elif unsure == "no answer":
                o = h.attempt(wipe, db.db_file)
            else:
                o = h.attempt(wipe, db.db_file, im_sure=unsure)
            h.check(o.ok, f"a database cannot be wiped: {o.error}")
            if what == "wipe":
                want = []
    expect(h, db, want, "records are missing or added")
    h.reach("history")


def apart(h):
    """Adding to one file leaves every other as it was."""
    a, b = common.Db(h, name="a"), common.Db(h, name="b", records={"0": record(h, "old", True)})
    rest = h.everything()
    k = number(h, "number", (1,))
    r = record(h, "new")
    o = add(h, a, {k: r})
    h.check(o.ok, f"a record was refused: {o.error}")
    for f in (a.idx_file, a.wn_file, b.db_file, b.idx_file, b.wn_file):
        h.check(f.is_file(), "a file is gone")
    now = h.everything()
    changed = [p for p in now if p not in rest or not h.same(now[p], rest[p])]
    h.check(len(changed) == 1 and len(now) == len(rest), "adding a record changes another file")
    expect(h, a, [(k, r)], "records are missing or added")
    h.reach("apart")


def large(h):
    """Many records at once or one by one, on top of many; one of them may be taken, at any place."""
    there, new = h.choice("there", [0, 1, 10, 40]), h.choice("new", [2, 5, 11, 33, 70])
    base = h.choice("numbers from", [0, 98, 99990])
    old = [(str(base + i), {"x": "old record %d" % i}) for i in range(there)]
    at = h.choice("at", sorted({0, 1, new // 2, new - 1}))
    ks = [str(base + there + i) for i in range(new)]
    k = h.text("number", h.choice("digits", [1, 2, 5]), "[0-9]")
    for i, x in enumerate(ks):
        if i != at:
            h.differ(k, x)
    ks[at] = k
    s = h.text("text", 1)
    recs = [(x, {"x": s if i == at else "new record", "n": i}) for i, x in enumerate(ks)]
    db = common.Db(h, records=dict(old))
    before = h.everything()
    taken = [x for x, _ in old if h.same(x, k)]
    if h.choice("way", ["together", "one by one"]) == "together":
        o = add(h, db, dict(recs))
        h.check(o.ok == (not taken), "a taken number is accepted, or a free one is not")
        if taken:
            h.check(h.same(h.everything(), before), "a refused addition changed a file")
            recs = []
    else:
        for x, r in recs:
            o = add(h, db, {x: r})
            h.check(o.ok == (not (taken and h.same(x, k))), "a taken number is accepted, or a free one is not")
        if taken:
            recs = [y for y in recs if not h.same(y[0], k)]
    got = h.load(db.db_file)
    h.check(len(got) == len(old) + len(recs), "records are missing or added")
    for x, r in old + recs:
        hit = [y for y in got if h.same(x, y)]
        h.check(len(hit) == 1 and h.same(got[hit[0]], r), "a record was changed")
    h.reach("taken" if taken else "free")


def huge(h):
    """Thousands of records: one more is added, one that is there is refused."""
    n = h.choice("there", [260, 1030, 4200] + ([10001] if h.deep else []))
    old = {str(i if i % 7 else i * 3 + 10 ** 6): {"x": i} for i in range(n)}
    db = common.Db(h, records=old)
    s = h.text("text", 1)
    o = add(h, db, {h.choice("taken", ["1", str(n - 1) if (n - 1) % 7 else str(n - 2)]): {"x": s}})
    h.check(not o.ok, "a number that is taken is accepted")
    h.check(h.load(db.db_file) == old, "a refused addition changed a file")
    k = h.choice("number", ["0", "999", str(n + 20), "100000000", "08"])
    h.assume(k not in old)
    o = add(h, db, {k: {"x": s}})
    h.check(o.ok, f"a record was refused: {o.error}")
    got = h.load(db.db_file)
    h.check(len(got) == n + 1 and all(x in got and got[x] == old[x] for x in old), "a record was lost or changed")
    h.check(k in got and h.same(got[k], {"x": s}), "a record is not stored")
    h.reach("added")


def contents(h):
    """Records of any depth, size and kind of value."""
    s = h.text("text", h.choice("length", [0, 1, 2]))
    n = h.int("number")
    v = h.choice("value", [s, n, [s, n, s], {"a": {"b": [s, {"c": n}]}}, [[[[[s]]]]], {s: n}, [1.5, 1e300, 0.1, -0.0], [True, 1, 1.0, "1", None], "x" * 300, [n] * 40, {}, [], ""])
    w = h.choice("as", [v, {"old": v}])
    db = common.Db(h, records={"0": w})
    k = number(h, "key", (1, 2))
    h.differ(k, "0")
    o = add(h, db, {k: {"new": v, "x": s}})
    h.check(o.ok, f"a record was refused: {o.error}")
    expect(h, db, [("0", w), (k, {"new": v, "x": s})], "records are missing or added")
    # an id is taken whatever is stored under it
    k2 = "0" if h.flag("first") else k
    before = h.everything()
    o = add(h, db, {k2: h.choice("again", [{"other": v}, v])})
    h.check(not o.ok, "an id that is taken is accepted")
    h.check(h.same(h.everything(), before), "a refused addition changed a file")
    h.reach("contents")


CASES = [
    dict(name="one", fn=one, weight=3, bounds="0 to 2 records of any 1 or 2 digit numbers, 0 to 2 (thorough 3) added, symbolic contents"),
    dict(name="unwritable", fn=unwritable, bounds="5 kinds of values and 3 of numbers JSON cannot hold, alone or among sound records"),
    dict(name="history", fn=history, weight=2, bounds="every sequence of 3 (thorough 4) additions, wipes, refused wipes and loads"),
    dict(name="huge", fn=huge, bounds="260, 1030 or 4200 (thorough 10001) records, 2 taken numbers, 5 new ones"),
    dict(name="large", fn=large, bounds="0 to 40 records, 2 to 70 added together or one by one, one number of 1, 2 or 5 any digits at 4 places"),
    dict(name="contents", fn=contents, bounds="13 kinds of values with texts of 0 to 2 any characters and any integers, beside the same in an old record"),
    dict(name="apart", fn=apart, bounds="two DBMS, any number and record"),
]

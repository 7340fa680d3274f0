"""Everything stored carries the time it was made at, and nothing counts as updated."""
from props import common
from props.c03 import MORE, STEPS

TOL = 1e-4      # clocks of different resolution


def metas(records):
    out = []
    for r in records.values():
        out.append(r["node_metadata"])
        for x in r["relations"] or []:
            out.append(x["relationship_metadata"])
    return out


def step(h, db, q):
    before = db.records()
    t0 = h.now()
    db.run(q)
    t1 = h.now()
    after = db.records()
    for k in before:
        h.check(k in after and h.same(after[k], before[k]), "a later query changed the times of what was stored before")
    new = metas({k: r for k, r in after.items() if k not in before})
    for m in new:
        t = m["created_at"]
        h.check(t >= t0 - TOL, "something is stored with a time before its query")
        h.check(t <= t1 + TOL, "something is stored with a time after its query")
        h.check(m["updated_at"] is None, "something new counts as updated")
    return len(new)


def single(h):
    """Any one query, at any time."""
    h.zone()
    db = common.Db(h)
    n = step(h, db, h.choice("query", [q for q, _, _ in STEPS + MORE]))
    h.reach("stored" if n else "nothing")


def history(h):
    """Queries at different times: each has its own."""
    db = common.Db(h)
    for i in range(3 if not h.deep else 4):
        h.zone(f"zone{i}")
        step(h, db, h.choice(f"query{i}", [STEPS[i][0] for i in (0, 1, 2, 4, 5, 8)]))
    h.reach("history")


def models(h):
    """Metadata made at different times, with and without a time given."""
    h.zone()
    M = h.imp("models.wql", "WiggleGraphMetalData")
    t0 = h.now()
    a = M(wn=1)
    t1 = h.now()
    b = M(wn=2)
    t2 = h.now()
    h.check(a.created_at >= t0 - TOL and a.created_at <= t1 + TOL, "metadata is not made now")
    h.check(b.created_at >= t1 - TOL and b.created_at <= t2 + TOL, "metadata is not made now")
    h.check(a.updated_at is None and b.updated_at is None, "something new counts as updated")
    c = M(wn=3, created_at=12.5)
    h.check(c.created_at == 12.5, "a given time is not kept")
    h.reach("models")


CASES = [
    dict(name="single", fn=single, bounds="25 queries, any time, any local time"),
    dict(name="history", fn=history, bounds="every sequence of 3 (thorough 4) of 6 queries, any times, any local times"),
    dict(name="models", fn=models, bounds="any times, any local times"),
]

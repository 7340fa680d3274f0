"""Sizes: queries of many parts, long words and values, and DBMS that already hold a lot."""
from props import common
from props.common import N, R

COUNTS = [5, 8, 11, 17, 21, 33, 51, 65, 101]
LENGTHS = [16, 17, 31, 33, 64, 65, 100, 129, 256, 300]
BOUNDS = "queries of up to 101 patterns of 1 to 3 nodes in one or as many statements, one label and one value of them symbolic"


def many(h, counts=COUNTS):
    """A query of many patterns: (text, patterns)."""
    n = h.choice("patterns", counts)
    kind = h.choice("kind", ["n", "n>n", "n<n>n", "mixed", "same"])
    sep = h.choice("separator", [", ", ";MAKE "])
    k = h.choice("special", ["first", "last", "middle"])
    at = {"first": 0, "last": n - 1, "middle": n // 2}[k]
    word, digit = h.text("label", 1, "[A-Za-z]"), h.text("value", 1, "[0-9]")
    pats = []
    for i in range(n):
        shape = {"mixed": ["n", "n>n", "nn", "n<n>n"][i % 4], "same": "n>n"}.get(kind, kind)
        label = f"L{'' if kind == 'same' else i}x"
        if i == at:
            label = "S" + word
        parts = []
        for j, c in enumerate(shape):
            if c == "n":
                parts.append(N(label + str(j)))
            else:
                parts.append(R(c, "REL" if kind == "same" else f"R_{i}_{j}"))
        if i == at or kind == "same":
            d = digit if i == at else "7"
            parts[-1].props, parts[-1].value = "{n: " + d + "}", {"n": int(d)}
        pats.append(parts)
    return "MAKE " + sep.join(common.pattern(p) for p in pats) + ";", pats


def counts(pats):
    return sum(len(common.nodes_of(p)) for p in pats), sum(len(common.rels_of(p)) for p in pats)


def long_word(h, name, cls, lengths=LENGTHS):
    """A long word whose ends and middle are any characters."""
    n = h.choice(name + " length", lengths)
    a, b, c = (h.text(f"{name} {w}", 1, cls) for w in ("first", "middle", "last"))
    return a + "X" * (n // 2 - 1) + b + "Y" * (n - n // 2 - 2) + c


def full(h, n, label=None):
    """What a DBMS of n nodes holds: every other node is the source of a relationship to the next. (records, rels, labels, names, counter)"""
    records, rels, names = {}, {}, []
    k = n
    for i in range(n):
        out = None
        if i % 2 == 0 and i + 1 < n:
            names.append(f"NAME_{i}")
            out = [{"relationship_metadata": {"wn": k, "created_at": 1.5, "updated_at": None}, "relationship_name": names[-1],
                    "wn_from_node": i, "wn_to_node": i + 1, "properties": {"p": [i, None, "x y"]} if i % 4 else None}]
            rels[str(i)] = [k]
            k += 1
        records[str(i)] = {"node_metadata": {"wn": i, "created_at": 1.25, "updated_at": None}, "node_label": f"Old{i}",
                           "properties": {"i": i, "s": "it's {a}, [b]", "n": None} if i % 3 else None, "relations": out}
    if label is not None:
        records["0"]["node_label"] = label
    return records, rels, [r["node_label"] for r in records.values()], names, k


def full_db(h, sizes=(9, 33, 101), label=None, name="g"):
    n = h.choice("stored nodes", list(sizes))
    records, rels, labels, names, k = full(h, n, label)
    return common.Db(h, wn=h.decimal(h.int("counter", k)), records=records, rels=rels, labels=labels, names=names, name=name)


def session(h, db, queries, n=None, see=None):
    """n queries one after the other, one of them at any place drawn from all; see(db, query, outcome) after each."""
    n = n or h.choice("session length", [9, 17, 33] + ([66, 130] if h.deep else []))
    start = h.choice("start", [0, 1, 2])
    at = h.choice("special at", [0, n // 2, n - 2, n - 1])
    odd = h.choice("special", list(range(len(queries))))
    for i in range(n):
        q = queries[odd if i == at else (start + i * 5) % len(queries)]
        see(db, q, db.run(q if isinstance(q, str) else q[0]))

"""What the harnesses share: building graphs and queries, and reading back what is stored.

Everything enters the program the way a user does: `query()` on the three files of a DBMS, or the
shell.  The helpers below only know the query language and the layout of the stored files.
"""

WS = r"[^\S\n]"          # whitespace that may stand inside a one-line statement
WORD = r"\w"
UPPER = r"[A-Z_]"


class Db:
    """The three files of a DBMS, written by hand so that any state can be the starting point."""

    def __init__(self, h, wn="0", records=None, rels=None, labels=(), names=(), name="g", folder=None):
        self.h = h
        self.dir = h.path("dbms", folder or name)
        self.db_file = self.dir.joinpath(f"database_{name}.json")
        self.idx_file = self.dir.joinpath(f"indexes_{name}.json")
        self.wn_file = self.dir.joinpath(f"wiggle_number_{name}.txt")
        h.write(self.db_file, h.dumps(records or {}))
        h.write(self.idx_file, h.dumps({"node_relationships": rels or {}, "node_labels": list(labels),
                                        "relationship_names": list(names)}))
        h.write(self.wn_file, wn)
        self.fp = h.imp("models.wigish", "GDBMSFilePath")(
            database_file_path=self.db_file, indexes_file_path=self.idx_file, wiggle_number_file_path=self.wn_file)

    def run(self, q):
        return self.h.attempt(self.h.imp("wiggle_shell.core.query.query", "query"), q, self.fp)

    def run_out(self, q):
        return self.h.output(self.h.imp("wiggle_shell.core.query.query", "query"), q, self.fp)

    def records(self):
        x = self.h.load(self.db_file)
        self.h.check(isinstance(x, dict) and "<not JSON>" not in x and "<no file>" not in x, "the database file cannot be read any more")
        return x

    def indexes(self):
        x = self.h.load(self.idx_file)
        self.h.check(isinstance(x, dict) and all(k in x for k in ("node_relationships", "node_labels", "relationship_names")),
                     "the index file cannot be read any more")
        return x

    def counter(self):
        return self.h.read(self.wn_file)

    def files(self):
        return self.h.tree(self.h.path())


class Layout:
    """Where optional whitespace goes: nowhere, everywhere (the same), or in one place k."""

    def __init__(self, h, style, size=1):
        self.h, self.style, self.size, self.k = h, style, size, -1
        self.ws = "" if style == "none" else h.text("whitespace", size, WS)

    def sp(self):
        self.k += 1
        return self.ws if self.style == "all" or self.style == self.k else ""


TIGHT = Layout(None, "none")


class N:
    """A node of a statement: its text parts and the properties it must be stored with."""

    def __init__(self, label, handle="", props="", value=None):
        self.label, self.handle, self.props, self.value = label, handle, props, value

    def text(self, lay=TIGHT):
        t = "(" + lay.sp() + self.handle + lay.sp() + ":" + lay.sp() + self.label + lay.sp()
        if self.props:
            t += self.props + lay.sp()
        return t + ")"


class R:
    """A relationship of a statement, pointing right ('>') or left ('<')."""

    def __init__(self, way, name="", handle="", colon=":", props="", value=None, d1="-", d2="-"):
        self.way, self.name, self.handle, self.colon, self.props, self.value = way, name, handle, colon, props, value
        self.d1, self.d2 = d1, d2

    def text(self, lay=TIGHT):
        t = ("<" if self.way == "<" else "") + self.d1 + "[" + lay.sp() + self.handle + lay.sp() + self.colon + lay.sp()
        t += self.name + lay.sp()
        if self.props:
            t += self.props + lay.sp()
        return t + "]" + self.d2 + (">" if self.way == ">" else "")


def pattern(parts, lay=TIGHT):
    """parts: N, R, N, ... or N, N."""
    t = ""
    for p in parts:
        t += p.text(lay) + lay.sp()
    return t


def make(*patterns, lay=TIGHT, word="MAKE"):
    return statement(word, patterns, lay) + ";"


def statement(word, patterns, lay):
    t = word + lay.sp()
    for i, parts in enumerate(patterns):
        if i:
            t += lay.sp() + "," + lay.sp()
        for j, p in enumerate(parts):
            t += (lay.sp() if j else "") + p.text(lay)
    return t


def nodes_of(parts):
    return [p for p in parts if isinstance(p, N)]


def rels_of(parts):
    """[(R, index of the node it starts at, index of the node it ends at)]"""
    out = []
    i = -1
    for p in parts:
        if isinstance(p, N):
            i += 1
        elif p.way == ">":
            out.append((p, i, i + 1))
        else:
            out.append((p, i + 1, i))
    return out


def find_record(h, records, label, skip=()):
    """Keys of the records with that label."""
    return [k for k in records if k not in skip and h.same(records[k]["node_label"], label)]


def expect_stored(h, before, after, patterns, check_rels=True):
    """Every node of the patterns is stored once, as described, and nothing else is new."""
    new = [k for k in after if k not in before]
    want = [(p, n) for p in patterns for n in nodes_of(p)]
    h.check(len(new) == len(want), f"{len(want)} nodes were described and {len(new)} are stored")
    left = list(new)
    for parts in patterns:
        keys = []
        for n in nodes_of(parts):
            hits = [k for k in left if h.same(after[k]["node_label"], n.label)]
            h.check(len(hits) > 0, "a node that was described is not stored with its label")
            k = hits[0]
            left.remove(k)
            keys.append(k)
            rec = after[k]
            h.check(h.same(rec["properties"], n.value), "a node is stored with other properties than it was given")
            h.check(h.same(h.decimal(rec["node_metadata"]["wn"]), k), "a node is stored under an id that is not its own")
        if not check_rels:
            continue
        out = {k: [] for k in keys}
        for r, a, b in rels_of(parts):
            out[keys[a]].append((r, keys[a], keys[b]))
        for k in keys:
            stored = after[k]["relations"] or []
            h.check(len(stored) == len(out[k]), f"a node has {len(stored)} relationships stored, it is the source of {len(out[k])}")
            rest = list(stored)
            for r, a, b in out[k]:
                hit = [x for x in rest if h.same(h.decimal(x["wn_from_node"]), a) and h.same(h.decimal(x["wn_to_node"]), b)]
                h.check(len(hit) > 0, "a relationship does not run from its source to its target")
                x = hit[0]
                rest.remove(x)
                h.check(h.same(x["relationship_name"] or "", r.name), "a relationship is stored under another name")
                h.check(h.same(x["properties"], r.value), "a relationship is stored with other properties than it was given")


UNSURE = ["no answer", False, None, 0, ""]


def own(v):
    """A copy that shares nothing: what is handed to the program, which may change it."""
    if isinstance(v, dict):
        return {k: own(x) for k, x in v.items()}
    if isinstance(v, list):
        return [own(x) for x in v]
    return v


def ordered(v):
    """A copy whose keys come in one order, whatever the order in the file."""
    if isinstance(v, dict):
        return {k: ordered(v[k]) for k in sorted(v)}
    if isinstance(v, list):
        return [ordered(x) for x in v]
    return v


def words(h, name, sizes, cls=WORD):
    return h.text(name, h.choice(name + " length", sizes), cls)


def small_props(h, name, kinds):
    """(text, value) of a small property map."""
    k = h.choice(name + " kind", kinds)
    if k == "":
        return "", None
    if k == "int":
        d = h.text(name + " int", 1, "[0-9]")
        return "{n: " + d + "}", {"n": int(d)}
    if k == "str":
        c = h.text(name + " str", 1, "[a-z]")
        return "{s:'" + c + "x y'}", {"s": c + "x y"}
    if k == "two":
        d = h.text(name + " int", 1, "[0-9]")
        c = h.text(name + " str", 1, "[a-z]")
        return "{b: true, n:" + d + ', s: "' + c + '"}', {"b": True, "n": int(d), "s": c}
    raise ValueError(k)


VALUES = [("null", None), ("false", False), ("true", True), ("0", 0), ("7", 7), ("0.0", 0.0), ("'x'", "x"), ("''", ""), ("[null, 0]", [None, 0]),
          ("[false]", [False])]


def several_props(h, name, deep=False):
    """Two to four (thorough 2 to 5) properties whose values are of any kinds: (text, value)."""
    a, b = h.choice(name + " first", VALUES), h.choice(name + " second", VALUES)
    rest = h.choice(name + " rest", [[], [VALUES[0]], [VALUES[4], VALUES[6]]] + ([[VALUES[1], VALUES[0], VALUES[8]]] if deep else []))
    order = h.choice(name + " order", ["front", "behind"]) if rest else "front"
    vs = [a, b] + rest if order == "front" else rest + [a, b]
    return "{" + ", ".join("abcde"[i] + ": " + t for i, (t, _) in enumerate(vs)) + "}", {"abcde"[i]: v for i, (_, v) in enumerate(vs)}

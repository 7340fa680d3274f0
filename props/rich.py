"""MAKE queries of every shape in which parts coincide: labels, names, handles, properties; and an oracle for all of their effects."""
import itertools

from props import common
from props.common import N, R

ONE = ["n", "nn", "n>n", "n<n", "nnn", "n>nn", "n<nn", "nn>n", "nn<n", "n>n>n", "n<n<n", "n>n<n", "n<n>n"]
TWO = [(a, b) for a in ("n", "n>n", "n<n>n", "n>n>n") for b in ("n", "n<n", "n>n<n", "nn")]
PROPS = [("{n: 1}", {"n": 1}), ("{s: 'x y'}", {"s": "x y"}), ("{l: [1, 'a', null]}", {"l": [1, "a", None]}),
         ("{z: null}", {"z": None}), ("{b: true, f: 1.5}", {"b": True, "f": 1.5}), ("{n: 1}", {"n": 1})]
BOUNDS = ("13 shapes of one pattern, 6 (thorough 16) of two in one or two statements; labels, names, properties and handles in every "
          "coincidence, two of the four varied at a time (thorough: all)")
DIMS = ["labels", "names", "props", "handles"]


class Graph:
    """A drawn graph: its text, its patterns."""

    def __init__(self, text, patterns):
        self.text, self.patterns = text, patterns

    def counts(self):
        return (sum(len(common.nodes_of(p)) for p in self.patterns), sum(len(common.rels_of(p)) for p in self.patterns))


def some(h, name, n, free):
    """None, one, all but one or all of n things, as a list of flags."""
    if not free or n == 0:
        return [False] * n
    k = h.choice(name, ["none", "all"] + [("only", i) for i in range(n)] + ([("but", i) for i in range(n)] if n > 2 else []))
    if k == "none" or k == "all":
        return [k == "all"] * n
    return [(i == k[1]) == (k[0] == "only") for i in range(n)]


def spelling(nodes, rels, p, step):
    """What another part is called: a node's handle may be the label of the next."""
    if isinstance(p, N):
        return f"Label{(nodes.index(p) + step) % len(nodes)}"
    return f"NAME_{chr(65 + (rels.index(p) + step) % len(rels))}"


def draw(h, shapes, dims, sep, word="MAKE"):
    """Patterns of the given shapes whose parts vary in the dimensions named."""
    pats = [[N("") if c == "n" else R(c) for c in s] for s in shapes]
    nodes = [p for pat in pats for p in pat if isinstance(p, N)]
    rels = [p for pat in pats for p in pat if isinstance(p, R)]
    for i, n in enumerate(nodes):
        n.label = f"Label{i}"
    for i, r in enumerate(rels):
        r.name = f"NAME_{chr(65 + i)}"
    if "labels" in dims:
        opts = ["distinct"] + (["same"] + [(0, j) for j in range(1, len(nodes))] + ([(len(nodes) - 2, len(nodes) - 1)] if len(nodes) > 2 else [])
                               if len(nodes) > 1 else ["any"])
        k = h.choice("labels", opts)
        if k == "same":
            for n in nodes:
                n.label = "Label"
        elif k == "any":
            nodes[0].label = h.text("label", 1, r"\w")
        elif k != "distinct":
            for i in k:
                nodes[i].label = h.text(f"label{i}", 1, r"\w")
    if "names" in dims and rels:
        opts = ["distinct", "none", "any"] + (["same"] if len(rels) > 1 else []) + ([("un", i) for i in range(len(rels))] if len(rels) > 1 else [])
        k = h.choice("names", opts)
        for i, r in enumerate(rels):
            if k == "same":
                r.name = "SAME"
            elif k == "none" or isinstance(k, tuple) and k[1] == i:
                r.name = ""
            elif k == "any" and i in (0, len(rels) - 1):
                r.name = h.text(f"name{i}", 1, "[A-Z]")
    parts = [p for pat in pats for p in pat]
    alike = "props" in dims and len(parts) > 1 and h.flag("same props")
    for i, on in enumerate(some(h, "props", len(parts), "props" in dims)):
        if on:
            parts[i].props, parts[i].value = PROPS[0 if alike else i % len(PROPS)]
    if "handles" in dims:
        k = h.choice("handles", ["distinct", "none"] + (["shared"] if len(pats) > 1 else []) + ["labels", "next", "last"])
        for pat in pats:
            for i, p in enumerate(pat):
                if k == "labels":
                    p.handle = {N: "Label", R: "NAME"}[type(p)] + str(i)
                elif k in ("next", "last"):
                    p.handle = spelling(nodes, rels, p, 1 if k == "next" else -1)
                elif k != "none":
                    p.handle = (f"h{i}" if k == "shared" else f"h{parts.index(p)}")
    for r in rels:
        if not r.name and not r.handle:
            r.colon = ""
    text = word + " " + sep.join("".join(p.text() for p in pat) for pat in pats) + ";"
    return Graph(text, pats)


FEW = [("n", "n"), ("n>n", "n"), ("n", "n<n"), ("n>n", "n<n"), ("n<n>n", "n>n<n"), ("n>n>n", "nn")]


def graph(h, ways=2, ones=ONE, twos=FEW, word="MAKE"):
    """Any shape, varying `ways` of the dimensions at a time (thorough: all)."""
    shapes = h.choice("shape", [(s,) for s in ones] + list(TWO if h.deep and twos else twos))
    sep = h.choice("separator", [", ", ";MAKE "]) if len(shapes) > 1 else ""
    dims = DIMS if h.deep else h.choice("vary", list(itertools.combinations(DIMS, ways)))
    return draw(h, shapes, dims, sep, word)


# -------------------------------------------------------------------------------- oracle
def count(h, x, xs):
    return len([1 for y in xs if h.same(x, y)])


def same_bag(h, want, got, what):
    h.check(len(want) == len(got), f"{len(want)} {what} were described and {len(got)} are stored")
    for x in want:
        h.check(count(h, x, want) == count(h, x, got), f"{what} are stored otherwise than they were described")


def stored(h, before, after, g, rels=True):
    """Nodes and relationships of a drawn graph are what is new, as described."""
    new = {k: after[k] for k in after if k not in before}
    same_bag(h, [[n.label, n.value] for p in g.patterns for n in common.nodes_of(p)],
             [[r["node_label"], r["properties"]] for r in new.values()], "nodes")
    if not rels:
        return new
    want, got = [], []
    for p in g.patterns:
        ns = common.nodes_of(p)
        for r, a, b in common.rels_of(p):
            want.append([r.name, r.value, ns[a].label, ns[a].value, ns[b].label, ns[b].value])
    by = {k: r for k, r in new.items()}
    for k, r in new.items():
        for x in r["relations"] or []:
            h.check(h.same(h.decimal(x["wn_from_node"]), k), "a relationship is not stored on its source")
            to = [y for y in by if h.same(h.decimal(x["wn_to_node"]), y)]
            h.check(len(to) == 1, "a relationship ends at no node of its query")
            t = by[to[0]]
            got.append([x["relationship_name"] or "", x["properties"], r["node_label"], r["properties"], t["node_label"], t["properties"]])
    same_bag(h, want, got, "relationships")
    return new

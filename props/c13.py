"""Clause keywords: any letter case is the same keyword, and a misspelled keyword is an error, never silently skipped."""
from props import common
from props.c06 import some


def cased(h, word):
    """The word with every letter in either case."""
    return "".join(h.text("letter " + c, 1, "[" + c.upper() + c.lower() + "]") for c in word)


def make_case(h):
    gap = h.choice("gap", ["", " ", "  "])
    before = h.choice("before", ["", "MAKE (:B);", "FIND (:B);", " ", "\n"])
    after = h.choice("after", ["", "MAKE (:C);", "\nFIND (:B);", " "])
    h.assume(not ("FIND" in before and "FIND" in after))
    db = some(h)
    old = db.records()
    o = db.run(before + cased(h, "make") + gap + "(:N{x: 7});" + after)
    h.check(o.ok, f"a MAKE written in another letter case was refused: {o.error}")
    new = {k: r for k, r in db.records().items() if k not in old}
    want = ["N"] + (["B"] if "MAKE" in before else []) + (["C"] if "MAKE" in after else [])
    h.check(sorted(r["node_label"] for r in new.values()) == sorted(want), "a MAKE written in another letter case was not carried out")
    h.reach("make")


def find_case(h):
    gap = h.choice("gap", ["", " ", "  "])
    around = h.choice("around", [("", ""), ("MAKE (:C);", ""), ("MAKE (:C);\n", "\nMAKE (:C);"), ("", "MAKE (:C);REPORT *;")])
    known = h.flag("known")
    db = some(h)
    o, out = db.run_out(around[0] + cased(h, "find") + gap + ("(:B);" if known else "(:Q);") + around[1])
    h.check(o.ok, f"a FIND written in another letter case was refused: {o.error}")
    h.check(("No results" in out) == (not known), "a FIND written in another letter case was not carried out")
    h.reach(f"find {known}")


def report_case(h):
    sep = h.choice("separator", ["", "\n", " ", "\n  "])
    good = h.flag("good")
    item = h.choice("item", ["f", "*", "f.x", "wn(f)"]) if good else h.choice("item", ["g", "f, g", "g.x", "wn(g)"])
    db = some(h)
    o = db.run("FIND (f:B);" + sep + cased(h, "report") + " " + item + ";")
    h.check(o.ok == good, "a REPORT written in another letter case is not read as the same REPORT")
    h.reach(f"report {good}")


def anagram(h, word):
    """Any order of the letters of the word that is not the word, each letter in any case."""
    cls = "[" + word.upper() + word.lower() + "]"
    s = h.text("misspelt", len(word), cls)
    for c in sorted(set(word)):
        h.assume(h.any_of([h.all_of([one(h, s[i], c) if i in at else h.not_(one(h, s[i], c)) for i in range(len(word))])
                           for at in picks(len(word), word.count(c))]))
    h.assume(h.not_(h.all_of([one(h, s[i], word[i]) for i in range(len(word))])))
    return s


def one(h, ch, c):
    return h.any_of([h.same(ch, c.lower()), h.same(ch, c.upper())])


def picks(n, k):
    if k == 1:
        return [(i,) for i in range(n)]
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


AROUND = [("", ""), ("MAKE (:C);", ""), ("", "MAKE (:C);"), ("MAKE (:C);", "\nMAKE (:D);"), ("MAKE (:C);\n  ", "\n"),
          ("FIND (:B);", ""), ("", " FIND (:B);"), ("\n", "\nFIND (:B);MAKE (:C);")]


def misspelt(h, word, rest):
    around = h.choice("around", AROUND if not (word == "find") else AROUND[:5])
    db = some(h)
    before = h.everything()
    w = anagram(h, word)
    o = db.run(around[0] + w + h.choice("rest", rest) + around[1])
    h.check(not o.ok, "a query with a misspelled clause was accepted")
    h.check(h.same(h.everything(), before), "a query with a misspelled clause changed what is stored")
    h.reach("refused")


def misspelt_make(h):
    misspelt(h, "make", ["(:A);", " (:A);", " (:A{x: 1})-[:R]->(:B);"] + ([" (a:A), (b:B)<-[:R]-(c:C);", "  (:A) ;"] if h.deep else []))


def misspelt_find(h):
    misspelt(h, "find", ["(:B);", " (:B);", " (a:A{x: 1})-[:R]->(b:B);"])


def misspelt_report(h):
    """Misspelled REPORT behind a FIND (for every order of its six letters)."""
    sep = h.choice("separator", ["", "\n"] if not h.deep else ["", "\n", " ", "\nMAKE (:A);\n"])
    rest = h.choice("rest", [" f;"] if not h.deep else [" f;", " *;", " f, f;"])
    db = some(h)
    before = h.everything()
    if h.deep:
        w = anagram(h, "report")
    else:       # two letters changed places, or one moved
        i, j = h.choice("places", [(i, j) for i in range(6) for j in range(6) if i != j])
        w = list("report")
        w[i:i + 1] = []
        w[j:j] = "report"[i]
        if h.flag("exchange"):
            w = list("report")
            w[i], w[j] = w[j], w[i]
        h.assume("".join(w) != "report")
        w = cased(h, "".join(w))
    o = db.run("FIND (f:B);" + sep + w + rest)
    h.check(not o.ok, "a query with a misspelled REPORT was accepted")
    h.check(h.same(h.everything(), before), "a query with a misspelled REPORT changed what is stored")
    h.reach("refused")


def nodeless(h):
    """A keyword that no node follows is an error too."""
    w = cased(h, h.choice("word", ["make", "find"]))
    rest = h.choice("rest", [";", " ;", " A;", " A:B);", " [:R];", " 1;", ""])
    around = h.choice("around", [("", ""), ("MAKE (:C);", ""), ("MAKE (:C);\n", ""), ("", "\nMAKE (:C);")])
    db = some(h)
    before = h.everything()
    o = db.run(around[0] + w + rest + around[1])
    h.check(not o.ok, "a clause without a node was accepted")
    h.check(h.same(h.everything(), before), "a clause without a node changed what is stored")
    h.reach("refused")


def behind(h):
    """A misspelt keyword, or one without a pattern, behind any whitespace."""
    before = h.choice("before", ["", "MAKE (:C);", "FIND (f:B);"])
    ws = h.text("whitespace", h.choice("length", [1, 2]), r"\s")
    w = h.choice("word", ["MAEK", "kame", "DNIF", "nifd", "MAKE", "find"] + (["REPROT", "troper"] if before.startswith("FIND") else []))
    h.assume(not (before.startswith("FIND") and w == "find"))
    rest = h.choice("rest", [" f;"] if w in ("REPROT", "troper") else [";", " A;"] if w in ("MAKE", "find") else ["(:A);", " (:A)-[:R]->(:B);", ";", " A;"])
    db = some(h)
    before_ = h.everything()
    o = db.run(before + ws + w + rest)
    h.check(not o.ok, "a clause that is misspelt or has no node was accepted behind whitespace")
    h.check(h.same(h.everything(), before_), "a clause that is misspelt or has no node changed what is stored")
    h.reach("refused")


def before_node(h):
    """A misspelt keyword with any whitespace before its node, wherever it stands."""
    front = h.choice("before", ["", "x ", "MAKE (:C); x ", "FIND (f:B);REPORT f; and "])
    w = h.choice("word", ["MAEK", "kame", "DNIF", "nifd"])
    ws = h.text("whitespace", h.choice("length", [1, 2, 3]), r"\s")
    db = some(h)
    before = h.everything()
    o = db.run(front + w + ws + h.choice("rest", ["(:A);", "(a:A)-[:R]->(:B);"]))
    h.check(not o.ok, "a query with a misspelled clause was accepted")
    h.check(h.same(h.everything(), before), "a query with a misspelled clause changed what is stored")
    h.reach("refused")


CASES = [
    dict(name="before_node", fn=before_node, bounds="4 misspelt words, 1 to 3 whitespace characters of any kind behind them, 4 texts before"),
    dict(name="behind", fn=behind, bounds="1 or 2 whitespace characters of any kind before 8 words, 3 texts before them, 4 remainders"),
    dict(name="make_case", fn=make_case, bounds="MAKE in all 16 letter cases, 3 gaps, 5 texts before and 4 after"),
    dict(name="find_case", fn=find_case, bounds="FIND in all 16 letter cases, 3 gaps, 4 surroundings, label in the index or not"),
    dict(name="report_case", fn=report_case, bounds="REPORT in all 64 letter cases, 8 items, 4 separators"),
    dict(name="misspelt_make", fn=misspelt_make, weight=2, bounds="all 23 other orders of the letters in all letter cases, 8 surroundings, 3 (thorough 5) remainders"),
    dict(name="misspelt_find", fn=misspelt_find, weight=2, bounds="all 23 other orders of the letters in all letter cases, 5 surroundings, 3 remainders"),
    dict(name="misspelt_report", fn=misspelt_report, weight=2, bounds="one letter moved or two exchanged (thorough: all 359 other orders), all letter cases"),
    dict(name="nodeless", fn=nodeless, bounds="MAKE or FIND in all letter cases without a node, 7 remainders, 4 surroundings"),
]

"""The shell: every line is one query on the DBMS that was chosen; no line but q ends it."""
from props import common
from props.c06 import FAULTS

SHELL = "wiggle_shell.wiggleshell"
GOOD = ["MAKE (:A);", "MAKE (a:A{x: 1})-[:R]->(b:B);", "FIND (:A);", "MAKE (:C);FIND (:C);REPORT *;"]
BAD = ["MAKE (:A)-[:R]-(:B);", "MAEK (:A);", "nothing", "", " ", "MAKE (:A{x: 'a});", "REPORT *;", "FIND (a:A);REPORT b;", "MAKE (:A{x: [(1)]});",
       "MAKE (:A)-[:R]->;", "quit", "Q", "q ", " q", "qq", "exit", "y", "MAKE (:A#);"]


def own(h, name):
    d = h.home().joinpath(name)
    return [d.joinpath("database_" + name + ".json"), d.joinpath("indexes_" + name + ".json"), d.joinpath("wiggle_number_" + name + ".txt")]


def contents(h, name):
    a, b, c = own(h, name)
    return {"db": strip(h.load(a)), "idx": {k: (sorted(v) if isinstance(v, list) else v) for k, v in h.load(b).items()}, "wn": h.read(c)}


def strip(db):
    """Without the times."""
    out = {}
    for k, r in db.items():
        r = dict(r)
        if "node_metadata" in r:
            r["node_metadata"] = {"wn": r["node_metadata"]["wn"]}
            r["relations"] = [{**x, "relationship_metadata": {"wn": x["relationship_metadata"]["wn"]}} for x in r["relations"] or []]
        out[k] = r
    return out


def direct(h, queries, wn="0", name="reference", errors=None):
    """What the same queries do when each is given to query() on a DBMS of its own."""
    db = common.Db(h, wn=wn, name=name)
    printed = ""
    for q in queries:
        o, out = db.run_out(q)
        printed += out
        if not o.ok and errors is not None:
            errors.append(str(o.exc))
    return {"db": strip(h.load(db.db_file)), "idx": {k: (sorted(v) if isinstance(v, list) else v) for k, v in h.load(db.idx_file).items()},
            "wn": h.read(db.wn_file)}, printed


def shell(h, lines):
    return h.console(h.imp(SHELL, "start_wiggle_shell"), lines)


def run(h, lines, name="g", start=None):
    """Start on a new DBMS, give it the lines, and q."""
    return shell(h, (start or ["n", name]) + lines + ["q"])


def sequence(h):
    """Good and bad lines in any order do what the good ones do, and the shell goes on to the end."""
    lines = [h.choice(f"line{i}", GOOD + BAD) for i in range(2 if not h.deep else 3)]
    o, out, left = run(h, lines)
    h.check(o is not None and o.ok, "a line ended the shell, or q did not")
    h.check(left == 0, "a line that is not q ended the shell")
    errors = []
    want, printed = direct(h, lines, errors=errors)
    h.check(h.same(contents(h, "g"), want), "the shell stores something else than its lines say")
    h.check(out.count("No results") == printed.count("No results"), "the shell does not carry out every FIND once")
    h.check(all(out.count(e) >= errors.count(e) for e in errors), "a faulty line prints no error")
    h.reach("to the end")


def long(h):
    """A fault never keeps the next line from being carried out."""
    lines = []
    for i in range(3 if not h.deep else 5):
        lines += [h.choice(f"bad{i}", ["MAKE (:A)-[:R]-(:B);", "MAKE (:A{x: 'a});", "FIND (", "REPORT *;"]), h.choice(f"good{i}", GOOD[:2])]
    o, out, left = run(h, lines)
    h.check(o is not None and o.ok and left == 0, "a faulty line ended the shell")
    h.check(h.same(contents(h, "g"), direct(h, lines)[0]), "the shell stores something else than its lines say")
    h.reach("long")


def any_line(h):
    """Any short line at all: only q ends the shell, and nothing is stored."""
    line = h.text("line", h.choice("length", [0, 1, 2, 3]))
    o, out, left = shell(h, ["n", "g", line, "MAKE (:After);", "q"])
    h.check(o is not None and o.ok, "a line ended the shell with an error, or q did not end it")
    ended = h.same(line, "q")
    h.check(h.same(left == 2, ended), "a line that is not q ended the shell, or q did not")
    want = [] if left == 2 else ["MAKE (:After);"]
    errors = []
    if left == 0 and not h.same(line.strip().lower(), "help"):
        direct(h, [line], name="alone", errors=errors)
    h.check(h.same(contents(h, "g"), direct(h, want)[0]), "a line that is no query stored something, or kept the next one from being carried out")
    h.check(all(e in out for e in errors), "a faulty line prints no error")
    h.reach("ended" if left == 2 else "went on")


def around(h):
    """Any character around or inside a line of the shell: it never ends it, and never more than the line is stored."""
    base = h.choice("query", ["MAKE (:A);", "help", "q"])
    k = h.choice("at", [0, len(base)] if not h.deep else list(range(len(base) + 1)))
    line = base[:k] + h.text("inserted", 1) + base[k:]
    o, out, left = shell(h, ["n", "g", line, "MAKE (:After);", "q"])
    h.check(o is not None and o.ok and left == 0, "a line that is not q ended the shell")
    help_line = h.same(line.strip().lower(), "help")
    h.check(h.same("guide" in out, help_line), "help is not shown when it is asked for, or when it is not")
    h.check(h.same(contents(h, "g"), direct(h, [line, "MAKE (:After);"])[0]), "the shell stores something else than its lines say")
    h.reach("went on")


def characters(h):
    """Any character, also one that few encodings have, in a text of a sound line, a faulty line or no query at all."""
    c = h.choice("known", ["\u20ac", "\U0001F600", "\u65e5", "\u0301", "\u202e", "\x00", "\x1b", "\x85", "\u2028", ""]) or h.text("any", 1, "[^\ud800-\udfff\"'\\\\]")
    line = h.choice("line", ["MAKE (:A{s: '%s'});", "FIND (a:A{s: '%s'});", "MAKE (:A%s);", "%s", "help %s", "FIND (a:A);REPORT a%s;"]).replace("%s", c)
    h.assume(line != "q")
    o, out, left = shell(h, ["n", "g", line, "MAKE (:After);", "q"])
    h.check(o is not None and o.ok and left == 0, "a line that is not q ended the shell")
    errors = []
    h.check(h.same(contents(h, "g"), direct(h, [line, "MAKE (:After);"], errors=errors)[0]), "the shell stores something else than its lines say")
    if not h.same(line.strip().lower(), "help"):
        h.check(all(e in out for e in errors), "a faulty line prints no error")
    h.reach("went on")


def helped(h):
    """help in any letter case explains, and is no query; a query with help in it is carried out."""
    word = "".join(h.text("letter " + c, 1, "[" + c + c.upper() + "]") for c in "help")
    sp = h.choice("around", [("", ""), (" ", ""), ("", "  ")])
    q = "MAKE (:Help{help: 'help me'});"
    o, out, left = run(h, [sp[0] + word + sp[1], q])
    h.check(o is not None and o.ok and left == 0, "help ended the shell")
    h.check(out.count("guide") == 1, "help is not shown when it is asked for, or also when it is not")
    h.check(h.same(contents(h, "g"), direct(h, [q])[0]), "the shell stores something else than its lines say")
    h.reach("helped")


def chosen(h):
    """The queries go to the DBMS that was chosen, and to no other."""
    q = h.imp("wiggle_shell.core.select_gdbms", "get_new_gdbms_file_paths")
    names = ["aa", "bb"]
    for x in names:
        h.attempt(q, x, h.home())
    pick = h.choice("choice", ["A", "B", "new"])
    if pick == "new":
        start = [h.choice("new", ["n", "no", "", "N", "anything"])] + h.choice("taken", [[], ["aa"], ["aa", "", "bb"]]) + ["cc"]
        used = "cc"
    else:
        wrong = h.choice("before", [[], ["C"], ["a"], ["", "AA"]])
        start = [h.choice("existing", ["y", "yes"])] + wrong + [pick]
        used = names["AB".index(pick)]
    lines = [h.choice("first", GOOD), h.choice("second", GOOD[:2] + BAD[:3])]
    o, out, left = run(h, lines, start=start)
    h.check(o is not None and o.ok and left == 0, "the shell did not run to its end")
    for x in names + (["cc"] if pick == "new" else []):
        h.check(h.same(contents(h, x), direct(h, lines if x == used else [], name="ref" + x)[0]), "a query went to another DBMS, or not to the one chosen")
    h.check(len(h.tree(h.home())) == 4 * (3 if pick == "new" else 2), "the shell made something else than the DBMS asked for")
    h.reach(pick)


def again(h):
    """A second session finds what the first one left."""
    one, two = [h.choice("first", GOOD[:2])], [h.choice("second", GOOD), h.choice("third", GOOD[:2])]
    o, out, left = run(h, one)
    h.check(o is not None and o.ok and left == 0, "the shell did not run to its end")
    o, out, left = run(h, two, start=["y", "A"])
    h.check(o is not None and o.ok and left == 0, "the shell did not run to its end")
    h.check(h.same(contents(h, "g"), direct(h, one + two)[0]), "two sessions store something else than their lines say")
    h.reach("again")


def refusals(h):
    """Every kind of refusal, in a first and in a later line."""
    bad = h.choice("refused", FAULTS)
    lines = [bad, "MAKE (:A);"] if h.flag("first") else ["MAKE (:A);", bad, "MAKE (:B);", bad]
    o, out, left = run(h, lines)
    h.check(o is not None and o.ok and left == 0, "a refused line ended the shell")
    h.check(h.same(contents(h, "g"), direct(h, [x for x in lines if x != bad])[0]), "the shell stores something else than its lines say")
    h.reach("refused")


def damaged(h):
    """Files that cannot be used: the shell says so and goes on."""
    h.attempt(h.imp("wiggle_shell.core.select_gdbms", "get_new_gdbms_file_paths"), "g", h.home())
    which, what = h.choice("file", [0, 1, 2]), h.choice("damage", ["", "text", "{", "[]", "{}", "null", "-", "[1]", "1.5", "{\"0\": 1}"])
    if what == "text":
        what = h.text("contents", 1)
    h.write(own(h, "g")[which], what)
    before = {x: h.read(own(h, "g")[x]) for x in range(3)}
    lines = [h.choice("first", ["MAKE (:A);", "FIND (:A);", "MAKE (:A)-[:R]->(:B);", "REPORT *;"]), h.choice("second", ["MAKE (:A);", "help", "", "MAKE (:A)-[:R]->(:B);"])]
    o, out, left = run(h, lines, start=["y", "A"])
    h.check(o is not None and o.ok and left == 0, "a query on damaged files ended the shell")
    h.reach("damaged")


def no_room(h):
    """A write that fails does not end the shell."""
    h.attempt(h.imp("wiggle_shell.core.select_gdbms", "get_new_gdbms_file_paths"), "g", h.home())
    h.fail_writes(h.int("write", 1))
    first = h.choice("first", ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);"])
    o, out, left = run(h, [first, "FIND (:A);", "MAKE (:C);", "MAKE (:D);"], start=["y", "A"])
    h.check(o is not None and o.ok and left == 0, "a write that failed ended the shell")
    h.reach("went on")


ERRORS = [OSError, MemoryError, KeyError, ValueError, RecursionError, StopIteration, lambda: OSError(5, ""), lambda: Exception(None), lambda: Exception(("a", 1)), lambda: Exception("%s {} \n" * 3)]


def any_error(h):
    """Whatever goes wrong in a line, and whatever it says or does not say: the next line is carried out."""
    h.attempt(h.imp("wiggle_shell.core.select_gdbms", "get_new_gdbms_file_paths"), "g", h.home())
    h.fail_writes(1, h.choice("error", ERRORS))
    bad = h.choice("line", ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);", "FIND (:A);MAKE (:A);"])
    lines = [bad] + h.choice("then", [[], ["MAKE (:C);"], ["", "MAKE (:C)-[:S]->(:D);", "FIND (:C);"]])
    o, out, left = run(h, lines, start=["y", "A"])
    h.check(o is not None and o.ok and left == 0, "an error in a line ended the shell")
    h.check(h.same(contents(h, "g"), direct(h, lines[1:])[0]), "a line after an error is not carried out")
    h.reach("went on")


def joined(h):
    """Two queries in one line, with anything that may stand between them; and long lines."""
    gap = h.text("gap", h.choice("gap length", [0, 1, 2]), "[; \t,]")
    a, b = h.choice("parts", [("MAKE (:A);", "MAKE (:B);"), ("MAKE (:A{s: ';", "; x'});"), ("MAKE (:A)-[:R]->(:B);", "FIND (:A);"), ("MAKE (:", "A);")])
    line = a + gap + b
    if h.flag("long"):
        line += "MAKE " + ", ".join("(:L%d{n: %d})" % (i, i) for i in range(30)) + ";"
    o, out, left = run(h, [line, "MAKE (:After);"])
    h.check(o is not None and o.ok and left == 0, "a line that is not q ended the shell")
    want, printed = direct(h, [line, "MAKE (:After);"])
    h.check(h.same(contents(h, "g"), want), "the shell stores something else than its lines say")
    h.check(out.count("No results") == printed.count("No results"), "the shell does not carry out every FIND once")
    h.reach("joined")


CASES = [
    dict(name="refusals", fn=refusals, copy=True, bounds="31 refused queries, as first or later lines"),
    dict(name="damaged", fn=damaged, copy=True, bounds="each of the three files with 10 contents or any one character, 16 pairs of lines"),
    dict(name="any_error", fn=any_error, copy=True, bounds="10 kinds of errors, most without a message, in 3 lines, before 3 sequences of lines"),
    dict(name="no_room", fn=no_room, copy=True, bounds="any one write fails, 2 first queries"),
    dict(name="sequence", fn=sequence, weight=3, copy=True, bounds="every sequence of 2 (thorough 3) of 22 lines"),
    dict(name="joined", fn=joined, copy=True, bounds="4 pairs of queries or halves with 0 to 2 of ; , space and tab between them, in a short or long line"),
    dict(name="long", fn=long, copy=True, bounds="3 (thorough 5) faulty lines of 4, each before one of 2 good lines"),
    dict(name="any_line", fn=any_line, weight=2, copy=True, bounds="any line of 0 to 3 characters"),
    dict(name="around", fn=around, copy=True, bounds="a MAKE, help and q with any character before or behind (thorough: anywhere)"),
    dict(name="characters", fn=characters, copy=True, bounds="any one character, and 9 odd ones, at 6 places of a line; no lone surrogates"),
    dict(name="helped", fn=helped, copy=True, bounds="help in all 16 letter cases, 3 ways of whitespace around"),
    dict(name="chosen", fn=chosen, copy=True, bounds="two DBMS and a new one, wrong answers first, 20 pairs of lines"),
    dict(name="again", fn=again, copy=True, bounds="two sessions, 16 combinations of lines"),
]

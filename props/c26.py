"""Choosing a DBMS: the letter beside a name leads to the files of exactly that DBMS."""
from props import common

SG = "wiggle_shell.core.select_gdbms"


def paths(fp):
    return [str(fp.database_file_path), str(fp.indexes_file_path), str(fp.wiggle_number_file_path)]


def own(h, base, name):
    d = str(base) + "/" + name + "/"
    return [d + "database_" + name + ".json", d + "indexes_" + name + ".json", d + "wiggle_number_" + name + ".txt"]


def less(h, a, b):
    return a < b


def world(h, n, size=1):
    """n DBMS of symbolic names in ascending order."""
    base = h.path("dbms")
    h.mkdir(base)
    names = []
    for i in range(n):
        x = h.text(f"name{i}", size, r"[a-zA-Z0-9 _*-]")
        if names:
            h.assume(names[-1] < x)
        names.append(x)
    for x in (reversed(names) if h.flag("made in reverse") else names):
        common.Db(h, wn="7", name=x)
    return base, names


def listed(h):
    """The list holds every DBMS once, in order, and nothing else."""
    n = h.choice("dbms", [0, 1, 2, 3])
    base, names = world(h, n)
    if h.flag("a file too"):
        h.write(base.joinpath("a file"), "not a DBMS")
    more = h.choice("skipped", [[], ["tests"], ["tests", "__pycache__"]])
    for x in more:
        h.mkdir(base.joinpath(x))
    o = h.attempt(h.imp(SG, "list_existing_dbms"), {"tests", "__pycache__"}, base)
    h.check(o.ok and h.same(list(o.value), names), "the list of DBMS is not that of the folder, in order")
    o, out = h.output(h.imp(SG, "get_and_display_available_dbms"), base)
    h.check(o.ok, f"the DBMS cannot be listed: {o.error}")
    got = o.value
    if n == 0:
        h.check(not got, "DBMS are listed that do not exist")
    else:
        h.check(h.same(dict(got), {"ABC"[i]: names[i] for i in range(n)}), "a letter stands for another DBMS than the one beside it")
        at = 0
        lines = out.split("\n")
        for i in range(n):
            hit = [k for k in range(at, len(lines)) if lines[k].startswith("ABC"[i] + " ") and h.same(lines[k][1:].lstrip(" "), names[i].lstrip(" "))]
            h.check(len(hit) == 1, "a DBMS is not shown beside its letter")
            at = hit[0] + 1
    h.reach(f"{n}")


def select(h):
    """Any answers: only the letter of a DBMS chooses, and chooses that DBMS; nothing is changed."""
    n = h.choice("dbms", [1, 2, 3])
    base, names = world(h, n)
    answers = [h.text(f"answer{i}", h.choice(f"length{i}", [0, 1, 2] if i else [1]), r"[\w ]") for i in range(h.choice("answers", [1, 2]))]
    before = h.everything()
    o, out, left = h.console(lambda: h.imp(SG, "get_existing_gdbms")(base), answers)
    h.check(h.same(h.everything(), before), "choosing a DBMS changed a file")
    for i, a in enumerate(answers):
        hit = [k for k in range(n) if h.same(a, "ABC"[k])]
        if hit:
            h.check(o is not None and o.ok, "the letter of a DBMS does not choose it")
            h.check(left == len(answers) - i - 1, "it is asked again after a choice")
            h.check(h.same(paths(o.value), own(h, base, names[hit[0]])), "a letter chooses the files of another DBMS")
            h.reach(f"chosen after {i}")
            return
    h.check(o is None, "something that is no letter of a DBMS chooses one, or ends the program")
    h.reach("asked again")


def many(h):
    """Up to 26 DBMS: every letter leads to the one beside it."""
    n = h.choice("dbms", [2, 4, 5, 10, 11, 25, 26])
    kind = h.choice("names", ["db%d", "%d", "Db %02d", "x%d_y", "cases", "long"])
    base = h.path("dbms")
    if kind == "cases":
        names = [(chr(65 + i // 2) if i % 2 else chr(97 + i // 2)) + "x" * (i % 3) for i in range(n)]
    elif kind == "long":
        names = ["a" * (i + 1) for i in range(n)]
    else:
        names = [kind % i for i in range(n)]
    k = h.choice("symbolic", sorted({0, n // 2, n - 1}))
    x = h.text("name", 2, r"[a-zA-Z0-9_-]")
    for i, y in enumerate(names):
        if i != k:
            h.differ(x, y)
    names[k] = x
    for y in (names if h.flag("made in order") else reversed(names)):
        common.Db(h, wn="7", name=y)
    o, out = h.output(h.imp(SG, "get_and_display_available_dbms"), base)
    h.check(o.ok, f"the DBMS cannot be listed: {o.error}")
    shown = dict(o.value)
    h.check(len(shown) == n, "not every DBMS has a letter")
    for y in names:
        h.check(len([1 for z in shown.values() if h.same(y, z)]) == 1, "a DBMS has no letter, or two")
    i = h.choice("letter", sorted({0, 1, 8, 9, 10, n // 2, n - 2, n - 1} & set(range(n))))
    letter = chr(65 + i)
    before = h.everything()
    o, out, left = h.console(lambda: h.imp(SG, "get_existing_gdbms")(base), [letter])
    h.check(o is not None and o.ok, "the letter of a DBMS does not choose it")
    h.check(h.same(paths(o.value), own(h, base, shown[letter])), "a letter chooses the files of another DBMS")
    lines = [z for z in out.split("\n") if z.startswith(letter + " ")]
    h.check(len(lines) == 1 and h.same(lines[0][1:].strip(" "), shown[letter].strip(" ")), "a DBMS is not shown beside its letter")
    h.check(h.same(h.everything(), before), "choosing a DBMS changed a file")
    h.reach(f"{n}")


def broken(h):
    """A DBMS with a file missing is not chosen, and another can still be."""
    base, names = world(h, 2, 2)
    gone = h.choice("missing", [0, 1, 2])
    bad = h.choice("of", [0, 1])
    p = own(h, base, names[bad])[gone]
    h.imp("os", "remove")(p) if not h.symbolic else remove(p)
    if h.flag("a folder instead"):
        h.mkdir(base.joinpath(names[bad], p[len(str(base)) + len(names[bad]) + 2:]))
    before = h.everything()
    o, out, left = h.console(lambda: h.imp(SG, "get_existing_gdbms")(base), ["AB"[bad], "AB"[1 - bad]])
    h.check(o is not None and o.ok, "no DBMS can be chosen when one of them is broken")
    h.check(left == 0, "a DBMS with a file missing is chosen")
    h.check(h.same(paths(o.value), own(h, base, names[1 - bad])), "a letter chooses the files of another DBMS")
    h.check(h.same(h.everything(), before), "choosing a DBMS changed a file")
    h.reach("broken")


def remove(p):
    from sx import env
    env.FS.remove(p)


def existing(h):
    """Existing files are found by name exactly when they are there."""
    which = h.choice("file", ["get_existing_db_file_path", "get_existing_indexes_file_path", "get_existing_wn_file_path"])
    k = ["get_existing_db_file_path", "get_existing_indexes_file_path", "get_existing_wn_file_path"].index(which)
    base = h.path("dbms")
    here = ["a", "bb"]
    for x in here:
        common.Db(h, name=x)
    h.mkdir(base.joinpath("c"))
    for x in ("database_d.json", "indexes_d.json", "wiggle_number_d.txt"):
        h.mkdir(base.joinpath("d", x))
    name = h.text("name", h.choice("length", [1, 2]), r"[^\x00]")
    o = h.attempt(h.imp(SG, which), name, base)
    hit = [x for x in here if h.same(x, name)]
    h.check(o.ok == bool(hit), "files are found for a DBMS that does not exist, or not for one that does")
    if hit:
        h.check(h.same(str(o.value), own(h, base, hit[0])[k]), "the file of another DBMS is found")
    else:
        h.check(o.error == "FileNotFoundError", "a missing file is not reported as such")
    h.reach("found" if hit else "missing")


def nothing(h):
    """Without any DBMS a new one is asked for, in the folder that was given."""
    base = h.path("dbms")
    h.choice("folder", [lambda: None, lambda: h.mkdir(base), lambda: h.mkdir(base.joinpath("tests"))])()
    name = h.text("name", h.choice("length", [1, 2]), r"[^/\x00.]")
    o, out, left = h.console(lambda: h.imp(SG, "get_existing_gdbms")(base), [name])
    h.check(o is not None and o.ok, "no DBMS can be created where there is none")
    h.check(h.same(paths(o.value), own(h, base, name)), "another DBMS is used than the one created")
    h.check(h.same(h.load(o.value.database_file_path), {}), "a new database is not empty")
    h.reach("created")


CASES = [
    dict(name="listed", fn=listed, bounds="0 to 3 DBMS of any names of 1 character in any order, files and skipped folders beside"),
    dict(name="select", fn=select, weight=2, bounds="1 to 3 DBMS of any names, 1 or 2 answers of up to 2 characters"),
    dict(name="many", fn=many, bounds="2 to 26 DBMS of 6 kinds of names, one of any 2 characters, made in order or reverse, up to 8 letters"),
    dict(name="broken", fn=broken, bounds="2 DBMS of any names of 2 characters, any of the 6 files missing or a folder in its place"),
    dict(name="existing", fn=existing, bounds="any name of 1 or 2 characters, 2 complete and 2 incomplete DBMS"),
    dict(name="nothing", fn=nothing, bounds="any name of 1 or 2 characters, 3 kinds of empty folder"),
]

"""Deleting a DBMS removes its folder and nothing else."""
from props import common

SG = "wiggle_shell.core.select_gdbms"


def delete(h, name, base):
    return h.attempt(h.imp(SG, "delete_gdbms"), name, base)


def drop(tree, d):
    """The tree without the folder d and all in it."""
    return {k: v for k, v in tree.items() if not k.startswith(d)}


def verdict(h, base, name, here):
    """Delete `name` where the DBMS of `here` exist."""
    before = h.everything()
    inside = h.tree(base)
    o = delete(h, name, base)
    hit = [x for x in here if h.same(x, name)]
    if not hit:
        h.check(not o.ok, "a DBMS that does not exist is deleted")
        h.check(h.same(h.everything(), before), "deleting a DBMS that does not exist changed something")
        h.reach("refused")
        return
    h.check(o.ok, f"a DBMS cannot be deleted: {o.error}")
    want = {k: v for k, v in inside.items() if not (h.same(k[:len(hit[0]) + 1], hit[0] + "/"))}
    h.check(h.same(h.tree(base), want), "deleting a DBMS left some of it, or removed something else")
    h.check(len(h.everything()) == len(before) - (len(inside) - len(want)), "deleting a DBMS reached out of the DBMS folder")
    h.reach("deleted")


def world(h, names):
    base = h.path("dbms")
    for i, x in enumerate(names):
        common.Db(h, wn="7", records={"6": {"x": i}}, labels=["L"], name=x)
    h.write(base.joinpath("note.txt"), "a file in the DBMS folder")
    h.write(h.path("outside.txt"), "a file beside it")
    h.write(h.path("other", "database_a.json"), "a folder beside it")
    return base


def any_name(h):
    """Delete by any name, among DBMS with ordinary names."""
    here = ["a", "ab", "b c"]
    base = world(h, here)
    verdict(h, base, h.text("name", h.choice("length", [0, 1, 2, 3])), here)


def odd_names(h):
    """DBMS with any names, one deleted."""
    a = h.text("first", h.choice("length", [1, 2] if not h.deep else [1, 2, 3]), r"[^/\x00]")
    b = h.text("second", h.choice("second length", [1, 2] if not h.deep else [1, 2, 3]), r"[^/\x00]")
    h.differ(a, b)
    for x in (a, b):
        for y in (".", "..", "note.txt"):
            h.differ(x, y)
    base = world(h, [a, b, "keep"])
    verdict(h, base, a, [a, b, "keep"])


def patterns(h):
    """Names that look like file patterns match nothing but themselves."""
    here = h.choice("there", [["a", "b", "[ab]"], ["x", "xx", "x*"], ["q", "qr", "q?", "?"], ["*", "a", "b"], ["**", "*"], ["[!a]", "b"], ["a", "ab"]])
    base = world(h, here)
    name = h.choice("name", here + ["*", "?", "[ab]", "a*", "*/*", "../other", "a/..", "./a", "..", ".", "", "a/", "/", "note.txt", "../s/dbms/a"])
    verdict(h, base, name, here)


def contents(h):
    """Whatever files are in its folder go with it."""
    base = world(h, ["a", "b"])
    for i in range(h.choice("more files", [0, 1, 2])):
        f = h.text(f"file{i}", h.choice("length", [1, 2, 3]), r"[^/\x00]")
        h.differ(f, ".")
        h.differ(f, "..")
        h.write(base.joinpath("a", f), "more")
    if h.flag("empty"):
        h.mkdir(base.joinpath("e"))
        verdict(h, base, "e", ["a", "b", "e"])
    else:
        verdict(h, base, "a", ["a", "b"])


def siblings(h):
    """DBMS whose names have the name of the deleted one at either end, with files of the same names."""
    name = h.choice("name", ["a", "x", "g.h"])
    more = h.choice("added", ["_old", "2", ".bak", "~", " ", "_backup", "-copy", "_tmp", ".json", "any"])
    if more == "any":
        more = h.text("rest", h.choice("length", [1, 2, 3, 4, 5, 6] if not h.deep else [1, 2, 3, 4, 5, 6, 8, 12]), r"[^/\x00]")
    other = name + more if h.flag("behind") else more + name
    base = h.path("dbms")
    for x in (name, other):
        common.Db(h, wn="7", records={"6": {"x": 1}}, labels=["L"], name=x)
        for k in ("database", "indexes", "wiggle_number"):
            h.write(base.joinpath(x, f"{k}_{name}.json"), "the same name")
        h.write(base.joinpath(x, "notes"), "the same name")
    h.write(h.path("outside.txt"), "a file beside it")
    if h.flag("a file"):
        f = name + h.text("suffix", h.choice("suffix length", [1, 2, 4, 5]), r"[^/\x00]")
        h.differ(f, other)
        h.write(base.joinpath(f), "a file beside it")
    verdict(h, base, name, [name, other])


def last(h):
    """The last DBMS of a folder leaves an empty folder."""
    base = h.path("deep", "er", "dbms")
    name = h.text("name", h.choice("length", [1, 2]), r"[^/\x00.]")
    h.mkdir(base.joinpath(name))
    for k in range(h.choice("files", [0, 1, 3])):
        h.write(base.joinpath(name, f"file{k}"), "x")
    o = delete(h, name, base)
    h.check(o.ok, f"a DBMS cannot be deleted: {o.error}")
    h.check(h.is_dir(base), "deleting the last DBMS removes the folder of the DBMS too")
    h.check(h.same(h.tree(base), {}), "deleting a DBMS left some of it")
    h.reach("last")


def again(h):
    """A deleted DBMS can be created anew, empty, and deleting twice is an error."""
    base = world(h, ["a", "b"])
    o = delete(h, "a", base)
    h.check(o.ok, f"a DBMS cannot be deleted: {o.error}")
    before = h.everything()
    if h.flag("twice"):
        o = delete(h, "a", base)
        h.check(not o.ok, "a DBMS that does not exist is deleted")
        h.check(h.same(h.everything(), before), "deleting a DBMS that does not exist changed something")
    p = h.attempt(h.imp(SG, "get_new_gdbms_file_paths"), "a", base)
    h.check(p.ok, f"a deleted DBMS cannot be created anew: {p.error}")
    h.check(h.same(h.load(p.value.database_file_path), {}) and h.read(p.value.wiggle_number_file_path) == "0", "a DBMS created anew is not empty")
    m = h.attempt(h.imp("wiggle_shell.core.query.query", "query"), "MAKE (:A);", p.value)
    h.check(m.ok, "a DBMS created anew takes no query")
    h.reach("again")


def inside(h):
    """Folders in its folder go with it."""
    base = world(h, ["a", "b"])
    d = base.joinpath("a")
    for i in range(h.choice("deep", [1, 2, 3])):
        d = d.joinpath(h.text(f"folder{i}", h.choice("length", [1, 2]), r"[^/\x00.]"))
        h.mkdir(d)
        if h.flag("file"):
            h.write(d.joinpath("x.y"), "more")
    verdict(h, base, "a", ["a", "b"])


def link(h):
    """A link to the folder of another DBMS, or in the folder of a DBMS, never leads to that DBMS."""
    base = world(h, ["a", "b"])
    away = h.path("other")
    target = h.choice("target", [base.joinpath("b"), away])
    if h.flag("in a DBMS"):
        h.link(base.joinpath("a", h.text("name", h.choice("length", [1, 2]), r"[^/\x00.]")), target)
        verdict(h, base, "a", ["a", "b"])
        return
    name = h.text("name", h.choice("length", [1, 2]), r"[^/\x00.]")
    for x in ("a", "b"):
        h.differ(name, x)
    h.link(base.joinpath(name), target)
    before = h.everything()
    delete(h, name, base)
    after = h.everything()
    link = "s/dbms/" + name
    kept = {k: v for k, v in before.items() if not h.same(k, link)}
    h.check(h.same({k: v for k, v in after.items() if not h.same(k, link)}, kept), "deleting a link removed something of the DBMS it leads to")
    h.reach("link")


CASES = [
    dict(name="any_name", fn=any_name, bounds="any name of 0 to 3 characters, three DBMS and other files present"),
    dict(name="odd_names", fn=odd_names, weight=2, bounds="two DBMS with any names of 1 or 2 (thorough 3) characters"),
    dict(name="patterns", fn=patterns, bounds="7 sets of DBMS, 16 to 19 names that are file patterns or paths"),
    dict(name="contents", fn=contents, bounds="0 to 2 further files of any names of 1 to 3 characters, or an empty folder"),
    dict(name="siblings", fn=siblings, bounds="3 names, a second DBMS of that name and 9 fixed or 1 to 6 (thorough 12) of any characters before or behind, same file names, a file beside them"),
    dict(name="inside", fn=inside, bounds="1 to 3 folders one in the other with any names of 1 or 2 characters, with or without a file"),
    dict(name="link", fn=link, bounds="a link of any name of 1 or 2 characters beside or in the folder of a DBMS, to another DBMS or away"),
    dict(name="last", fn=last, bounds="one DBMS of any name of 1 or 2 characters with 0, 1 or 3 files, three folders deep"),
    dict(name="again", fn=again, bounds="deleted once or twice, created anew"),
]

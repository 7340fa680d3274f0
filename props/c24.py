"""Creating a DBMS: fresh files in a folder of its own, nothing that exists is overwritten."""
from props import common

SG = "wiggle_shell.core.select_gdbms"
FRESH = {"node_relationships": {}, "node_labels": [], "relationship_names": []}


def fn(h, name):
    return h.imp(SG, name)


def files(h, base, name):
    d = base.joinpath(name)
    return [d.joinpath("database_" + name + ".json"), d.joinpath("indexes_" + name + ".json"), d.joinpath("wiggle_number_" + name + ".txt")]


def is_fresh(h, paths):
    h.check(h.same(h.load(paths[0]), {}), "a new database is not empty")
    h.check(h.same(h.load(paths[1]), FRESH), "new indexes are not empty")
    h.check(h.same(h.read(paths[2]), "0"), "a new DBMS does not start at 0")


def kept(h, before, after, but=()):
    """Everything that was there is there, unchanged, but for the paths named."""
    for p in before:
        h.check(p in after, "creating a DBMS removed something")
        h.check(h.same(after[p], before[p]), "creating a DBMS changed something that existed")


def rel(h, path):
    """The key of a path in everything()."""
    return str(path).removeprefix(str(h.root) + "/")


def any_name(h):
    """Any name at all, beside two DBMS that exist."""
    base = h.path("dbms")
    n = h.choice("length", [0, 1, 2] if not h.deep else [0, 1, 2, 3, 4])
    name = h.text("name", n)
    here = ["a", "bb"]
    for x in here:
        common.Db(h, wn="7", records={"6": {"x": 1}}, labels=["L"], name=x)
    h.write(base.joinpath("note.txt"), "a file")
    h.write(h.path("database_.json"), "outside")
    before = h.tree(h.path())
    world = h.everything()
    o = h.attempt(fn(h, "get_new_gdbms_file_paths"), name, base)
    after = h.tree(h.path())
    kept(h, before, after)
    taken = any(h.same(name, x) for x in here)
    bad = n == 0 or "/" in name or "\0" in name or h.same(name, ".") or h.same(name, "..")
    if taken or bad:
        h.check(not o.ok, "a DBMS is created under a name that is taken or is no folder name")
        h.check(h.same(h.everything(), world), "a refused name left something behind")
        h.reach("taken" if taken else "no name")
        return
    h.check(o.ok, f"a DBMS cannot be created: {o.error}")
    want = files(h, base, name)
    got = [o.value.database_file_path, o.value.indexes_file_path, o.value.wiggle_number_file_path]
    for w, g in zip(want, got):
        h.check(h.same(str(w), str(g)), "a new DBMS is given files that are not its own")
    is_fresh(h, want)
    h.check(len(after) == len(before) + 4, "a new DBMS is more than one folder with three files")
    h.check(len(h.everything()) == len(world) + 4, "a new DBMS reaches out of its folder")
    h.reach("created")


def creators(h):
    """Each of the three files: made when it does not exist, otherwise refused and left as it is."""
    which = h.choice("file", [0, 1, 2])
    name = h.text("name", h.choice("length", [1, 2]), r"[^/\x00]")
    h.differ(name, ".")
    h.differ(name, "..")
    base = h.path("dbms")
    want = files(h, base, name)
    content = h.text("content", h.choice("content length", [0, 1, 3]))
    there = [h.flag(f"exists{i}") for i in range(3)]
    for i in range(3):
        if there[i]:
            h.write(want[i], content)
    if h.flag("folder exists"):
        h.mkdir(base.joinpath(name))
    before = h.tree(h.path())
    f = fn(h, ["create_new_database", "create_new_indexes_file", "create_new_wiggle_number_file"][which])
    o = h.attempt(f, name, base)
    after = h.tree(h.path())
    kept(h, before, after)
    h.check(o.ok == (not there[which]), "a file that exists is created again, or one that does not is refused")
    if o.ok:
        h.check(h.same(str(o.value), str(want[which])), "another path is returned than was created")
        fresh = {0: {}, 1: FRESH}.get(which)
        if which < 2:
            h.check(h.same(h.load(want[which]), fresh), "a new file is not empty")
        else:
            h.check(h.same(h.read(want[2]), "0"), "a new DBMS does not start at 0")
        h.check(h.same(h.attempt(fn(h, ["get_existing_db_file_path", "get_existing_indexes_file_path", "get_existing_wn_file_path"][which]), name, base).value,
                       o.value), "a new file is not found again")
    h.check(len([p for p in after if p not in before and not p.endswith("/")]) == (1 if o.ok else 0), "another number of files is created")
    h.reach("created" if o.ok else "refused")


def partly(h):
    """A folder that holds some of the files of the name: none of them is overwritten."""
    name = h.choice("name", ["g", "a b", "[x]", "x*"])
    base = h.path("dbms")
    want = files(h, base, name)
    content = h.text("content", h.choice("content length", [0, 2]))
    there = [h.flag(f"exists{i}") for i in range(3)]
    for i in range(3):
        if there[i]:
            h.write(want[i], content)
    h.write(base.joinpath(name, "other.txt"), content)
    before = h.tree(h.path())
    o = h.attempt(fn(h, "get_new_gdbms_file_paths"), name, base)
    kept(h, before, h.tree(h.path()))
    h.check(o.ok == (not any(there)), "a DBMS that partly exists is created again, or a new one is refused")
    if o.ok:
        is_fresh(h, want)
    h.reach("created" if o.ok else "refused")


OTHERS = ["notes.txt", "notes.bak", ".hidden", "database_.json", "database_g.json.bak", "database_G.json", "indexes_gg.json", "wiggle_number_g", "wiggle_number_g.txt~",
          "g", "0", "tmp", "__init__.py", "x.json", "x.tmp", "#x#"]


def others(h):
    """A folder of the name with other files in it, and folders and files beside it: all of them stay."""
    name = h.choice("name", ["g", "g.h", "*"])
    base = h.path("dbms")
    a = h.choice("file", OTHERS)
    b = h.text("other file", h.choice("length", [1, 2, 3]), r"[^/\x00]")
    for x in (".", "..", a):
        h.differ(b, x)
    content = h.text("content", h.choice("content length", [0, 2]))
    where = h.choice("where", ["in", "beside", "both"])
    if where != "beside":
        h.write(base.joinpath(name, a), content)
        h.write(base.joinpath(name, b), "b")
    if where != "in":
        for x in (name, "database_" + name + ".json"):
            h.differ(b, x)
        h.write(base.joinpath(a, "f") if a == name else base.joinpath(a), content)
        h.write(base.joinpath(b), "b")
    before = h.tree(h.path())
    o = h.attempt(fn(h, "get_new_gdbms_file_paths"), name, base)
    kept(h, before, h.tree(h.path()))
    h.check(o.ok, f"a DBMS cannot be created: {o.error}")
    is_fresh(h, files(h, base, name))
    h.reach(where)


def prompt(h):
    """The prompt asks until it is given a name that is free, and creates only that."""
    base = h.path("dbms")
    common.Db(h, wn="7", records={"6": {"x": 1}}, name="a")
    names = []
    for i in range(h.choice("answers", [1, 2, 3])):
        names.append(h.text(f"answer{i}", h.choice(f"length{i}", [0, 1] if i else [0, 1, 2]), r"[ab./]"))
    before = h.tree(h.path())
    free = [not (len(n) == 0 or "/" in n or h.same(n, ".") or h.same(n, "..") or h.same(n, "a")) for n in names]
    o, out, left = h.console(lambda: fn(h, "create_new_dbms")(base), names)
    after = h.tree(h.path())
    kept(h, before, after)
    if not any(free):
        h.check(o is None, "a name that is taken or is no name is accepted")
        h.check(len(after) == len(before), "a refused name left something behind")
        h.reach("asked again")
        return
    k = free.index(True)
    h.check(o is not None and o.ok, "a free name is not accepted")
    h.check(left == len(names) - k - 1, "a name is asked for again after a free one")
    want = files(h, base, names[k])
    h.check(h.same(str(o.value.database_file_path), str(want[0])), "another DBMS is used than was asked for")
    is_fresh(h, want)
    h.check(len(after) == len(before) + 4, "something else was created as well")
    h.reach(f"after {k} refused")


def usable(h):
    """A new DBMS takes queries, and creating further ones leaves it alone."""
    base = h.path("dbms")
    a = h.text("name", 1, r"[^/\x00.]")
    b = h.text("other", h.choice("length", [1, 2]), r"[^/\x00.]")
    o = h.attempt(fn(h, "get_new_gdbms_file_paths"), a, base)
    h.check(o.ok, f"a DBMS cannot be created: {o.error}")
    q = h.imp("wiggle_shell.core.query.query", "query")
    m = h.attempt(q, "MAKE (:A)-[:R]->(:B);", o.value)
    h.check(m.ok, f"a new DBMS takes no query: {m.error}")
    before = h.tree(h.path())
    p = h.attempt(fn(h, "get_new_gdbms_file_paths"), b, base)
    kept(h, before, h.tree(h.path()))
    h.check(h.same(p.ok, h.not_(h.same(a, b))), "a taken name is accepted, or a free one is not")
    if p.ok:
        m = h.attempt(q, "MAKE (:C);", p.value)
        h.check(m.ok, f"a new DBMS takes no query: {m.error}")
        kept(h, before, h.tree(h.path()))
        h.check(list(h.load(p.value.database_file_path)) == ["0"], "a new DBMS does not start at 0")
    h.reach("usable")


CASES = [
    dict(name="any_name", fn=any_name, weight=2, bounds="names of 0 to 2 (thorough 4) of any characters, two DBMS and other files present"),
    dict(name="creators", fn=creators, bounds="each file, any subset of the three present with any contents of up to 3 characters, any name of 1 or 2"),
    dict(name="partly", fn=partly, bounds="any subset of the three files present, 4 names"),
    dict(name="others", fn=others, bounds="16 file names and any of 1 to 3 characters, in the folder of the new DBMS, beside it or both, 3 names"),
    dict(name="prompt", fn=prompt, bounds="1 to 3 answers of up to 2 characters over a, b, ., /"),
    dict(name="usable", fn=usable, bounds="two names of 1 or 2 characters"),
]

"""The environment of the code under test in a symbolic run: an in-memory file system, the
console, the clock, JSON, literal_eval and stand-ins for the modules that reach them.  Nothing
here touches the real file system."""
from __future__ import annotations

import ast as _ast
import codecs
import warnings
import itertools
import datetime as _dt
import errno
import glob as _glob
import io
import json as _json
import logging as _logging
import os as _os
import string as _string
import sys as _sys
import time as _time

import z3

from . import core, ops, strs
from .core import (SymBool, SymFloat, SymInt, Steer, Unsupported, concretise, concretise_str, ctx, enumerate_str,
                   has_sym_str, has_token, is_sym, unmagic)
from .sregex import ReModule


class InputExhausted(Steer):
    """The code asks for more console input than the harness scripted."""


class Exited(Steer):
    pass


# ------------------------------------------------------------------ file system
class VFile:
    __slots__ = ("data", "stamp", "raw")
    clock = [0]

    def __init__(self, data=""):
        self.data = data
        self.raw = []       # (text, charset) that was written
        self.touched()

    def touched(self):
        VFile.clock[0] += 1
        self.stamp = VFile.clock[0]


class VDir:
    __slots__ = ("entries",)

    def __init__(self):
        self.entries = []  # [name, node]


class VLink:
    """A symbolic link to an absolute path."""
    __slots__ = ("target",)

    def __init__(self, target):
        self.target = target


class FileSystem:
    def __init__(self):
        self.root = VDir()
        self.ops = 0
        self.links = 0
        self.log = []
        self.fault = None  # callable(op, path) that may raise OSError
        self.sessions = 0  # files opened for writing since full_from was set
        self.full_from = 0  # from which of them on every write fails

    def mutate(self, op, path):
        self.ops += 1
        self.log.append((op, path))
        if self.fault is not None:
            self.fault(op, path)

    def child(self, d, name):
        for e in d.entries:
            if strs.eq(e[0], name):
                return e
        return None

    def parts(self, path):
        p = fspath(path)
        if p == "":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if strs.contains(p, "\0"):
            raise ValueError("embedded null byte")
        return split_path(p)

    def walk_to(self, parts, path, links=0):
        """Node at the path, or raise."""
        return self.stack_to(parts, path, links)[-1]

    def stack_to(self, parts, path, links):
        stack = [self.root]
        for c in parts:
            d = stack[-1]
            if not isinstance(d, VDir):
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
            if strs.eq(c, ".."):
                if len(stack) > 1:
                    stack.pop()
                continue
            e = self.child(d, c)
            if e is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
            if isinstance(e[1], VLink):
                if links > 8:
                    raise OSError(errno.ELOOP, "Too many levels of symbolic links", str(path))
                stack = self.stack_to(self.parts(e[1].target), path, links + 1)
            else:
                stack.append(e[1])
        return stack

    def lookup(self, path):
        return self.walk_to(self.parts(path), path)

    def get(self, path):
        try:
            return self.lookup(path)
        except (OSError, ValueError):
            return None

    def follow(self, node):
        """What an entry stands for: itself, or the end of a link (None if it leads nowhere)."""
        return self.get(node.target) if isinstance(node, VLink) else node

    def link(self, path, target):
        d, name = self.parent_of(path)
        if self.child(d, name) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", str(path))
        self.mutate("symlink", path)
        self.links += 1
        d.entries.append([name, VLink(fspath(target))])

    def islink(self, path):
        try:
            d, name = self.parent_of(path)
        except (OSError, ValueError):
            return False
        e = None if strs.eq(name, "..") else self.child(d, name)
        return e is not None and isinstance(e[1], VLink)

    def parent_of(self, path):
        ps = self.parts(path)
        if not ps:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", str(path))
        d = self.walk_to(ps[:-1], path)
        if not isinstance(d, VDir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        return d, ps[-1]

    def mkdir(self, path, exist_ok=False):
        ps = self.parts(path)
        d, name = (None, None) if not ps else self.parent_of(path)
        if d is None or strs.eq(name, "..") or self.child(d, name) is not None:
            if exist_ok and isinstance(self.get(path), VDir):
                return
            raise FileExistsError(errno.EEXIST, "File exists", str(path))
        self.mutate("mkdir", path)
        d.entries.append([name, VDir()])

    def makedirs(self, path, exist_ok=False):
        ps = self.parts(path)
        for i in range(1, len(ps)):
            sub = "/" + "/".join(ps[:i])
            n = self.get(sub)
            if n is None:
                self.mkdir(sub)
            elif not isinstance(n, VDir):
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        self.mkdir(path, exist_ok)

    def remove(self, path):
        d, name = self.parent_of(path)
        e = None if strs.eq(name, "..") else self.child(d, name)
        if e is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        if isinstance(e[1], VDir):
            raise IsADirectoryError(errno.EISDIR, "Is a directory", str(path))
        self.mutate("remove", path)
        d.entries.remove(e)

    def rmdir(self, path):
        d, name = self.parent_of(path)
        if strs.eq(name, ".."):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", str(path))
        e = self.child(d, name)
        if e is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        if not isinstance(e[1], VDir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        if e[1].entries:
            raise OSError(errno.ENOTEMPTY, "Directory not empty", str(path))
        self.mutate("rmdir", path)
        d.entries.remove(e)

    def rename(self, a, b):
        d, name = self.parent_of(a)
        e = self.child(d, name)
        if e is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(a))
        d2, name2 = self.parent_of(b)
        e2 = self.child(d2, name2)
        if e2 is e:
            return
        if e2 is not None:
            if isinstance(e2[1], VDir):
                raise IsADirectoryError(errno.EISDIR, "Is a directory", str(b))
            self.mutate("rename", b)
            d2.entries.remove(e2)
        else:
            self.mutate("rename", b)
        d.entries.remove(e)
        d2.entries.append([name2, e[1]])

    def rmtree(self, path):
        n = self.lookup(path)
        if not isinstance(n, VDir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        d, name = self.parent_of(path)
        e = self.child(d, name)
        if e is None:
            raise Unsupported("rmtree of a path that ends with ..")
        if isinstance(e[1], VLink):
            raise OSError("Cannot call rmtree on a symbolic link")
        self.mutate("rmtree", path)
        d.entries.remove(e)

    def listdir(self, path):
        n = self.lookup(path)
        if not isinstance(n, VDir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        return [e[0] for e in n.entries]

    def tree(self, path="/"):
        """{relative path: text or None for a directory} (nothing forks)."""
        out = {}

        def go(n, pre):
            for name, x in n.entries:
                p = pre + name
                if isinstance(x, VDir):
                    out[p + "/"] = None
                    go(x, p + "/")
                elif isinstance(x, VLink):
                    out[p] = "<link>"
                else:
                    out[p] = x.data
        n = self.lookup(path)
        go(n, "")
        return out


FS: FileSystem = FileSystem()
OUT: list = []
INPUTS: list = []
CLOCK: list = []


def reset():
    global FS
    FS = FileSystem()
    OUT.clear()
    INPUTS.clear()
    CLOCK.clear()
    LOCAL[0] = 0
    ops._ticks[0] = 0


def fspath(p):
    if isinstance(p, VPath):
        return p._s
    if isinstance(p, str):
        return p
    if hasattr(p, "__fspath__"):
        return p.__fspath__()
    raise TypeError(f"expected str, bytes or os.PathLike object, not {type(p).__name__}")


CWD = "/repo"


def split_path(p):
    """Components without '' and '.' (forks on symbolic separators); relative to CWD."""
    comps = strs.split(p, "/")
    absolute = len(comps) > 1 and comps[0] == "" or (comps and comps[0] == "" and len(comps) > 1)
    out = [c for c in comps if c != "" and not strs.eq(c, ".")]
    if not absolute:
        out = CWD.strip("/").split("/") + out
    return out


class TokBytes(bytes):
    """UTF-8 of a text with symbolic characters.  It can be stored and decoded; anything else settles what it is."""

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower() not in ("utf-8", "utf8"):
            raise Unsupported(f"decoding from {encoding}")
        return bytes.decode(self)

    def settled(self):
        return enumerate_str(bytes.decode(self)).encode()


def _settling(name):
    def f(self, *a, **k):
        return getattr(self.settled(), name)(*[x.settled() if isinstance(x, TokBytes) else x for x in a], **k)
    return f


for _n in ("__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __len__ __getitem__ __iter__ __contains__ __add__ __mul__ __repr__ "
           "__str__ hex find rfind index count split rsplit splitlines strip lstrip rstrip startswith endswith replace join partition "
           "rpartition upper lower translate isalpha isdigit isspace title removeprefix removesuffix").split():
    setattr(TokBytes, _n, _settling(_n))


def encode(text, encoding="utf-8", errors="strict"):
    """text.encode(...)"""
    if has_token(text):
        text = enumerate_str(text)
    if has_sym_str(text):
        if encoding.lower() not in ("utf-8", "utf8"):
            return enumerate_str(text).encode(encoding, errors)
        return TokBytes(str.encode(text))
    return text.encode(encoding, errors)


class RawText(str):
    """JSON text with the characters themselves: escaped here, as it is in `raw`."""

    def encode(self, encoding="utf-8", errors="strict"):
        if charset(encoding):
            raise Unsupported(f"encoding in {encoding}")
        return str.encode(self)

    def __len__(self):
        return len(self.raw)


def charset(encoding):
    """None: UTF-8."""
    if encoding is None:
        return None
    n = codecs.lookup(encoding).name
    return None if n == "utf-8" else n


def _can(encoding):
    def can(ch):
        try:
            ch.encode(encoding)
        except UnicodeError:
            return False
        return True
    return can


def fitted(text, encoding, errors):
    """What of the text gets through an encoding."""
    can, out = _can(encoding), []
    mask = core.mask_if(can)
    for ch in text:
        if ch < "\x80" or has_token(ch) or strs.char_in(ch, mask, can):
            out.append(ch)
        elif errors in (None, "strict"):
            raise UnicodeEncodeError(encoding, "?", 0, 1, "character out of range")
        elif errors == "replace":
            out.append("?")
        elif errors != "ignore":
            raise Unsupported(f"errors={errors}")
    return "".join(out)


def beyond_ascii(text):
    can = _can("ascii")
    mask = core.mask_if(can)
    return any(not (ch < "\x80" or has_token(ch) or strs.char_in(ch, mask, can)) for ch in text)


class VHandle:
    full = False
    binary = False
    charset = errors = None

    def __init__(self, node, path, mode):
        self.node, self.name, self.mode = node, path, mode
        self.pos = 0
        self.closed = False
        self.readable_ = "r" in mode or "+" in mode
        self.writable_ = any(c in mode for c in "wax+")
        if "a" in mode:
            self.pos = len(node.data)
        self.encoding = "utf-8"

    def _chk(self, w):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if w and not self.writable_:
            raise io.UnsupportedOperation("not writable")
        if not w and not self.readable_:
            raise io.UnsupportedOperation("not readable")

    def _legible(self):
        for raw, c in self.node.raw:
            if c != self.charset and not self.binary and beyond_ascii(raw):
                raise UnicodeDecodeError(self.charset or "utf-8", b"\xe9", 0, 1, "unexpected byte")

    def _room(self):
        if self.full:
            raise OSError(errno.ENOSPC, "No space left on device", str(self.name))

    def read(self, n=-1):
        self._chk(False)
        self._legible()
        d = self.node.data
        if n is None or n < 0:
            r = d[self.pos:]
        else:
            r = d[self.pos:self.pos + n]
        self.pos += len(r)
        return encode(r) if self.binary else r

    def readline(self, limit=-1):
        self._chk(False)
        self._legible()
        d = self.node.data[self.pos:]
        i = strs.find(d, "\n") if has_sym_str(d) else d.find("\n")
        r = d if i < 0 else d[:i + 1]
        self.pos += len(r)
        return encode(r) if self.binary else r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        self._chk(False)
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def write(self, s):
        self._chk(True)
        if self.binary:
            if isinstance(s, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            s = bytes(s).decode() if not isinstance(s, TokBytes) else s.decode()
        raw = s.raw if isinstance(s, RawText) else s
        if self.charset:
            raw = fitted(raw, self.charset, self.errors)
            s = "".join(c if c < "\x80" else _json.encoder.py_encode_basestring_ascii(c)[1:-1] for c in raw) \
                if isinstance(s, RawText) else raw
        if not isinstance(s, str):
            raise TypeError(f"write() argument must be str, not {type(s).__name__}")
        self._room()
        FS.mutate("write", self.name)
        self.node.touched()
        d = self.node.data
        if not d or self.pos == 0:
            self.node.raw = []
        self.node.raw.append((raw, self.charset))
        if "a" in self.mode:
            self.pos = len(d)
        if self.pos > len(d):
            d = d + "\0" * (self.pos - len(d))
        n = str.__len__(s)
        self.node.data = d[:self.pos] + s + d[self.pos + n:]
        self.pos += n
        return len(raw)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        off = core.concretise_int(off) if isinstance(off, SymInt) else off
        if whence == 0:
            if off < 0:
                raise ValueError(f"negative seek position {off}")
            self.pos = off
        elif whence == 1:
            if off:
                raise io.UnsupportedOperation("can't do nonzero cur-relative seeks")
        else:
            if off:
                raise io.UnsupportedOperation("can't do nonzero end-relative seeks")
            self.pos = len(self.node.data)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        self._chk(True)
        d = self.node.data
        if n is None:
            n = self.pos
        elif self.node.raw and n == len(self.node.raw[-1][0]):
            # as many bytes as the text has characters
            n = self.pos - (1 if beyond_ascii(self.node.raw[-1][0]) else 0)
        if n > len(d):
            self._room()    # a full disk has always room for a file that gets shorter
        FS.mutate("truncate", self.name)
        self.node.touched()
        self.node.data = d[:n] + "\0" * max(0, n - len(d))
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return 3

    def isatty(self):
        return False

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def __enter__(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self

    def __exit__(self, *a):
        self.close()
        return False


def v_open(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(path, int):
        if path not in _Temp.fds:
            raise Unsupported("open on a file descriptor")
        path, mode = _Temp.fds.pop(path), mode.replace("w", "r+")
    if has_sym_str(mode):
        mode = concretise_str(mode)
    m = mode.replace("t", "").replace("b", "")
    if m not in ("r", "r+", "w", "w+", "a", "a+", "x", "x+"):
        raise ValueError(f"invalid mode: {mode!r}")
    p = fspath(path)
    trailing = p.endswith("/")
    d, name = FS.parent_of(p)
    e = FS.child(d, name) if not strs.eq(name, "..") else [name, VDir()]
    if e is not None and isinstance(e[1], VLink):
        e = [name, FS.get(p)] if FS.get(p) is not None else None
        if e is None and not m.startswith("r"):
            raise Unsupported("creating the file a link leads to")
    if e is not None and isinstance(e[1], VDir):
        raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
    if trailing:
        raise (NotADirectoryError(errno.ENOTDIR, "Not a directory", p) if e else
               IsADirectoryError(errno.EISDIR, "Is a directory", p))
    if e is None:
        if m.startswith("r"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        FS.mutate("create", p)
        e = [name, VFile()]
        d.entries.append(e)
    else:
        if m.startswith("x"):
            raise FileExistsError(errno.EEXIST, "File exists", p)
        if m.startswith("w"):
            FS.mutate("truncate", p)
            e[1].touched()
            e[1].data = ""
    h = VHandle(e[1], p, m)
    h.binary = "b" in mode
    h.charset, h.errors = charset(encoding), errors
    if FS.full_from and m != "r":
        FS.sessions += 1
        h.full = FS.sessions >= FS.full_from
    return h


# ------------------------------------------------------------------ pathlib
class VPath:
    """Stands for pathlib.Path (POSIX)."""
    __slots__ = ("_s", "_parts")

    def __new__(cls, *segs):
        self = object.__new__(cls)
        cur = ""
        for s in segs:
            s = fspath(s)
            if s == "":
                continue
            if strs.eq(s[0], "/"):
                cur = s
            else:
                cur = s if cur == "" else cur + "/" + s
        comps = strs.split(cur, "/") if cur else []
        absolute = len(comps) > 1 and comps[0] == ""
        parts = [c for c in comps if c != "" and not strs.eq(c, ".")]
        self._parts = (("/",) if absolute else ()) + tuple(parts)
        self._s = ("/" if absolute else "") + "/".join(parts)
        if self._s == "":
            self._s = "."
        return self

    @classmethod
    def __get_validators__(cls):
        yield cls._validate

    @classmethod
    def _validate(cls, v):
        if isinstance(v, VPath):
            return v
        return cls(v)

    @classmethod
    def __modify_schema__(cls, s):
        pass

    @classmethod
    def cwd(cls):
        return cls(CWD)

    @classmethod
    def home(cls):
        return cls("/root")

    def __fspath__(self):
        return self._s

    def __str__(self):
        return self._s

    def __repr__(self):
        return f"PosixPath({ops.to_repr(self._s)})"

    def as_posix(self):
        return self._s

    def __truediv__(self, o):
        try:
            return VPath(self, o)
        except TypeError:
            return NotImplemented

    def __rtruediv__(self, o):
        return VPath(o, self)

    def joinpath(self, *o):
        return VPath(self, *o)

    def __eq__(self, o):
        if not isinstance(o, VPath):
            return NotImplemented
        return strs.eq(self._s, o._s)

    def __hash__(self):
        return 0 if has_sym_str(self._s) else hash(self._s)

    def __lt__(self, o):
        return ops.less(list(self._parts), list(o._parts))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def parts(self):
        return self._parts

    @property
    def name(self):
        ps = [p for p in self._parts if p != "/"]
        return ps[-1] if ps else ""

    @property
    def stem(self):
        n = self.name
        i = strs.rfind(n, ".")
        return n[:i] if 0 < i < len(n) - 1 else n

    @property
    def suffix(self):
        n = self.name
        i = strs.rfind(n, ".")
        return n[i:] if 0 < i < len(n) - 1 else ""

    @property
    def suffixes(self):
        n = strs.lstrip(self.name, ".")
        return [] if strs.endswith(n, ".") else ["." + x for x in strs.split(n, ".")[1:]]

    @property
    def drive(self):
        return ""

    anchor = property(lambda self: self.root)

    def _from(self, parts):
        p = object.__new__(VPath)
        p._parts = tuple(parts)
        if parts and parts[0] == "/":
            p._s = "/" + "/".join(parts[1:])
        else:
            p._s = "/".join(parts) or "."
        return p

    @property
    def parent(self):
        ps = self._parts
        if not ps or ps == ("/",):
            return self
        return self._from(ps[:-1])

    @property
    def parents(self):
        out, p = [], self
        while p.parent is not p:
            p = p.parent
            out.append(p)
        return out

    @property
    def root(self):
        return "/" if self.is_absolute() else ""

    anchor = root
    drive = ""

    def is_absolute(self):
        return bool(self._parts) and self._parts[0] == "/"

    def with_name(self, n):
        return VPath(self.parent, n)

    def with_suffix(self, s):
        return VPath(self.parent, self.stem + s)

    def with_stem(self, s):
        return VPath(self.parent, s + self.suffix)

    def absolute(self):
        return self if self.is_absolute() else VPath(CWD, self)

    def resolve(self, strict=False):
        out = []
        for c in self.absolute()._parts[1:]:
            if strs.eq(c, ".."):
                if out:
                    out.pop()
            else:
                out.append(c)
                if FS.links and FS.islink(self._from(["/"] + out)):
                    d, name = FS.parent_of(self._from(["/"] + out))
                    out = VPath(FS.child(d, name)[1].target).resolve()._parts[1:]
        return self._from(["/"] + list(out))

    def expanduser(self):
        return self

    def relative_to(self, *o):
        o = VPath(*o)
        n = len(o._parts)
        if len(self._parts) < n or not all(strs.eq(a, b) for a, b in zip(self._parts, o._parts)):
            raise ValueError(f"{self._s!r} is not in the subpath of {o._s!r}")
        return self._from(self._parts[n:])

    def is_relative_to(self, *o):
        try:
            self.relative_to(*o)
            return True
        except ValueError:
            return False

    def exists(self, **k):
        return FS.get(self) is not None

    def is_file(self):
        return isinstance(FS.get(self), VFile)

    def is_dir(self):
        return isinstance(FS.get(self), VDir)

    def is_symlink(self):
        return FS.islink(self)

    def symlink_to(self, target, target_is_directory=False):
        FS.link(self, VPath(target).absolute())

    def iterdir(self):
        for n in FS.listdir(self):
            yield self._from(list(self._parts) + [n])

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            FS.makedirs(self, exist_ok)
        else:
            FS.mkdir(self, exist_ok)

    def touch(self, mode=0o666, exist_ok=True):
        if FS.get(self) is not None:
            if not exist_ok:
                raise FileExistsError(errno.EEXIST, "File exists", self._s)
            return
        v_open(self, "a").close()

    def open(self, mode="r", *a, **k):
        return v_open(self, mode, *a, **k)

    def read_text(self, encoding=None, errors=None, newline=None):
        return v_open(self, encoding=encoding, errors=errors).read()

    def read_bytes(self):
        return v_open(self, "rb").read()

    def write_bytes(self, s):
        with v_open(self, "wb") as h:
            return h.write(s)

    def write_text(self, s, encoding=None, errors=None, newline=None):
        with v_open(self, "w", encoding=encoding, errors=errors) as h:
            return h.write(s)

    def unlink(self, missing_ok=False):
        try:
            FS.remove(self)
        except FileNotFoundError:
            if not missing_ok:
                raise

    def rmdir(self):
        FS.rmdir(self)

    def rename(self, t):
        FS.rename(self, t)
        return VPath(t)

    replace = rename

    def stat(self, **k):
        return _stat(self)

    def glob(self, pattern):
        for x in g_glob(g_escape(self._s) + "/" + pattern, recursive="**" in pattern, hidden=True):
            yield VPath(x)

    def rglob(self, pattern):
        yield from self.glob("**/" + pattern)

    def match(self, pattern):
        want, have = VPath(pattern).parts, self.parts
        return len(have) >= len(want) and all(fnmatch(a, b) for a, b in zip(have[len(have) - len(want):], want))

    def samefile(self, o):
        return FS.lookup(self) is FS.lookup(o)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Path.{n}")


# ------------------------------------------------------------------ glob / fnmatch
_MAGIC = core.mask_of("*?[")


def has_magic(s):
    return any(strs.char_in(ch, _MAGIC, lambda c: c in "*?[") for ch in s)


def g_escape(s):
    return ReModule().sub(r"([*?[])", r"[\1]", fspath(s))


def _tokens(pat):
    """fnmatch pattern -> list of ('*',) ('?',) ('c', ch) ('set', negate, items)"""
    out, i, n = [], 0, len(pat)
    while i < n:
        ch = pat[i]
        i += 1
        if strs.eq(ch, "*"):
            if not out or out[-1] != ("*",):
                out.append(("*",))
        elif strs.eq(ch, "?"):
            out.append(("?",))
        elif strs.eq(ch, "["):
            j = i
            if j < n and strs.eq(pat[j], "!"):
                j += 1
            if j < n and strs.eq(pat[j], "]"):
                j += 1
            while j < n and not strs.eq(pat[j], "]"):
                j += 1
            if j >= n:
                out.append(("c", ch))
            else:
                body = pat[i:j]
                neg = body[:1] != "" and strs.eq(body[0], "!")
                if neg:
                    body = body[1:]
                if strs.contains(body, "-"):
                    body = enumerate_str(body)
                    chars = "".join(c for c in core.ALPHABET if __import__("fnmatch").fnmatchcase(c, "[" + body + "]"))
                    body = chars
                out.append(("set", neg, body))
                i = j + 1
        else:
            out.append(("c", ch))
    return out


def fnmatch(name, pat):
    toks = _tokens(pat)

    def go(i, j):
        if i == len(toks):
            return j == len(name)
        t = toks[i]
        if t[0] == "*":
            return any(go(i + 1, k) for k in range(j, len(name) + 1))
        if j >= len(name):
            return False
        if t[0] == "?":
            return go(i + 1, j + 1)
        if t[0] == "c":
            return strs.eq(t[1], name[j]) and go(i + 1, j + 1)
        hit = any(strs.eq(c, name[j]) for c in t[2])
        return hit != t[1] and go(i + 1, j + 1)
    return go(0, 0)


def g_glob(pathname, *, root_dir=None, dir_fd=None, recursive=False, include_hidden=False, hidden=False):
    pathname = fspath(pathname)
    if root_dir is not None:
        raise Unsupported("glob root_dir")
    if pathname == "":
        return []
    absolute = strs.eq(pathname[0], "/")
    comps = [c for c in strs.split(pathname, "/")]
    trailing = comps[-1] == ""
    comps = [c for c in comps if c != ""]
    bases = ["/" if absolute else ""]
    for k, c in enumerate(comps):
        last = k == len(comps) - 1
        nxt = []
        for b in bases:
            if recursive and c == "**":
                nxt.append(b)

                def rec(p):
                    n = FS.get(p or ".")
                    if isinstance(n, VDir):
                        for name, x in n.entries:
                            if not hidden and strs.eq(name[:1], "."):
                                continue
                            q = (p if p.endswith("/") or p == "" else p + "/") + name
                            x = x if hidden else FS.follow(x)   # pathlib follows no link in **
                            if isinstance(x, VDir) or last:
                                nxt.append(q)
                            if isinstance(x, VDir):
                                rec(q)
                rec(b)
            elif not has_magic(c):
                q = (b if b.endswith("/") or b == "" else b + "/") + c
                n = FS.get(q)
                if n is not None and (last and not trailing or isinstance(n, VDir)):
                    nxt.append(q)
            else:
                n = FS.get(b or ".")
                if isinstance(n, VDir):
                    for name, x in list(n.entries):
                        if not (hidden or include_hidden) and strs.eq(name[:1], ".") and not strs.eq(c[:1], "."):
                            continue
                        if fnmatch(name, c) and (last and not trailing or isinstance(FS.follow(x), VDir)):
                            nxt.append((b if b.endswith("/") or b == "" else b + "/") + name)
        bases = nxt
    return [b + "/" if trailing else b for b in bases]


# ------------------------------------------------------------------ module stand-ins
class Shim:
    _shim_class = True

    def __init__(self, name, real=None, passthrough=(), **attrs):
        self.__dict__.update(attrs)
        self.__dict__["__name__"] = name
        self.__dict__["_shim"] = name
        for p in passthrough:
            if hasattr(real, p):
                self.__dict__[p] = getattr(real, p)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self._shim}.{n}")


class _OsPath:
    sep = "/"

    def join(self, *a):
        cur = ""
        for s in a:
            s = fspath(s)
            if s[:1] != "" and strs.eq(s[0], "/"):
                cur = s
            elif cur == "" or cur.endswith("/"):
                cur += s
            else:
                cur += "/" + s
        return cur

    def exists(self, p):
        return FS.get(p) is not None

    lexists = exists

    def isfile(self, p):
        return isinstance(FS.get(p), VFile)

    def isdir(self, p):
        return isinstance(FS.get(p), VDir)

    def islink(self, p):
        return FS.islink(p)

    def basename(self, p):
        p = fspath(p)
        return p[strs.rfind(p, "/") + 1:]

    def dirname(self, p):
        p = fspath(p)
        i = strs.rfind(p, "/") + 1
        h = p[:i]
        return strs.rstrip(h, "/") or h

    def split(self, p):
        return self.dirname(p), self.basename(p)

    def splitext(self, p):
        p = fspath(p)
        b = self.basename(p)
        i = strs.rfind(b, ".")
        if i <= 0:
            return p, ""
        return p[:len(p) - len(b) + i], b[i:]

    def abspath(self, p):
        return self.normpath(VPath(p).absolute())

    def realpath(self, p, **k):
        return str(VPath(p).resolve())

    def normpath(self, p):
        v = VPath(p)
        root = v.is_absolute()
        out = []
        for c in v._parts[1:] if root else v._parts:
            if not strs.eq(c, ".."):
                out.append(c)
            elif out and out[-1] != "..":
                out.pop()
            elif not root:
                out.append("..")
        return str(v._from((["/"] if root else []) + out))

    def isabs(self, p):
        p = fspath(p)
        return p[:1] != "" and strs.eq(p[0], "/")

    def expanduser(self, p):
        return fspath(p)

    def getmtime(self, p):
        return _stat(p).st_mtime

    def getsize(self, p):
        n = FS.lookup(p)
        return len(n.data)

    def commonpath(self, ps):
        raise Unsupported("os.path.commonpath")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"os.path.{n}")


class _DirEntry:
    def __init__(self, d, name, node):
        self.name, self.path, self._n = name, d.rstrip("/") + "/" + name, node

    def _to(self, follow_symlinks=True):
        return FS.follow(self._n) if follow_symlinks else self._n

    def is_dir(self, **k):
        return isinstance(self._to(**k), VDir)

    def is_file(self, **k):
        return isinstance(self._to(**k), VFile)

    def is_symlink(self):
        return isinstance(self._n, VLink)

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(p="."):
    n = FS.lookup(p)
    if not isinstance(n, VDir):
        raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(p))
    return _Scan(_DirEntry(fspath(p), a, b) for a, b in n.entries)


def _walk(top, topdown=True, onerror=None, followlinks=False):
    n = FS.get(top)
    if not isinstance(n, VDir):
        return
    top = fspath(top)
    ds = [a for a, b in n.entries if isinstance(FS.follow(b), VDir)]
    fs = [a for a, b in n.entries if not isinstance(FS.follow(b), VDir)]
    if topdown:
        yield top, ds, fs
    for d in ds:
        sub = top.rstrip("/") + "/" + d
        if followlinks or not FS.islink(sub):
            yield from _walk(sub, topdown, onerror, followlinks)
    if not topdown:
        yield top, ds, fs


def _stat(p, **k):
    n = FS.lookup(p)

    class St:
        st_size = len(n.data) if isinstance(n, VFile) else 0
        st_mtime = 1.6e9 + (n.stamp if isinstance(n, VFile) else 0)
        st_mtime_ns = int(st_mtime) * 10 ** 9
        st_ctime = st_mtime
        st_mode = 0o100644 if isinstance(n, VFile) else 0o40755
    return St()


def _removedirs(p):
    FS.rmdir(p)
    p = OSPATH.dirname(strs.rstrip(fspath(p), "/"))
    while p and p != "/":
        try:
            FS.rmdir(p)
        except OSError:
            return
        p = OSPATH.dirname(strs.rstrip(p, "/"))


OSPATH = _OsPath()
OS = Shim("os", _os, ("PathLike", "name", "linesep", "curdir", "pardir", "extsep", "altsep", "pathsep", "R_OK", "W_OK",
                      "F_OK", "O_RDWR", "O_CREAT", "O_EXCL", "error", "SEEK_SET", "SEEK_END", "SEEK_CUR"),
          sep="/", path=OSPATH, environ={}, fspath=fspath,
          getenv=lambda k, d=None: d,
          getcwd=lambda: CWD, remove=lambda p: FS.remove(p), unlink=lambda p: FS.remove(p),
          rename=lambda a, b: FS.rename(a, b), replace=lambda a, b: FS.rename(a, b),
          mkdir=lambda p, mode=0o777: FS.mkdir(p), rmdir=lambda p: FS.rmdir(p),
          makedirs=lambda p, mode=0o777, exist_ok=False: FS.makedirs(p, exist_ok),
          removedirs=_removedirs, stat=_stat,
          listdir=lambda p=".": FS.listdir(p), scandir=_scandir, walk=_walk, fsync=lambda fd: None,
          sync=lambda: None, access=lambda p, m: FS.get(p) is not None, getpid=lambda: 4242,
          chmod=lambda *a, **k: None, fdatasync=lambda fd: None,
          fdopen=lambda fd, *a, **k: v_open(fd, *a, **k), close=lambda fd: _Temp.fds.pop(fd, None) and None)


def _copyfile(a, b, **k):
    n = FS.lookup(a)
    if isinstance(FS.get(b), VDir):
        b = fspath(b).rstrip("/") + "/" + OSPATH.basename(a)
    with v_open(b, "w") as h:
        h.write(n.data)
    return b


def _copytree(a, b, dirs_exist_ok=False, **k):
    FS.makedirs(b, dirs_exist_ok)
    for e in FS.listdir(a):
        x, y = OSPATH.join(fspath(a), e), OSPATH.join(fspath(b), e)
        _copytree(x, y, dirs_exist_ok) if isinstance(FS.get(x), VDir) else _copyfile(x, y)
    return b


def _move(a, b, **k):
    if isinstance(FS.get(b), VDir):
        b = OSPATH.join(fspath(b), OSPATH.basename(strs.rstrip(fspath(a), "/")))
    FS.rename(a, b)
    return b


SHUTIL = Shim("shutil", copytree=_copytree, rmtree=lambda p, ignore_errors=False, onerror=None: FS.rmtree(p),
              copy=_copyfile, copyfile=_copyfile, copy2=_copyfile,
              move=_move)


class _TempDir:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self.name

    def cleanup(self):
        FS.rmtree(self.name)

    def __exit__(self, *a):
        self.cleanup()


class _Temp:
    n = [0]

    def NamedTemporaryFile(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None,
                           dir=None, delete=True, **k):
        _Temp.n[0] += 1
        d = fspath(dir) if dir is not None else "/tmp"
        if FS.get(d) is None:
            FS.makedirs(d)
        p = f"{d}/{prefix or 'tmp'}{_Temp.n[0]:06d}{suffix or ''}"
        h = v_open(p, mode.replace("b", "") if "b" in mode else mode)
        if delete:
            close = h.close

            def cl():
                if not h.closed:
                    close()
                    if FS.get(p) is not None:
                        FS.remove(p)
            h.close = cl
        return h

    fds = {}

    def _new(self, suffix, prefix, dir):
        _Temp.n[0] += 1
        d = fspath(dir) if dir is not None else "/tmp"
        if FS.get(d) is None and dir is None:
            FS.makedirs(d)
        return f"{d}/{prefix or 'tmp'}{_Temp.n[0]:06d}{suffix or ''}"

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        p = self._new(suffix, prefix, dir)
        v_open(p, "x").close()
        fd = 100 + _Temp.n[0]
        _Temp.fds[fd] = p
        return fd, p

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        p = self._new(suffix, prefix, dir)
        FS.mkdir(p)
        return p

    def TemporaryDirectory(self, suffix=None, prefix=None, dir=None, **k):
        return _TempDir(self.mkdtemp(suffix, prefix, dir))

    def gettempdir(self):
        return "/tmp"

    def __getattr__(self, n):
        raise Unsupported(f"tempfile.{n}")


# -- json
def _jkey(k):
    if isinstance(k, SymInt):
        return ctx().token(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymFloat):
        raise Unsupported("symbolic float as a JSON key")
    return k


def _jprep(v, default=None):
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, dict):
        return {_jkey(k): _jprep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_jprep(x) for x in v]
    return v


def j_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None,
            separators=None, default=None, sort_keys=False, **kw):
    if is_sym(obj):
        sort_keys = False
        obj = _jprep(obj)
    if default is not None:
        d0 = default
        default = lambda o: ops.call(d0, o)
    # symbolic characters stay escaped in the text so that it can be read back
    text = _json.dumps(obj, skipkeys=skipkeys, ensure_ascii=True, allow_nan=allow_nan, cls=cls, indent=indent,
                       separators=separators, default=default, sort_keys=sort_keys, **kw)
    if not ensure_ascii:
        text = RawText(text)
        text.raw = _json.dumps(obj, skipkeys=skipkeys, ensure_ascii=False, allow_nan=allow_nan, cls=cls, indent=indent,
                               separators=separators, default=default, sort_keys=sort_keys, **kw)
    return text


def j_dump(obj, fp, **kw):
    # like the real one: what was encoded before a failure has been written
    try:
        text = j_dumps(obj, **kw)
    except (TypeError, ValueError):
        fp.write(_partial(obj, kw))
        raise
    fp.write(text)


def _partial(obj, kw):
    out = []
    kw = dict(kw)
    kw.pop("ensure_ascii", None)
    kw.pop("cls", None)
    try:
        for c in _json.JSONEncoder(**{k: v for k, v in kw.items() if k in (
                "skipkeys", "indent", "separators", "default", "sort_keys", "allow_nan")}).iterencode(_jprep(obj)):
            out.append(c)
    except (TypeError, ValueError):
        pass
    return "".join(out)


def j_loads(s, **kw):
    if isinstance(s, TokBytes):
        s = s.decode()
    if isinstance(s, str) and has_sym_str(s):
        s = enumerate_str(s)
    if not isinstance(s, (str, bytes)):
        raise TypeError(f"the JSON object must be str, bytes or bytearray, not {type(s).__name__}")
    return unmagic(_json.loads(s, **kw))


def j_load(fp, **kw):
    return j_loads(fp.read(), **kw)


JSON = Shim("json", _json, ("JSONDecodeError", "JSONEncoder", "JSONDecoder"),
            dump=j_dump, dumps=j_dumps, load=j_load, loads=j_loads,
            decoder=Shim("json.decoder", _json.decoder, ("JSONDecodeError", "JSONDecoder")),
            encoder=Shim("json.encoder", _json.encoder, ("JSONEncoder",)))


# -- literal_eval
_STR = r"'[^'\\\r\n\0]*'|\"[^\"\\\r\n\0]*\""
_ELEM = rf"(?:{_STR}|True|False|None|-?[0-9]+\.[0-9]+|-?(?:0|[1-9][0-9]*))"
_LIST = rf"[ \t]*\[[ \t\n]*(?:{_ELEM}(?:[ \t\n]*,[ \t\n]*{_ELEM})*[ \t\n]*,?[ \t\n]*)?\][ \t\n]*"
_SAFEALL = core.mask_of(_string.ascii_letters + _string.digits + " _")


def _lex_classes():
    """Characters that play the same part in a Python literal (outside of quotes)."""
    single = set(_string.punctuation + _string.digits + "abcdefABCDEFjJoOxXuUrRnNtTlLsS \t\n\r\f_") & set(core.ALPHABET)
    groups = {}
    for i, ch in enumerate(core.ALPHABET):
        if ch in single:
            k = ch
        elif ch.isascii() and ch.isalpha():
            k = "letter"
        else:
            k = (ch.isidentifier(), ("a" + ch).isidentifier(), ch.isprintable(), ch.isascii() and ch)
        groups[k] = groups.get(k, 0) | 1 << i
    return list(groups.values())


warnings.simplefilter("ignore", SyntaxWarning)
_LEX = _lex_classes()
_TABLES = {}


def _outcome(f, t):
    try:
        return ("value", repr(f(t)))
    except Exception as e:
        return ("raise", type(e))


def tabulate(s, f, limit=6000):
    """f(s) for a concrete function of a string: forks over the outcomes, not over the characters."""
    c = core.ctx()
    bases = []
    for ch in s:
        if core.CH0 <= ord(ch) < core.TOK0:
            b = c.chars[ord(ch) - core.CH0][0]
            if b not in bases and c.doms[b].bit_count() > 1:
                bases.append(b)
    if not bases or len(bases) > 3:
        return f(enumerate_str(s, 700, "unusual text fixed to one value"))
    for b in bases[1:]:
        c.split(c.base_char(b), _LEX)
    doms = [[i for i in range(core.NALPH) if c.doms[b] >> i & 1] for b in bases]
    total = 1
    for d in doms:
        total *= len(d)
    if total > limit:
        return f(enumerate_str(s, 700, "unusual text fixed to one value"))
    shape = []
    for ch in s:
        o = ord(ch)
        if core.CH0 <= o < core.TOK0:
            b, table = c.chars[o - core.CH0]
            if b in bases:
                shape.append((bases.index(b), table))
                continue
            i = c.doms[b].bit_length() - 1
            ch = core.ALPHABET[table[i] if table else i]
        shape.append(ch)
    key = (f, tuple(x if isinstance(x, str) else (x[0], id(x[1])) for x in shape), tuple(map(tuple, doms)))
    groups = _TABLES.get(key)
    if groups is None:
        groups = {}
        for combo in itertools.product(*doms):
            t = "".join(x if isinstance(x, str) else core.ALPHABET[x[1][combo[x[0]]] if x[1] else combo[x[0]]] for x in shape)
            groups.setdefault(_outcome(f, t), []).append(combo)
        if len(_TABLES) > 3000:
            _TABLES.clear()
        _TABLES[key] = groups
    if len(groups) > 1:
        # by the first character alone, as far as that settles it
        per = {}
        for k, combos in groups.items():
            for x in combos:
                per.setdefault(x[0], set()).add(k)
        masks = {}
        for i, ks in per.items():
            k = next(iter(ks)) if len(ks) == 1 else ("mixed", i)
            masks[k] = masks.get(k, 0) | 1 << i
        order = sorted(masks, key=lambda k: masks[k])
        k = order[c.split(c.base_char(bases[0]), [masks[x] for x in order])]
        if k[0] == "mixed":
            return f(enumerate_str(s, 700, "unusual text fixed to one value"))
    else:
        k = next(iter(groups))
    if k[0] == "raise":
        raise k[1]("of a text")
    t = next("".join(x if isinstance(x, str) else core.ALPHABET[x[1][combo[x[0]]] if x[1] else combo[x[0]]] for x in shape)
             for combo in groups[k] if c.doms[bases[0]] >> combo[0] & 1)
    return f(t)


def literal_eval(s):
    if not isinstance(s, str) or not has_sym_str(s):
        return _ast.literal_eval(s)
    s = core.fix_tokens(s) if has_token(s) else s
    R = ReModule()
    if R.compile(_LIST).fullmatch(s) is None:
        return tabulate(s, _ast.literal_eval)
    out = []
    inner = s[strs.find(s, "[") + 1:]
    for m in R.compile(_ELEM).finditer(inner):
        t = m.group()
        if strs.char_in(t[0], core.mask_of("'\""), lambda c: c in "'\""):
            out.append(t[1:-1])
        elif strs.eq(t, "True"):
            out.append(True)
        elif strs.eq(t, "False"):
            out.append(False)
        elif strs.eq(t, "None"):
            out.append(None)
        elif strs.contains(t, "."):
            neg = strs.eq(t[0], "-")
            v = strs.to_float(t[1:] if neg else t)
            out.append(-v if neg else v)
        else:
            neg = strs.eq(t[0], "-")
            v = ops._b_int(t[1:] if neg else t)
            out.append(-v if neg else v)
    return out


# -- clock
IMPORT_TIME = 1.0e9
T_MIN, T_MAX = 2.0e9, 4.0e9


def now() -> SymFloat:
    c = core.CTX
    if c is None:
        return IMPORT_TIME
    e = z3.Real(f"t{len(CLOCK)}")
    lo = CLOCK[-1] if CLOCK else z3.RealVal("2000000000")
    c.add(e >= lo)
    c.add(e <= z3.RealVal("4000000000"))
    CLOCK.append(e)
    return SymFloat(e)


LOCAL = [0]     # the offset of local time, in seconds


def _offset(tz):
    if tz is None:
        return None
    d = tz.utcoffset(None)
    if d is None:
        raise Unsupported("a time zone with changing offsets")
    return d.total_seconds()


class VDelta:
    """The difference of two times."""

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __truediv__(self, o):
        return self.s / o.total_seconds()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"timedelta.{n}")


class VDateTime:
    """A time: what the clock on the wall shows in seconds, and how far it is ahead (None: naive, local time is meant)."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
        d = _dt.datetime(year, month, day, hour, minute, second, microsecond, tzinfo=_dt.timezone.utc)
        self._w, self._off = d.timestamp(), _offset(tzinfo)

    @classmethod
    def _at(cls, wall, off):
        r = object.__new__(cls)
        r._w, r._off = wall, off
        return r

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(now(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(now())

    @classmethod
    def utcnow(cls):
        return cls._at(now(), None)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        return cls._at(ts + LOCAL[0], None) if tz is None else cls._at(ts + _offset(tz), _offset(tz))

    @classmethod
    def utcfromtimestamp(cls, ts):
        return cls._at(ts, None)

    @classmethod
    def fromisoformat(cls, s):
        raise Unsupported("datetime.fromisoformat")

    @classmethod
    def strptime(cls, *a):
        raise Unsupported("datetime.strptime")

    @classmethod
    def combine(cls, *a, **k):
        raise Unsupported("datetime.combine")

    def timestamp(self):
        return self._w - (LOCAL[0] if self._off is None else self._off)

    def replace(self, **k):
        off, w = self._off, self._w
        if "tzinfo" in k:
            off = _offset(k.pop("tzinfo"))
        if k.pop("microsecond", None) == 0:
            w = SymFloat(z3.ToReal(z3.ToInt(w.e))) if isinstance(w, SymFloat) else w // 1
        if k:
            raise Unsupported("datetime.replace")
        return self._at(w, off)

    def astimezone(self, tz=None):
        ts, off = self.timestamp(), LOCAL[0] if tz is None else _offset(tz)
        return self._at(ts + off, off)

    def __sub__(self, o):
        if isinstance(o, VDateTime):
            if (self._off is None) != (o._off is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return VDelta(self._w - o._w - ((self._off or 0) - (o._off or 0)))
        return self._at(self._w - o.total_seconds(), self._off)

    def __add__(self, o):
        return self._at(self._w + o.total_seconds(), self._off)

    def isoformat(self, *a, **k):
        return "2033-05-18T03:33:20"

    strftime = isoformat

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"datetime.{n}")

    @classmethod
    def __get_validators__(cls):
        yield lambda v: v


DATETIME = Shim("datetime", _dt, ("timedelta", "date", "timezone", "tzinfo", "UTC"), datetime=VDateTime)
TIME = Shim("time", _time, (), time=now, perf_counter=now, monotonic=now, sleep=lambda s: None,
            time_ns=lambda: (now() * 1000000000).__int__(), strftime=lambda *a: "2033-05-18",
            localtime=lambda *a: _time.gmtime(2e9), gmtime=lambda *a: _time.gmtime(2e9))


# -- logging
class _NullLogger:
    handlers = []
    level = 0
    name = "root"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: False if n == "isEnabledFor" else None

    def getChild(self, *a):
        return self


_NULL = _NullLogger()


class _NullHandler(_NullLogger):
    def __init__(self, *a, **k):
        pass


LOGGING = Shim("logging", _logging, ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "NOTSET"),
               getLogger=lambda *a: _NULL, FileHandler=_NullHandler, StreamHandler=_NullHandler,
               NullHandler=_NullHandler, Formatter=_NullHandler, Handler=_NullHandler, Logger=_NullLogger,
               basicConfig=lambda **k: None,
               **{n: (lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "critical", "exception", "log",
                                                      "disable")})
LOGGING.__dict__["handlers"] = Shim("logging.handlers", RotatingFileHandler=_NullHandler,
                                    TimedRotatingFileHandler=_NullHandler)


# -- console
def v_print(*a, sep=" ", end="\n", file=None, flush=False):
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    text = sep.join(x.raw if isinstance(x, RawText) else ops.to_str(x) for x in a) + end
    (SYS.stdout if file is None else file).write(text)


class _Stream:
    """The console."""
    encoding, errors, name, closed = "utf-8", "strict", "<console>", False

    def __init__(self, real):
        self.real = real

    def target(self):
        f = getattr(_sys, self.real)
        return f if isinstance(f, (io.StringIO, VHandle)) else None

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(f"write() argument must be str, not {type(s).__name__}")
        f = self.target()
        if f is not None:
            f.write(s)
        elif self.real == "stdout":
            OUT.append(s)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def readline(self, limit=-1):
        try:
            return v_input() + "\n"
        except EOFError:
            return ""

    def __iter__(self):
        return iter(self.readline, "")

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class _Sys(Shim):
    def __getattr__(self, n):
        return getattr(_sys, n)


SYS = _Sys("sys", stdout=_Stream("stdout"), stderr=_Stream("stderr"), stdin=_Stream("stdin"),
           __stdout__=_Stream("stdout"), __stderr__=_Stream("stderr"))


def v_input(prompt=""):
    SYS.stdout.write(ops.to_str(prompt))
    if not INPUTS:
        raise InputExhausted()
    x = INPUTS.pop(0)
    return x() if callable(x) else x


def v_exit(*a):
    raise SystemExit(*a)


def _deepcopy(x, memo=None):
    import copy
    return copy.deepcopy(x, memo)


def install():
    """Register the stand-ins for instrumented code."""
    import builtins
    import copy
    from . import xform
    R = ReModule()
    xform.SHIMMED.update({
        "re": R, "os": OS, "os.path": OSPATH, "pathlib": Shim("pathlib", Path=VPath, PurePath=VPath, PosixPath=VPath,
                                                               PurePosixPath=VPath),
        "glob": Shim("glob", _glob, (), glob=g_glob, iglob=lambda *a, **k: iter(g_glob(*a, **k)), escape=g_escape,
                     has_magic=has_magic),
        "fnmatch": Shim("fnmatch", fnmatch=fnmatch, fnmatchcase=fnmatch,
                        filter=lambda ns, p: [n for n in ns if fnmatch(n, p)]),
        "shutil": SHUTIL, "sys": SYS, "tempfile": _Temp(), "json": JSON, "json.decoder": JSON.decoder,
        "json.encoder": JSON.encoder, "datetime": DATETIME, "time": TIME, "logging": LOGGING,
        "logging.handlers": LOGGING.handlers,
    })
    ops.OVERRIDES.update({
        builtins.open: v_open, builtins.print: v_print, builtins.input: v_input, io.open: v_open,
        _ast.literal_eval: literal_eval,
    })
    import collections
    from importlib.util import module_from_spec, spec_from_file_location
    path = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "pylib.py")
    spec = spec_from_file_location("sx.pylib", path, loader=xform.Loader(path, False))
    lib = module_from_spec(spec)
    spec.loader.exec_module(lib)
    lib.new_counter, lib.new_ordered = lambda: collections.Counter(), lambda: collections.OrderedDict()
    lib.new_default = lambda f: collections.defaultdict(f)
    ops.PYLIB, ops.ENCODE = lib, encode
    ops.OVERRIDES.update(lib.OVERRIDES)
    import pydantic.types
    import pydantic.validators
    pydantic.types.re = R

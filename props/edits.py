"""Statements with one (thorough: two) arbitrary edits, and an independent reading of MAKE statements."""

MAKES = [
    "MAKE (a:Ab{n: 12, s: 'x y'});",
    "MAKE (a:A)-[r:RE{n: 1}]->(b:B);",
    "MAKE (:A)<-[:R]-(:B)-[:S]->(:C), (:D);",
    'MAKE (:A{l: [1, "a"], f: 1.5, b: true, z: null});',
]


def edited(h, base, lo=0, hi=None, kinds=("replace", "insert", "delete", "swap", "double")):
    """The text with one character replaced by any other, inserted, removed, swapped with the next or doubled."""
    k = h.choice("edit", list(kinds))
    hi = len(base) if hi is None else hi
    i = h.choice("at", list(range(lo, hi)))
    if k == "replace":
        c = h.text("character", 1)
        h.differ(c, base[i])
        return base[:i] + c + base[i + 1:]
    if k == "insert":
        return base[:i] + h.text("character", 1) + base[i:]
    if k == "delete":
        return base[:i] + base[i + 1:]
    if k == "double":
        return base[:i + 1] + base[i:]
    if k == "cut":
        return base[:i] + base[hi:]
    j = i + 1 if i + 1 < hi else lo
    a, b = min(i, j), max(i, j)
    return base[:a] + base[b] + base[a + 1:b] + base[a] + base[b + 1:]


class Unreadable(Exception):
    pass


class Unspecified(Exception):
    """Numbers in lists that are not plain decimals (1_0, .5, 0x1F, 1e3): no statement is made about them."""


class Reader:
    """A plain left-to-right reader of one MAKE statement, without its keyword and closing semicolon."""

    def __init__(self, text):
        self.t, self.i = text, 0
        self.nodes, self.rels = [], []   # (label, props), (from index, to index, name, props)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def ws(self):
        while self.i < len(self.t) and self.t[self.i].isspace():
            self.i += 1

    def word(self):
        a = self.i
        while self.i < len(self.t) and (self.t[self.i].isalnum() or self.t[self.i] == "_"):
            self.i += 1
        return self.t[a:self.i]

    def eat(self, c):
        if self.peek() != c:
            raise Unreadable(c)
        self.i += 1

    def read(self):
        self.ws()
        self.node()
        while True:
            self.ws()
            c = self.peek()
            if c == "":
                return
            if c == ",":
                while self.peek() == ",":
                    self.i += 1
                    self.ws()
                if self.peek() == "":
                    return
                self.node()
            elif c == "(":
                self.node()
            else:
                self.rel()
                self.ws()
                self.node()

    def node(self):
        self.eat("(")
        self.ws()
        self.word()
        self.ws()
        self.eat(":")
        self.ws()
        label = self.word()
        if label == "":
            raise Unreadable("label")
        self.ws()
        props = self.props() if self.peek() == "{" else None
        self.ws()
        self.eat(")")
        self.nodes.append((label, props))

    def rel(self):
        left = self.peek() == "<"
        if left:
            self.i += 1
        self.eat("-")
        while self.peek() == "-":
            self.i += 1
        self.eat("[")
        self.ws()
        self.word()
        self.ws()
        if self.peek() == ":":
            self.i += 1
            self.ws()
        name = self.word()
        self.ws()
        props = self.props() if self.peek() == "{" else None
        self.ws()
        self.eat("]")
        self.eat("-")
        while self.peek() == "-":
            self.i += 1
        right = self.peek() == ">"
        if right:
            self.i += 1
        if left == right:
            raise Unreadable("direction")
        n = len(self.nodes)
        self.rels.append((n, n - 1, name, props) if left else (n - 1, n, name, props))

    def props(self):
        self.eat("{")
        out = {}
        self.ws()
        if self.peek() == "}":
            self.i += 1
            return out
        while True:
            self.ws()
            name = self.word()
            if name == "":
                raise Unreadable("property name")
            self.ws()
            self.eat(":")
            self.ws()
            v = self.value(",}")
            out[name] = v
            self.ws()
            if self.peek() == "}":
                self.i += 1
                return out
            self.eat(",")

    def value(self, ends):
        c = self.peek()
        if c == "[":
            self.i += 1
            out = []
            self.ws()
            while self.peek() != "]":
                out.append(self.value(",]"))
                self.ws()
                if self.peek() == ",":
                    self.i += 1
                    self.ws()
                elif self.peek() != "]":
                    raise Unreadable("list")
            self.i += 1
            return out
        if c == "'" or c == '"':
            a = self.i + 1
            b = self.t.find(c, a)
            if b < 0:
                raise Unreadable("quote")
            self.i = b + 1
            return self.t[a:b]
        a = self.i
        while self.i < len(self.t) and self.t[self.i] not in ends:
            self.i += 1
        return bare(self.t[a:self.i].strip(), ends == ",]")


def bare(t, in_list):
    if t == "":
        raise Unreadable("no value")
    if t in ("true", "false", "null"):
        return {"true": True, "false": False, "null": None}[t]
    if in_list and t in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[t]
    if t.isdecimal() and t.isascii():
        return int(t)
    whole, dot, part = t.partition(".")
    if dot and whole.isdecimal() and part.isdecimal():
        if float(t) == float("inf"):
            raise Unreadable("too large")
        return float(t)
    if in_list and t[0] in ".0123456789":
        raise Unspecified(t)
    if in_list or t.lower() in ("true", "false", "null", "none"):
        raise Unreadable(t)
    return t

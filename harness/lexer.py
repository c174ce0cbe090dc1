"""A lenient independent reading of MAKE text, used to see whether an accepted text took effect completely.

read(text) returns (nodes, rels) with labels / names / properties as written, or None when
the text cannot be read even leniently (then nothing is judged about it).
"""
import re

MAKE = re.compile(r"\bmake(?=\s*\()", re.I)
FIND = re.compile(r"\bfind(?=\s*\()", re.I)
UNFINISHED = re.compile(r"(?:\A|[;\n])\s*(?:make|find)\b(?!\s*\()", re.I)
CLOSE = {"'": re.compile(r"'(?=\s*(?:[,}\])]|$))"), '"': re.compile(r'"(?=\s*(?:[,}\])]|$))')}


class Unreadable(Exception):
    pass


class R:
    def __init__(self, s, clause=MAKE):
        self.s, self.i, self.clause, self.patterns = s, 0, clause, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ""

    def take(self, ch):
        if self.peek() == ch:
            self.i += 1
            return True
        return False

    def need(self, ch):
        if not self.take(ch):
            raise Unreadable(f"{ch!r} expected at {self.i}: {self.s[self.i:self.i+20]!r}")

    def word(self):
        self.ws()
        m = re.compile(r"\w+").match(self.s, self.i)
        if not m:
            return ""
        self.i = m.end()
        return m.group()

    def value(self):
        c = self.peek()
        if c in CLOSE and c:
            m = CLOSE[c].search(self.s, self.i + 1)
            if not m:
                raise Unreadable("string without end")
            v = self.s[self.i + 1 : m.start()]
            self.i = m.end()
            return ("str", v)
        if c == "[":
            self.i += 1
            out = []
            while True:
                if self.take("]"):
                    return ("list", out)
                if self.take(","):
                    continue
                out.append(self.value())
        m = re.compile(r"[\w.@+](?:[\w.@+\s'\"]*[\w.@+])?").match(self.s, self.i)
        if not m:
            raise Unreadable(f"no value at {self.i}")
        self.i = m.end()
        return ("bare", m.group())

    def props(self, end):
        """key: value pairs up to the closing bracket; stray commas and braces are noise."""
        out = []
        while self.peek() != end:
            if self.peek() and self.peek() in "{},":
                self.i += 1
                continue
            k = self.word()
            if not k:
                raise Unreadable(f"no key at {self.i}: {self.s[self.i:self.i+20]!r}")
            self.need(":")
            out.append((k, self.value()))
        self.need(end)
        return out

    def head(self, end):
        a = self.word()
        if self.take(":"):
            b = self.word()
        else:
            b = self.word() or None  # the colon of a relationship may be missing
        return a, b, self.props(end)

    def statements(self):
        nodes, rels = [], []
        while True:
            # whatever stands outside of statements is not MAKE text
            m = self.clause.search(self.s, self.i)
            # unless it begins like a statement
            skipped = self.s[self.i : m.start() if m else len(self.s)]
            if UNFINISHED.search(skipped):
                raise Unreadable("a statement without its bracket")
            if not m:
                return nodes, rels
            self.i = m.end()
            joined = False
            while not self.take(";"):
                c = self.peek()
                if not c:
                    raise Unreadable("no ;")
                if c == "(":
                    self.i += 1
                    h, l, p = self.head(")")
                    if l is None:
                        raise Unreadable("node without label")
                    nodes.append((l, p))
                    self.patterns += not joined
                    joined = False
                elif c in "<-":
                    m = re.compile(r"<?-+\s*\[").match(self.s, self.i)
                    if not m:
                        raise Unreadable("odd arrow")
                    self.i = m.end()
                    h, l, p = self.head("]")
                    m = re.compile(r"\s*-+>?").match(self.s, self.i)
                    if not m:
                        raise Unreadable("odd arrow")
                    self.i = m.end()
                    rels.append((l or "", p))
                    joined = True
                elif c == ",":
                    self.i += 1
                else:
                    raise Unreadable(f"{c!r} between patterns")


def _strip(v):
    return v.strip().strip("'\"").strip()


def read(text):
    try:
        return R(text).statements()
    except Unreadable:
        return None


def read_find(text):
    """(number of patterns, nodes, rels) of the FIND statements, or None."""
    x = R(text, FIND)
    try:
        nodes, rels = x.statements()
    except Unreadable:
        return None
    return x.patterns, nodes, rels


def value_ok(w, v):
    """Whether the stored value v carries what was written (w from the reader)."""
    kind, x = w
    if kind == "list":
        return isinstance(v, list) and len(v) == len(x) and all(value_ok(a, b) for a, b in zip(x, v))
    if kind == "str":
        return isinstance(v, str) and v == x
    low = x.lower()
    if v is None:
        return low in ("null", "none")
    if v is True or v is False:
        return low == str(v).lower()
    if isinstance(v, int):
        try:
            return int(x) == v
        except ValueError:
            try:
                return int(x, 0) == v
            except ValueError:
                return False
    if isinstance(v, float):
        try:
            return float(x) == v and abs(v) != float("inf")  # a number written is never infinite
        except ValueError:
            return False
    if isinstance(v, str):
        return _strip(v) == _strip(x)
    return False

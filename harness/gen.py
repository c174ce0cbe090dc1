"""Reference syntax trees of WQL queries, random generation, and rendering to text.

A tree says what a query means; rendering chooses one of the many layouts that mean the
same. Everything is driven by the random.Random passed in.
"""
import re
from dataclasses import dataclass, field
from typing import Optional

# ----------------------------------------------------------------------------- trees


@dataclass
class Val:
    kind: str  # int float bool null str list
    value: object
    text: str = ""  # literal text for int/float
    items: list = field(default_factory=list)  # for list


@dataclass
class Node:
    handle: str
    label: str
    props: list = field(default_factory=list)  # [(key, Val)]


@dataclass
class Rel:
    handle: str
    name: str  # "" when unnamed
    right: bool  # True: -> (from the node on its left), False: <-
    props: list = field(default_factory=list)


@dataclass
class Pattern:
    nodes: list
    rels: list


@dataclass
class Stmt:
    clause: str  # MAKE FIND REPORT
    patterns: list = field(default_factory=list)
    items: list = field(default_factory=list)  # REPORT: rendered item strings


# ------------------------------------------------------------------------- generation

CLAUSE_LIKE = [
    "Make", "MAKE", "make", "Find", "FIND", "find", "Report", "REPORT", "report",
    "Porter", "Reporter", "Remake", "Finder", "Criteria", "Adjust", "Using", "Wn",
    "help", "Help", "q", "Makes", "MAEK", "Fidn",
]
LABELS = [
    "Person", "City", "NodeLabel", "A", "B", "b", "x1", "Label_2", "_under", "Town2",
    "Animal", "ANIMAL", "animal", "Ünïcode", "東京", "Знак", "Thing9", "null", "true",
    "None", "int", "L", "LongLabel" + "Abc" * 12, "0", "42", "node_labels",
] + CLAUSE_LIKE
NAMES = [
    "REL", "KNOWS", "LIVES_IN", "R2", "R", "A", "B", "_X", "MAKE", "FIND", "REPORT",
    "REL_1", "NULL", "ÉTÉ", "ЗНАЕТ", "X9Y", "VERY_LONG_NAME_" * 4 + "Z", "TRUE",
    "PERSON", "CITY",
]
HANDLES = [
    "a", "b", "n", "m", "p", "q", "r", "n1", "n2", "left", "middle", "right", "node",
    "rel", "foo", "foo2", "bar", "make", "find", "report", "x_1", "A", "N", "_h",
    "handle_with_a_long_name", "hé", "o", "fo", "foob", "ab", "Make", "REPORT", "3",
]
KEYS = [
    "int", "float", "str", "list", "name", "age", "x", "y", "z", "X", "a", "aa", "aaa",
    "first_name", "k1", "k2", "k10", "_k", "null", "true", "None", "wn", "created_at",
    "make", "find", "report", "REPORT", "Make", "help", "ключ", "naïve", "1", "9lives",
    "node_label", "properties", "relations", "a_very_long_key_name_" * 3 + "k",
]
WORDS = [
    "12", "007", "3.14", "0", "1e5", "1 2 3", "true story", "not null", "null",
    "nullable", "falsehood", "untrue", "it is true", "false alarm", "None of them",
    "make it so", "MAKE", "find me", "FIND", "annual report", "Report 7", "REPORT x",
    "report", "help", "Help me please", "q", "Harry", "Watkinson", "green", "a", "A",
    "foo@bar.net", "@home", "etc.", "a.b.c", "x.y", "...", ".5", "_", "__init__",
    "two  spaces", "three   spaces here", "naïve café", "Ünïcödé", "東京", "Привет мир",
    "a\tb", "tab\t\ttab", "1 true 2.0 null", "v1.2.3", "TRUE", "NULL", "nULL", "trueTRUEtrue", "wn",
    "node_labels", "9" * 30, "x" * 60, "REL", "Person",
]
# Word characters that are easily confused, folded or lost on the way
ODD = "\u212a\u212b\ufb01\u01c5\uff21\uff42\u00b2\u0663\u0130\u0131\u03c2\u03a3\u0394\u03c9\U0001d400\U00020000\uac00\u3042\u0905\u05d0\u0627\u00df\u1e9e\u0178\u20ac"[:-1]
ODD_UPPER = "\u212a\u212b\uff21\u03a3\u0394\u0178\u0416"
ODD_BLANKS = "\u00a0\u2003\u3000\t\x0b\x1f\u2028"
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
STRCH = IDENT + "   \t@.éß"
# Strings at the edge; the keywords among them can only stand in a list
LISTED = ["", " ", "   ", " a", "a ", " a b ", "  two", "\t", "None", "none", "Null", "null", "true", "false", "True", "False", "'a'", '"a"', "'", '"', "1 ", " 2.0", "''", "MAKE "]
RESERVED = {"Null", "None", "none", "true", "True", "false", "False"}


def ident(r, n=None):
    n = n or r.choice([1, 2, 3, 5, 8, 13])
    return r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") + "".join(
        r.choice(IDENT) for _ in range(n - 1)
    )


def odd(r, upper=False):
    return "".join(r.choice([r.choice(ODD_UPPER if upper else ODD), r.choice("ABCXYZ" if upper else "abcXYZ")]) for _ in range(r.choice([1, 2, 4])))


def label(r):
    if r.random() < 0.04:
        return odd(r)
    return r.choice(LABELS) if r.random() < 0.7 else ident(r)


def name(r):
    if r.random() < 0.04:
        return odd(r, True) + r.choice(["Q", "R_"])
    if r.random() < 0.7:
        return r.choice(NAMES)
    return r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ident(r).upper()


def handle(r):
    return r.choice(HANDLES) if r.random() < 0.8 else ident(r)


def key(r):
    return r.choice(KEYS) if r.random() < 0.7 else ident(r)


def int_text(r):
    c = r.random()
    if c < 0.35:
        return str(r.randint(0, 20))
    if c < 0.6:
        return str(r.randint(0, 10**6))
    if c < 0.75:
        return str(r.choice([0, 1, 255, 256, 2**31 - 1, 2**31, 2**32, 2**53 - 1, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 10**18 + 1]))
    return str(r.randint(0, 10 ** r.randint(1, 40)))


def float_text(r):
    c = r.random()
    if c < 0.35:
        return r.choice(["3.14", "0.0", "1.0", "2.50", "0.1", "0.10", "100.001", "1.000", "10.0", "0.30000000000000004", "123456789.123456789", "9007199254740993.0", "0.000000001", "4.9", "5.0"])
    whole = str(r.randint(0, 10 ** r.choice([1, 1, 2, 5, 16, 25])))
    return whole + "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 3, 6, 17])))


def good_string(s):
    return (
        s not in RESERVED
        and not ("'" in s and '"' in s)
        and re.fullmatch(r"[\w\s.@'\"]*", s) is not None
    )


def string(r):
    while True:
        c = r.random()
        if c < 0.55:
            s = r.choice(WORDS)
        elif c < 0.68:
            s = r.choice(WORDS) + r.choice([" ", "  ", ".", "@", "_"]) + r.choice(WORDS)
        elif c < 0.78:
            q = r.choice("'\"")
            s = r.choice(["it%ss", "O%sBrien", "say %shi%s now", "a%sb", "rock %sn%s roll", "%stis", "dogs%s", "%sa%s", "%s", "%s%s", " %s "]).replace("%s", q)
        elif c < 0.84:
            s = "".join(r.choice([r.choice(ODD), r.choice(ODD), r.choice(STRCH), r.choice(ODD_BLANKS)]) for _ in range(r.choice([1, 2, 4, 9])))
        elif c < 0.96:
            s = "".join(r.choice(STRCH) for _ in range(r.choice([1, 2, 3, 5, 10, 25])))
        else:
            s = "".join(r.choice(STRCH) for _ in range(r.choice([80, 200, 400])))
        if r.random() < 0.06:
            s = r.choice([" " + s, s + " ", "  " + s + " ", "\t" + s, s + "\t", "", " "])
        if good_string(s):
            return s


def val(r, depth=0, kinds=None):
    k = r.choice(kinds or (["int", "float", "bool", "null", "str", "str"] + (["list"] if depth == 0 else [])))
    if k == "int":
        t = int_text(r)
        return Val("int", int(t), t)
    if k == "float":
        t = float_text(r)
        return Val("float", float(t), t)
    if k == "bool":
        b = r.random() < 0.5
        return Val("bool", b, "true" if b else "false")
    if k == "null":
        return Val("null", None, "null")
    if k == "str":
        if r.random() < (0.12 if depth else 0.04):
            s = r.choice(LISTED)
            if depth or s not in RESERVED:
                return Val("str", s)
        return Val("str", string(r))
    n = r.choice([1, 1, 2, 3, 4, 7, 12])
    items = [val(r, 1) for _ in range(n)]
    return Val("list", [i.value for i in items], items=items)


def props(r, n=None, depth_kinds=None):
    if n is None:
        n = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 6, 10])
    out, seen = [], set()
    while len(out) < n:
        k = key(r)
        if k in seen:
            k = ident(r, 6)
        if k in seen:
            continue
        seen.add(k)
        out.append((k, val(r, kinds=depth_kinds)))
    return out


def pattern(r, size=None, label_fn=label, name_fn=name, handles=True, props_fn=props, one_labelled=False):
    size = size or r.choice([1, 2, 2, 3, 3])
    used = set()

    def h():
        if not handles or r.random() < 0.4:
            return ""
        for _ in range(20):
            x = handle(r)
            if x not in used:
                used.add(x)
                return x
        return ""

    same = label_fn(r) if (r.random() < 0.15 or one_labelled) else None
    nodes = [Node(h(), same or label_fn(r), props_fn(r)) for _ in range(size)]
    if size > 1 and r.random() < 0.08:  # identical nodes are still separate nodes
        nodes[-1].props = list(nodes[0].props)
        nodes[-1].label = nodes[0].label
    rels = []
    for _ in range(size - 1):
        nm = "" if r.random() < 0.25 else name_fn(r)
        rels.append(Rel(h(), nm, r.random() < 0.5, props_fn(r)))
    if len(rels) == 2 and r.random() < 0.2:
        rels[1].name = rels[0].name
        if r.random() < 0.5:
            rels[1].props = list(rels[0].props)
    return Pattern(nodes, rels)


def make_stmt(r, npat=None, **kw):
    if npat is None:
        npat = r.choice([1, 1, 1, 2, 2, 3, 5])
    pats = [pattern(r, **kw) for _ in range(npat)]
    if npat > 1 and r.random() < 0.1:
        pats[-1] = pats[0]
    return Stmt("MAKE", pats)


def _respell(r, s):
    """Another string, close to s."""
    k = r.random()
    if k < 0.3 and " " in s:
        out = s.replace(" ", r.choice(["", "  ", "_"]), r.choice([1, -1]))
    elif k < 0.45 and len(s) > 1:
        i = r.randint(1, len(s) - 1)
        out = s[:i] + r.choice([" ", ".", "_", "@"]) + s[i:]
    elif k < 0.7:
        out = s.swapcase() if r.random() < 0.5 else s[:-1] + s[-1:].swapcase()
    elif k < 0.85:
        out = s + r.choice("x1_")
    else:
        out = s[::-1]
    return out if good_string(out) else s + "x"


def _revalue(r, v):
    """Another value that is easily taken for v."""
    if v.kind == "list":
        items = [Val(x.kind, x.value, x.text) for x in v.items]
        i = r.randrange(len(items))
        k = r.random()
        if k < 0.6:
            items[i] = _revalue(r, items[i])
        elif k < 0.8:
            items.append(items[i])
        else:
            items.reverse()
        return Val("list", [x.value for x in items], items=items)
    if v.kind == "int":
        t = str(v.value)
        x = r.random()
        if v.value in (0, 1) and x < 0.5:
            return Val("bool", bool(v.value), "true" if v.value else "false")
        if x < 0.75:
            return Val("float", float(t + ".0"), t + ".0") if len(t) < 300 else Val("str", t)
        return Val("str", t) if x < 0.9 else Val("int", v.value + 1, str(v.value + 1))
    if v.kind == "float":
        return Val("str", v.text) if r.random() < 0.5 else Val("float", float(v.text + "1"), v.text + "1")
    if v.kind == "bool":
        return r.choice([Val("int", int(v.value), str(int(v.value))), Val("float", float(v.value), f"{float(v.value)}"), Val("bool", not v.value, "false" if v.value else "true")])
    if v.kind == "null":
        return r.choice([Val("str", "null"), Val("int", 0, "0"), Val("bool", False, "false")])
    return Val("str", _respell(r, v.value))


def relative(r, stmts):
    """MAKE statements that resemble the given ones closely and mean something else (mostly)."""
    import copy

    out = copy.deepcopy([s for s in stmts if s.clause == "MAKE"])
    if not out:
        return [make_stmt(r)]
    for _ in range(r.choice([1, 1, 2])):
        p = r.choice(r.choice(out).patterns)
        els = p.nodes + p.rels
        with_props = [e for e in els if e.props]
        k = r.random()
        if k < 0.45 and with_props:
            e = r.choice(with_props)
            i = r.randrange(len(e.props))
            e.props[i] = (e.props[i][0], _revalue(r, e.props[i][1]))
        elif k < 0.55 and with_props:
            e = r.choice(with_props)
            i = r.randrange(len(e.props))
            new = r.choice([e.props[i][0].swapcase(), e.props[i][0] + "_", ident(r, 4)])
            if new not in [x for x, _ in e.props] and re.fullmatch(r"\w+", new):
                e.props[i] = (new, e.props[i][1])
        elif k < 0.62 and with_props:
            e = r.choice(with_props)
            r.shuffle(e.props)
        elif k < 0.7:
            a, b = r.choice(els), r.choice(els)
            a.props, b.props = b.props, a.props
        elif k < 0.78:
            e = r.choice(p.nodes)
            new = r.choice([e.label.swapcase(), e.label + "_", label(r)])
            e.label = new if re.fullmatch(r"\w+", new) else "L"
        elif k < 0.84 and p.rels:
            x = r.choice(p.rels)
            x.right = not x.right
        elif k < 0.9:
            for e in els:
                e.handle = ""
        else:
            r.choice(out).patterns.append(copy.deepcopy(p))
    return out


def find_stmt(r, **kw):
    return Stmt("FIND", [pattern(r, **kw)])


# -------------------------------------------------------------------------- rendering


class Layout:
    """Choices that must not matter. `plain` is the canonical layout."""

    def __init__(self, r=None, blanks=0.0, tabs=True, case=False, oneline=None):
        self.r = r
        self.blanks = blanks
        self.tabs = tabs
        self.case = case
        self.oneline = oneline

    def b(self, default=""):
        r = self.r
        if r is None or r.random() >= self.blanks:
            return default
        c = r.random()
        if c < 0.5:
            return " "
        if c < 0.7:
            return ""
        if c < 0.85 or not self.tabs:
            return " " * r.randint(1, 4)
        if r.random() < 0.06:
            return r.choice([" " * 10, " " * 33, "\t" * 4, " \t \t "])
        return r.choice(["\t", " \t", "\t ", "\t\t"])

    def dash(self):
        if self.r is None or self.r.random() >= self.blanks:
            return "-"
        return "-" * self.r.choice([1, 1, 2, 2, 3, 5, 5, 9, 24])

    def word(self, w):
        if not self.case or self.r is None:
            return w
        c = self.r.random()
        if c < 0.25:
            return w
        if c < 0.5:
            return w.lower()
        if c < 0.65:
            return w.capitalize()
        return "".join(x.lower() if self.r.random() < 0.5 else x.upper() for x in w)

    def sep(self):
        if self.r is None:
            return "\n"
        if self.oneline is True:
            return self.r.choice([" ", "", "  "])
        if self.oneline is False:
            return self.r.choice(["\n", "\n", "\n    ", "\n\n", " \n", "\r\n", "\n\t"])
        return self.r.choice(["\n", "\n", " ", "", "  ", "\n    ", "\n\n", "\t", "\r\n", "    "])

    def pick(self, xs):
        return xs[0] if self.r is None else self.r.choice(xs)


PLAIN = Layout()


def quote(s, lay, forced=None):
    if forced and forced not in s:
        return forced + s + forced
    if "'" in s:
        return '"' + s + '"'
    if '"' in s:
        return "'" + s + "'"
    q = lay.pick(["'", '"'])
    return q + s + q


# Rendering yields tokens [kind, text]; the text of a query is their concatenation, and
# mutations work on the tokens.


def _ws(out, text):
    if text:
        out.append(["ws", text])


def t_val(out, v, lay, inlist=False):
    if v.kind == "str":
        out.append([("item:" if inlist else "val:") + "str", quote(v.value, lay)])
    elif v.kind == "list":
        out.append(["[list", "["])
        for i, x in enumerate(v.items):
            if i:
                _ws(out, lay.b())
                out.append([",list", ","])
                _ws(out, lay.b(" "))
            else:
                _ws(out, lay.b())
            t_val(out, x, lay, True)
        _ws(out, lay.b())
        out.append(["]list", "]"])
    else:
        out.append([("item:" if inlist else "val:") + v.kind, v.text])


def t_props(out, ps, lay):
    if not ps:
        if lay.r and lay.blanks and lay.r.random() < 0.15:
            out.append(["{", "{"])
            out.append(["}", "}"])
        return
    out.append(["{", "{"])
    for i, (k, v) in enumerate(ps):
        if i:
            _ws(out, lay.b())
            out.append([",prop", ","])
            _ws(out, lay.b(" "))
        else:
            _ws(out, lay.b())
        out.append(["key", k])
        _ws(out, lay.b())
        out.append([":prop", ":"])
        _ws(out, lay.b(" "))
        t_val(out, v, lay)
    _ws(out, lay.b())
    out.append(["}", "}"])


def t_node(out, n, lay):
    out.append(["(", "("])
    _ws(out, lay.b())
    if n.handle:
        out.append(["nhandle", n.handle])
        _ws(out, lay.b())
    out.append([":node", ":"])
    _ws(out, lay.b())
    out.append(["label", n.label])
    _ws(out, lay.b())
    t_props(out, n.props, lay)
    _ws(out, lay.b())
    out.append([")", ")"])


def t_rel(out, x, lay):
    out.append(["arrow<" if not x.right else "arrow-", ("" if x.right else "<") + lay.dash()])
    out.append(["[rel", "["])
    _ws(out, lay.b())
    if x.handle:
        out.append(["rhandle", x.handle])
        _ws(out, lay.b())
    if x.name:
        out.append([":rel", ":"])
        _ws(out, lay.b())
        out.append(["name", x.name])
        _ws(out, lay.b())
    elif lay.pick([True, False]):
        out.append([":rel", ":"])
        _ws(out, lay.b())
    t_props(out, x.props, lay)
    _ws(out, lay.b())
    out.append(["]rel", "]"])
    out.append(["arrow>" if x.right else "arrow-", lay.dash() + (">" if x.right else "")])


def t_pattern(out, p, lay):
    t_node(out, p.nodes[0], lay)
    for rel, n in zip(p.rels, p.nodes[1:]):
        _ws(out, lay.b())
        t_rel(out, rel, lay)
        _ws(out, lay.b())
        t_node(out, n, lay)


def t_stmt(out, s, lay):
    out.append(["clause:" + s.clause, lay.word(s.clause)])
    if s.clause == "REPORT":
        out.append(["ws", lay.b() or " "])
        for i, it in enumerate(s.items):
            if i:
                _ws(out, lay.b())
                out.append([",report", ","])
                _ws(out, lay.b(" "))
            out.append(["item", it])
    else:
        _ws(out, lay.b(" "))
        for i, p in enumerate(s.patterns):
            if i:
                _ws(out, lay.b())
                out.append([",pat", ","])
                _ws(out, lay.b(" "))
            t_pattern(out, p, lay)
    _ws(out, lay.b())
    out.append([";", ";"])


def tokens(stmts, lay=PLAIN):
    out = []
    rnd = lay.r is not None and lay.blanks
    if rnd:
        _ws(out, lay.pick(["", "", " ", "\n", "\n  "]))
    for i, s in enumerate(stmts):
        if i:
            sp = lay.sep()
            if sp:
                out.append(["sep", sp])
        t_stmt(out, s, lay)
    if rnd:
        _ws(out, lay.pick(["", "", " ", "\n"]))
    return out


def join(toks):
    return "".join(t[1] for t in toks)


def render(stmts, lay=PLAIN):
    return join(tokens(stmts, lay))


def layout(r, case=True):
    """A random layout."""
    return Layout(r, blanks=r.choice([0.0, 0.1, 0.5, 0.9]), case=case and r.random() < 0.4)

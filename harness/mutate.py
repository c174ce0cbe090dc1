"""Offences (C09) and damages (C06, C10) applied to the tokens of a well-formed query."""
import copy
from itertools import permutations

from . import gen

PERMS = {
    c: ["".join(p) for p in permutations(c) if "".join(p) != c] for c in ("MAKE", "FIND", "REPORT")
}


def _idx(toks, *kinds):
    return [i for i, t in enumerate(toks) if t[0] in kinds]


def _inside(toks):
    """Positions (for insertion) inside MAKE/FIND statements, between their first ( and their ;."""
    out, clause, opened = [], None, False
    for i, t in enumerate(toks):
        if t[0].startswith("clause:"):
            clause, opened = t[0][7:], False
        elif t[0] == "(":
            opened = True
            if clause in ("MAKE", "FIND"):
                out.append(i + 1)
                continue
        elif t[0] == ";":
            clause = None
        if clause in ("MAKE", "FIND") and opened and t[0] != ";":
            out.append(i + 1)
    # not after the last ) of the statement: that is checked separately
    return [i for i in out if i < len(toks) and toks[i][0] != ";"]


def _clause_at(toks, i):
    c = None
    for t in toks[: i + 1]:
        if t[0].startswith("clause:"):
            c = t[0][7:]
    return c


def illegal_char(r, toks):
    ch = r.choice("#%&*$")
    c = r.random()
    if c < 0.45:
        pool = [i for i in _idx(toks, "val:str", "item:str", "label", "nhandle", "rhandle", "name", "key") if _clause_at(toks, i) != "REPORT"]
        if pool:
            i = r.choice(pool)
            t = toks[i][1]
            lo, hi = (1, len(t) - 1) if toks[i][0].endswith(":str") else (0, len(t))
            p = r.randint(lo, hi)
            toks[i][1] = t[:p] + ch + t[p:]
            return f"illegal {ch} in {toks[i][0]}"
    pool = _inside(toks)
    if not pool:
        return None
    i = r.choice(pool)
    toks.insert(i, ["bad", ch])
    return f"illegal {ch} after {toks[i - 1][0]}"


def _rels(toks):
    """Index pairs of the two arrow tokens of each relationship."""
    out, first = [], None
    for i, t in enumerate(toks):
        if t[0].startswith("arrow"):
            if first is None:
                first = i
            else:
                out.append((first, i))
                first = None
    return out


def undirected(r, toks):
    rels = _rels(toks)
    if not rels:
        return None
    a, b = r.choice(rels)
    toks[a][1] = toks[a][1].lstrip("<")
    toks[b][1] = toks[b][1].rstrip(">")
    return "undirected relationship"


def both_ways(r, toks):
    rels = _rels(toks)
    if not rels:
        return None
    a, b = r.choice(rels)
    toks[a][1] = "<" + toks[a][1].lstrip("<")
    toks[b][1] = toks[b][1].rstrip(">") + ">"
    return "relationship pointing both ways"


def lower_name(r, toks):
    pool = [i for i in _idx(toks, "name") if toks[i][1].lower() != toks[i][1]]
    if not pool:
        return None
    i = r.choice(pool)
    t = toks[i][1]
    if r.random() < 0.5:
        toks[i][1] = t.lower()
    else:
        p = r.choice([k for k, ch in enumerate(t) if ch.lower() != ch])
        toks[i][1] = t[:p] + t[p].lower() + t[p + 1 :]
    return f"relationship name {toks[i][1]}"


BR = {"(": "()", ")": "()", "{": "{}", "}": "{}", "[list": "[]", "]list": "[]", "[rel": "[]", "]rel": "[]"}


def bracket_missing(r, toks):
    pool = _idx(toks, *BR)
    if not pool:
        return None
    i = r.choice(pool)
    k = toks[i][0]
    # its neighbours must not merge into one legitimate word
    toks[i][1] = " "
    return f"missing {k}"


def bracket_extra(r, toks):
    c = r.random()
    if c < 0.5:  # doubled
        pool = _idx(toks, *BR)
        if not pool:
            return None
        i = r.choice(pool)
        toks.insert(i, list(toks[i]))
        return f"doubled {toks[i][0]}"
    pool = _inside(toks)
    if not pool:
        return None
    i = r.choice(pool)
    ch = r.choice("(){}[]")
    toks.insert(i, ["bad", ch])
    return f"stray {ch} after {toks[i - 1][0]}"


def duplicate_handle(r, stmts):
    """Works on the trees."""
    pats = [p for s in stmts if s.clause in ("MAKE", "FIND") for p in s.patterns if len(p.nodes) > 1]
    if not pats:
        return None
    p = r.choice(pats)
    els = p.nodes + p.rels
    a, b = r.sample(range(len(els)), 2)
    h = els[a].handle or gen.handle(r)
    els[a].handle = els[b].handle = h
    return f"handle {h} twice in one pattern"


def comma_missing(r, toks):
    pool = _idx(toks, ",prop", ",list")
    if not pool:
        return None
    i = r.choice(pool)
    k = toks[i][0]
    # a blank stays, the neighbours must not merge into one legitimate word
    toks[i][1] = " "
    return f"missing {k}"


def colon_missing(r, toks):
    pool = _idx(toks, ":prop")
    if not pool:
        return None
    i = r.choice(pool)
    toks[i][1] = r.choice([" ", ""])
    return "missing colon"


def colon_label_missing(r, toks):
    pool = _idx(toks, ":node")
    if not pool:
        return None
    toks[r.choice(pool)][1] = " "
    return "node without colon"


def capital_value(r, toks):
    pool = _idx(toks, "val:bool", "val:null", "val:int", "val:float")
    if not pool:
        return None
    i = r.choice(pool)
    toks[i][1] = r.choice(["True", "False", "None", "Null", "NULL", "TRUE", "FALSE", "nULL", "tRUE", "truE", "fALSE", "none"])
    return f"value {toks[i][1]}"


def value_missing(r, toks):
    pool = _idx(toks, "val:str", "val:int", "val:float", "val:bool", "val:null")
    if not pool:
        return None
    i = r.choice(pool)
    toks[i][1] = r.choice(["", "", " "])
    key = [t[1] for t in toks[:i] if t[0] == "key"][-1]
    return f"property without a value: {key}"


def misspelled(r, toks):
    pool = [i for i, t in enumerate(toks) if t[0].startswith("clause:")]
    i = r.choice(pool)
    c = toks[i][0][7:]
    w = r.choice(PERMS[c])
    toks[i][1] = r.choice([w, w, w.lower(), w.capitalize()])
    return f"misspelled {toks[i][1]}"


OFFENCES = [
    ("illegal_char", illegal_char, False),
    ("undirected", undirected, False),
    ("both_ways", both_ways, False),
    ("lower_name", lower_name, False),
    ("bracket_missing", bracket_missing, False),
    ("bracket_extra", bracket_extra, False),
    ("duplicate_handle", duplicate_handle, True),
    ("comma_missing", comma_missing, False),
    ("colon_missing", colon_missing, False),
    ("capital_value", capital_value, False),
    ("value_missing", value_missing, False),
    ("misspelled", misspelled, False),
]


def offend(r, stmts, lay, which=None):
    """(name, description, text) of the query with one offence, or None if it has no place for it."""
    name, fn, on_tree = which or r.choice(OFFENCES)
    stmts = copy.deepcopy(stmts)
    if on_tree:
        d = fn(r, stmts)
        if d is None:
            return None
        return name, d, gen.render(stmts, lay)
    toks = gen.tokens(stmts, lay)
    d = fn(r, toks)
    if d is None:
        return None
    return name, d, gen.join(toks)


# ------------------------------------------------------------------------------ damage
JUNK = ["(", ")", "{", "}", "[", "]", ",", ":", ";", "-", "->", "<-", "--", "'", '"', ".", "@", "+", "=", "|", "/", "\\", "!", "?", "~", "`", "^", "<", ">", "#", "%", "&", "*", "$", " ", "\t", "\n", "x", "1", "2.5", "null", "true", "MAKE", "FIND", "REPORT", "(:Z)", "-[:R]->", "{k: 1}", "k: 1", "é", "\u00a0", "\u2028", "\x00", "1e5", "-1", "[]", "[1]", "()"]


def damage(r, toks):
    """One random edit of the token list; returns a description."""
    toks_n = len(toks)
    c = r.random()
    if toks_n == 0:
        return "nothing"
    i = r.randrange(toks_n)
    if c < 0.22:
        t = toks.pop(i)
        return f"dropped {t[1]!r}"
    if c < 0.36:
        toks.insert(i, list(toks[i]))
        return f"doubled {toks[i][1]!r}"
    if c < 0.6:
        j = r.choice(JUNK)
        toks.insert(i, ["junk", j])
        return f"inserted {j!r}"
    if c < 0.7:
        j = r.randrange(toks_n)
        toks[i], toks[j] = toks[j], toks[i]
        return "swapped two tokens"
    if c < 0.78:
        del toks[i:]
        return "cut off"
    if c < 0.84:
        del toks[:i]
        return "cut off at the front"
    if c < 0.92:
        t = toks[i][1]
        if t:
            p = r.randrange(len(t))
            toks[i][1] = t[:p] + t[p + 1 :]
        return "dropped a character"
    t = toks[i][1]
    p = r.randint(0, len(t))
    j = r.choice(JUNK)
    toks[i][1] = t[:p] + j + t[p:]
    return f"inserted {j!r} within {t!r}"

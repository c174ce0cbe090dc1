"""C28: the processor time of short query texts, with a search that climbs towards the slow ones."""
from .. import gen, mutate, work
from ..core import Spec
from ..work import DB

LIMIT = 10.0
MAXLEN = 300
HEADS = [
    "", "MAKE ", "MAKE (", "MAKE (:", "MAKE (:A", "MAKE (a:A{", "MAKE (:A{k:", "MAKE (:A{k:[", "MAKE (:A{k:'", 'MAKE (:A{k:["', "MAKE (:A)", "MAKE (:A)-[", "MAKE (:A)-[r:R{", "MAKE (:A)-[]->(", "MAKE (:A)<-[]-(:B)-[",
    "MAKE (:A);", "MAKE (:A);\n", "FIND ", "FIND (", "FIND (:A{k:", "FIND (a:A)-[", "FIND (a:A);", "FIND (a:A);REPORT ", "REPORT ", "REPORT a", "make(", "MAEK ", "x", ";", "\n", " ",
]
PUMPS = [
    "a", " ", "a ", "\t", "\n", "(", ")", "-", "[", "]", "{", "}", ":", "a:", ",", "a,", "'", '"', "(:A)", "(:A),", "-[]->", "<-[]-", "(:A)-[]->", "[1,", "k:1,", "k:'a',", "k:1 ,", "<", ">", ";", "MAKE", "MAKE ", "FIND", "REPORT ",
    "(a", "1", "1.", ".", "_", "@", "{a:", "[[", "a:A ", "é", "a b:", "'a' ", "--", "-[", "MAKE (", "(:A{", " (", "1,", "'',", "\"'", "'a','", "a.b,", "wn(a),", "*", "#", "\\", "null", "true,", "k:null,", "]-", "->", "<-", " -", "[]", "{}", "()", "(a:A)-[r:R]->", " ,", " :", "FI", "KEMA", "\x00", "a;", ") ;", "MAKE(:A);", "0", "9.9", "ß", "İ", "ſ",
]
TAILS = ["", ";", ")", ");", "});", ']});', "'});", '"]});', "!", "$", ")-[]->(:A);", "]->(:A);", "}]->(:B);", " x", "x;", "\n", "*;", ", b;", "}", "]"]


def pumped(r):
    head, tail = r.choice(HEADS), r.choice(TAILS)
    room = MAXLEN - len(head) - len(tail)
    parts = []
    for i in range(r.choice([1, 1, 2, 2, 3])):
        p = "".join(r.choice(PUMPS) for _ in range(r.choice([1, 1, 1, 2, 3])))
        n = r.choice([room, room // 2, room // 3, r.randint(0, max(1, room))])
        parts.append((p * (n // len(p) + 1))[:n])
        if r.random() < 0.4:
            parts.append(r.choice(PUMPS + TAILS + HEADS))
    return (head + "".join(parts)[:room] + tail)[:MAXLEN]


def soup(r):
    out = ""
    n = r.choice([MAXLEN, r.randint(1, MAXLEN)])
    while len(out) < n:
        out += r.choice(PUMPS + TAILS + HEADS)
    return out[:n]


def valid(r):
    for _ in range(20):
        s = r.choice([work.make_query, work.mixed_query, work.find_query])(r, props_fn=lambda q: gen.props(q, q.choice([0, 1, 2])))
        toks = gen.tokens(s, gen.layout(r))
        for _ in range(r.choice([0, 0, 1, 3])):
            mutate.damage(r, toks)
        t = gen.join(toks)
        if len(t) <= MAXLEN:
            return t
    return "MAKE (:A);"


JUNK = ["]", ")", "}", ":", ",", "!", "-", "<", ">", "'", '"', "(])", "[)]", "[}]", ".", ";", "é", "[,]", "{]}"]


def stretched(r):
    """A query with long runs at a few places of its structure, one or two of its characters wrong."""
    for _ in range(20):
        s = r.choice([work.make_query, work.mixed_query, work.find_query])(r, props_fn=lambda q: gen.props(q, q.choice([0, 1, 1, 2])))
        t = gen.join(gen.tokens(s, gen.layout(r)))
        if len(t) <= 120:
            break
    else:
        t = r.choice(["MAKE (a:A{k:1})-[r:R{k:'a'}]->(b:B);", "FIND (a:A)<-[r:R]-(b:B);"])
    marks = [i for i, x in enumerate(t) if not x.isalnum()]
    for _ in range(r.choice([0, 1, 1, 2])):
        i = r.choice(marks + [r.randrange(len(t))])
        x = r.random()
        if x < 0.4:
            t = t[:i] + t[i + 1:]
        elif x < 0.7:
            t = t[:i] + r.choice(JUNK) + t[i + 1:]
        else:
            t = t[:i] + r.choice(JUNK) + t[i:]
        marks = [i for i, x in enumerate(t) if not x.isalnum()] or [0]
    spots = sorted(r.choice(marks) + r.choice([0, 1, 1]) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
    room = (MAXLEN - len(t)) // len(spots)
    for i in reversed(spots):
        p = r.choice([" ", " ", "a", "a", "\t", "\n ", "1", "a ", "'", "a,", "a:", ":", ",", "-", ".", r.choice(PUMPS)])
        t = t[:i] + (p * (room // len(p) + 1))[:room] + t[i:]
    return t[:MAXLEN]


def vary(r, t):
    x = r.random()
    i, j = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
    if x < 0.3:  # more of one stretch
        j = min(j, i + 12)
        t = t[:i] + t[i:j] * r.choice([2, 3, 10, 40]) + t[j:]
    elif x < 0.5:
        t = t[:i] + r.choice(PUMPS) * r.choice([1, 2, 8, 50]) + t[i:]
    elif x < 0.65:
        t = t[:i] + t[min(j, i + 15):]
    elif x < 0.8:
        t = t[:i] + r.choice(TAILS + HEADS) + t[min(j, i + 3):]
    elif x < 0.9:
        t = t + r.choice(TAILS)
    else:
        t = r.choice(HEADS) + t
    return t[:MAXLEN]


def c28(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    ses.call("query", db.paths, "MAKE (:A)-[:R]->(:B);")
    best = []

    def one(kind, t):
        res = ses.call("query", db.paths, t)
        if res.hang or res.cpu > LIMIT:
            c.fail(f"a text of {len(t)} characters took {res.cpu:.1f} s of processor time ({'stopped' if res.hang else res.brief()})", text=t, kind=kind)
        c.event(kind)
        c.event("accepted" if res.ok else "rejected")
        c.peak("max_ms", int(res.cpu * 1000))
        c.judged(t, nontrivial=len(t) > 0)
        best.append((res.cpu, t))
        best.sort(reverse=True)
        del best[6:]

    for k in range(60):
        x = k % 6
        if x < 2:
            one("pumped", pumped(r))
        elif x == 2:
            one("stretched", stretched(r))
        elif x == 3:
            one("soup", soup(r))
        elif x == 4:
            one("valid or damaged", valid(r))
        else:
            one("climbing", vary(r, r.choice(best[:3])[1]))
    for k in range(40):
        one("stretched", stretched(r))
    for k in range(30):
        one("climbing", vary(r, r.choice(best)[1]))


SPECS = [
    Spec("C28", c28, 330, 6000, "texts of up to 300 characters: one to three pumped fragments between heads and tails of the language, token soup, valid and damaged queries, and variations of the slowest so far; processor time of each; distinct texts",
         floor={"pumped": 5000, "stretched": 8000, "climbing": 5000, "soup": 1000, "valid or damaged": 1000}, quick_cap=300),
]

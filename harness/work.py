"""Workload building blocks shared by the checks."""
import json
import os
import shutil

from . import gen, mutate
from .core import Inconclusive
from .model import Snap, parse

OFFSETS = [0, 0, 0, 0, 7, 8, 9, 95, 98, 250, 254, 995, 998, 9990, 65530, 10**6 - 2, 2**31 - 5, 2**32 - 3, 10**12, 2**53 - 1, 2**53 + 1, 2**63 - 2]


class DB:
    """One database under test."""

    def __init__(self, case, ses, name=None, folder=None, wn=None):
        self.case = case
        self.folder = folder or os.path.join(case.dir, "dbms")
        case._n += 1
        self.name = name if name is not None else f"db{case._n}"
        again = case.r.random() < 0.1
        if again:  # there was one of that name before, in this very session
            self._earlier(case, ses)
        r = ses.call("create", self.name, self.folder)
        if r.ok:
            self.paths = r.value
        else:  # the creation of databases is judged elsewhere
            case.event("created_by_harness")
            d = os.path.join(self.folder, self.name)
            os.makedirs(d, exist_ok=True)
            self.paths = [
                os.path.join(d, f"database_{self.name}.json"),
                os.path.join(d, f"indexes_{self.name}.json"),
                os.path.join(d, f"wiggle_number_{self.name}.txt"),
            ]
            for p, t in zip(self.paths, ("{}", '{"node_relationships": {}, "node_labels": [], "relationship_names": []}', "0")):
                with open(p, "w") as h:
                    h.write(t)
        if wn:
            with open(self.paths[2], "w") as h:
                h.write(str(wn))

    def _earlier(self, case, ses):
        r = ses.call("create", self.name, self.folder)
        d = os.path.join(self.folder, self.name)
        if r.ok:
            for _ in range(case.r.choice([1, 2])):
                s = make_query(case.r)
                ses.call("query", r.value, gen.render(s))
                ses.call("query", r.value, gen.render([gen.Stmt("FIND", [case.r.choice(s[0].patterns)])]))
            ses.call("delete", self.name, self.folder)
            case.event("databases that had a predecessor")
        if os.path.isdir(d):  # deletion is judged elsewhere
            shutil.rmtree(d)

    def snap(self):
        return Snap(self.paths)

    def parsed(self, when="snapshot"):
        return parse(self.snap(), self.case, when)


def reformat(r, db):
    """The same content in other bytes, the way an editor or another program would have left it."""
    done = []
    for i, p in enumerate(db.paths):
        if r.random() < 0.3:
            continue
        with open(p, "rb") as h:
            raw = h.read()
        if i == 2:
            new = r.choice([raw + b"\n", raw + b"\r\n", b" " + raw, raw + b"  ", b"\n" + raw + b"\n", b"0" + raw])
        else:
            try:
                d = json.loads(raw)
            except ValueError:
                continue
            new = json.dumps(d, indent=r.choice([None, 0, 2, 4]), separators=r.choice([None, (",", ":"), (" , ", " : ")]), ensure_ascii=r.random() < 0.5).encode()
            new = r.choice([b"", b"\n", b"  "]) + new + r.choice([b"", b"\n", b"\n\n", b" "])
        if new != raw:
            with open(p, "wb") as h:
                h.write(new)
            done.append(os.path.basename(p))
    return done


def bulk(case, ses, db, nodes, distinct=False):
    """Fills the database with about that many nodes through ordinary queries; returns their statements."""
    out = []
    total = nodes
    r = case.r
    while nodes > 0:
        pats = []
        for _ in range(min(60, nodes)):
            p = gen.pattern(r, size=r.choice([1, 2, 3]), props_fn=lambda r: gen.props(r, r.choice([0, 0, 1, 2])))
            if distinct:
                for k, e in enumerate(p.nodes + p.rels):
                    if isinstance(e, gen.Node):
                        e.label = f"{e.label[:9]}{total - nodes}_{k}"
                    elif e.name:
                        e.name = f"{e.name[:9]}{total - nodes}_{k}"
            pats.append(p)
            nodes -= len(p.nodes)
        s = gen.Stmt("MAKE", pats)
        res = ses.call("query", db.paths, gen.render([s]))
        case.event("bulk_queries")
        if not res.ok:
            case.fail("a well-formed MAKE was rejected", query=gen.render([s])[:1500], outcome=res.brief())
        out.append(s)
    return out


# -------------------------------------------------------------------------- statements
def report_items(r, handles):
    """Items of a REPORT over (some of) the handles."""
    if not handles or r.random() < 0.12:
        return ["*"]
    k = r.randint(1, min(4, len(handles)))
    out = []
    chosen = r.sample(list(handles), k)
    if r.random() < 0.15:  # several items of one element
        chosen += [r.choice(list(handles)) for _ in range(r.choice([1, 3, 8, 20]))]
    for h in chosen:
        c = r.random()
        if c < 0.45:
            out.append(h)
        elif c < 0.8:
            out.append(h + "." + gen.key(r))
        else:
            out.append("wn(" + h + ")")
    return out


def handles_of(p):
    return [x.handle for x in p.nodes + p.rels if x.handle]


def find_query(r, report=None, **kw):
    f = gen.find_stmt(r, **kw)
    out = [f]
    if report or (report is None and r.random() < 0.4):
        out.append(gen.Stmt("REPORT", items=report_items(r, handles_of(f.patterns[0]))))
    return out


def mixed_query(r, **kw):
    """MAKE statements with a FIND (and a REPORT) in any order."""
    out = [gen.make_stmt(r, npat=r.choice([1, 1, 2]), **kw) for _ in range(r.choice([1, 1, 2]))]
    out += find_query(r, **kw)
    r.shuffle(out)
    return out


def make_query(r, **kw):
    out = [gen.make_stmt(r, **kw) for _ in range(r.choice([1, 1, 1, 1, 2, 3]))]
    if r.random() < 0.06:  # one statement once more, or nearly so
        s = r.choice(out)
        out.insert(r.randint(0, len(out)), s if r.random() < 0.5 else gen.relative(r, [s])[0])
    return out


def long_query(r):
    """One long statement, or many of them, now and then with a FIND among them."""
    if r.random() < 0.6:
        out = [gen.make_stmt(r, npat=r.choice([15, 30, 60]))]
    else:
        out = [gen.make_stmt(r) for _ in range(r.choice([12, 25, 40]))]
    if r.random() < 0.3:
        out.insert(r.randint(0, len(out)), gen.find_stmt(r))
    return out


def norel_query(r):
    return [gen.Stmt("MAKE", [gen.pattern(r, size=1) for _ in range(r.choice([1, 1, 2, 4]))])]


# -------------------------------------------------------------------- rejected queries
UNSTORABLE = ["1j", "2j", "b'x'", "1e999", "[1]", "x", "1_", "0x", "...", "'a' 'b'", "9" * 5000, "{1}", "nan", "1e5x", "0777"]


def bad_query(r, lay):
    """(kind, text) of a query that must be rejected, often holding perfectly good statements too."""
    c = r.random()
    if c < 0.45:
        for _ in range(30):
            stmts = r.choice([make_query] * 10 + [mixed_query] * 5 + [long_query])(r)
            o = mutate.offend(r, stmts, lay)
            if o:
                return "offence:" + o[0], o[2]
    good = gen.render([x for x in long_query(r) if x.clause == "MAKE"] if r.random() < 0.08 else make_query(r), lay)
    if c < 0.55:
        if r.random() < 0.25:  # in the FIND of a query that has MAKEs
            p = gen.pattern(r, props_fn=lambda q: gen.props(q) + [("zk", gen.Val("list", [1], items=[gen.Val("int", 1, "1")]))])
            toks = gen.tokens([gen.Stmt("FIND", [p])], lay)
            toks[r.choice([i for i, t in enumerate(toks) if t[0].startswith("item:")])][1] = r.choice(UNSTORABLE)
            return "unstorable in FIND", r.choice([good + "\n" + gen.join(toks), gen.join(toks) + "\n" + good])
        s = make_query(r)
        toks = gen.tokens(s, lay)
        pool = [i for i, t in enumerate(toks) if t[0].startswith("item:")]
        if not pool:
            s = [gen.Stmt("MAKE", [gen.pattern(r, size=r.choice([1, 2, 3]), props_fn=lambda q: [("k", gen.Val("list", [1], items=[gen.Val("int", 1, "1"), gen.Val("int", 2, "2")]))])])]
            toks = gen.tokens(s, lay)
            pool = [i for i, t in enumerate(toks) if t[0].startswith("item:")]
        toks[r.choice(pool)][1] = r.choice(UNSTORABLE)
        pre = good + "\n" if r.random() < 0.4 else ""
        return "unstorable", pre + gen.join(toks)
    if c < 0.63:
        f1, f2 = gen.render(find_query(r, report=False), lay), gen.render(find_query(r, report=False), lay)
        return "two finds", r.choice([good + "\n" + f1 + "\n" + f2, f1 + "\n" + good + "\n" + f2, f1 + "\n" + f2])
    if c < 0.7:
        return "report without find", r.choice([good + "\nREPORT a;", "REPORT a, b;\n" + good, "REPORT n;"])
    if c < 0.78:
        p = gen.pattern(r)
        bad = gen.render([gen.Stmt("FIND", [p])]) + "\nREPORT zz_unknown, zz;"
        return "report of unknown handle", r.choice([good + "\n" + bad, bad])
    if c < 0.88:
        for _ in range(30):
            o = mutate.offend(r, find_query(r, report=False), lay)
            if o and o[0] != "misspelled":
                return "make with bad find:" + o[0], r.choice([good + "\n" + o[2], o[2] + "\n" + good])
    if c < 0.94:
        return "nothing usable", r.choice(["", " ", ";", "foo", "help", "MAKE", "MAKE;", "(:A)", "(:A);", "SELECT * FROM x;", "{}", "\n", "q ", "MATCH (n:A) RETURN n;", "make find report", "é", "\x00"])
    r1, f = "REPORT a;", "FIND (a:A);"
    return "two reports", good + "\n" + f + "\n" + r1 + "\n" + r1


def damaged_query(r, lay):
    stmts = r.choice([make_query, make_query, mixed_query, find_query])(r)
    toks = gen.tokens(stmts, lay)
    ds = [mutate.damage(r, toks) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return stmts, ds, gen.join(toks)


def step(r, weights=None):
    """One step of a history: (kind, text, statements or None, expectation)."""
    kinds = weights or {"make": 6, "norel": 2, "mixed": 2, "find": 3, "bad": 3, "damaged": 2}
    k = r.choices(list(kinds), list(kinds.values()))[0]
    lay = gen.layout(r)
    if k == "make":
        s = make_query(r)
        return k, gen.render(s, lay), s, "ok"
    if k == "norel":
        s = norel_query(r)
        return k, gen.render(s, lay), s, "ok"
    if k == "mixed":
        s = mixed_query(r)
        return k, gen.render(s, lay), s, "ok"
    if k == "find":
        s = find_query(r)
        return k, gen.render(s, lay), s, "ok"
    if k == "bad":
        kind, t = bad_query(r, lay)
        return "bad " + kind, t, None, "reject"
    _, ds, t = damaged_query(r, lay)
    return k, t, None, None

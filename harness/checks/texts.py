"""C06, C08-C14, C28: what is accepted, rejected and understood."""
import collections
import copy
import re

from .. import gen, lexer, mutate, work
from ..core import Inconclusive, Spec
from ..model import (
    check_delta, check_unchanged, delta, expected_graph, labels_names, parse, stored_graph, typed,
)
from ..work import DB
from .storing import HIST, expect_ok


def twin_view(s):
    """What two databases must have in common: everything but the times."""
    g = {}
    for w, n in s.nodes.items():
        g[w] = (n.label, typed(n.props), sorted((x.wn, x.name, x.frm, x.to, typed(x.props)) for x in n.rels))
    return g, sorted(map(str, s.labels)), sorted(map(str, s.names)), {k: sorted(map(str, v)) for k, v in s.noderels.items() if v}, s.wn


def no_results(res):
    return "no results" in res.out.lower()


# ------------------------------------------------------------------------------- C06
def c06(c):
    r = c.r
    ses = c.session()
    wn = r.choice(work.OFFSETS)
    a, b = DB(c, ses, wn=wn), DB(c, ses, wn=wn)
    twin = c.session()
    if c.index % 20 == 7:
        for s in work.bulk(c, ses, a, 300):
            twin.call("query", b.paths, gen.render([s]))
    for _ in range(r.choice([2, 3, 5])):
        for _ in range(r.choice([1, 1, 2, 4])):
            lay = gen.layout(r)
            if r.random() < 0.7:
                kind, text = work.bad_query(r, lay)
                must = True
            else:
                _, ds, text = work.damaged_query(r, lay)
                kind, must = "damaged", False
            before = a.snap()
            res = ses.call("query", a.paths, text)
            after = a.snap()
            if not res.ok:
                check_unchanged(before, after, c, f"a rejected query ({kind}; {res.brief()[:150]})", query=text)
                c.event("rejected " + kind.split(":")[0])
                c.judged(text)
            else:
                # acceptance is judged elsewhere; here the twin gets it, too
                c.event("accepted " + kind.split(":")[0])
                parse(after, c, "after a query")  # took effect: the twin gets it too
                t = twin.call("query", b.paths, text)
                if not t.ok:
                    c.fail("the same text was accepted after a rejected query and rejected without", query=text, outcome=t.brief())
        if r.random() < 0.1:
            ses.close()
            ses = c.session()
        kind, text, stmts, _ = work.step(r, {"make": 5, "norel": 1, "mixed": 2, "find": 2})
        ra, rb = ses.call("query", a.paths, text), twin.call("query", b.paths, text)
        if ra.ok != rb.ok or no_results(ra) != no_results(rb):
            c.fail("a well-formed query works differently after a rejected one", query=text, after_rejected=ra.brief(), otherwise=rb.brief())
        sa, sb = parse(a.snap(), c, "after a good query"), parse(b.snap(), c, "twin after a good query")
        if twin_view(sa) != twin_view(sb):
            c.fail("a rejected query left traces: the database differs from one that never saw it", query=text, database=twin_view(sa), twin=twin_view(sb))
        c.event("twins_compared")


# ------------------------------------------------------------------------------- C08
def near(r, w, upper=False):
    """Something resembling w."""
    k = r.random()
    if k < 0.2:
        out = w + r.choice("X1_")
    elif k < 0.4 and len(w) > 1:
        out = w[:-1]
    elif k < 0.55 and len(w) > 1:
        out = w[1:]
    elif k < 0.75:
        out = w.swapcase()
    elif k < 0.85:
        out = w + w
    else:
        out = gen.label(r)
    out = out.upper() if upper else out
    return out if re.fullmatch(r"\w+", out) else "Z"


def c08(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    labels, names = set(), set()
    words = set()  # everything else that was written: keys, handles, strings
    other = set()  # of rejected queries
    made = []

    def note(stmts):
        L, N = labels_names(stmts)
        labels.update(L)
        names.update(N)
        for s in stmts:
            for p in s.patterns:
                for e in p.nodes + p.rels:
                    words.update([e.handle] if e.handle else [])
                    for k, v in e.props:
                        words.add(k)
                        if v.kind == "str" and v.value.isalnum():
                            words.add(v.value)

    if r.random() < 0.85:
        for _ in range(r.choice([1, 1, 2, 4])):
            stmts = r.choice([work.make_query, work.make_query, work.norel_query])(r)
            text = gen.render(stmts, gen.layout(r))
            res = ses.call("query", db.paths, text)
            expect_ok(c, res, text)
            note(stmts)
            made.append(stmts)
    for _ in range(r.choice([0, 1])):
        kind, text = work.bad_query(r, gen.layout(r))
        if not ses.call("query", db.paths, text).ok:
            other.update(gen_words(text))
    asked = []  # FINDs as they were put before: the answer is what holds now
    for _ in range(14):
        if r.random() < 0.1:
            ses.close()
            ses = c.session()
        if asked and r.random() < 0.3:
            text, fl, fn, p = r.choice(asked)
            if r.random() < 0.6:  # now it is made (in part)
                later = [gen.Stmt("MAKE", [p if r.random() < 0.7 else gen.Pattern([r.choice(p.nodes)], [])])]
                mtext = gen.render(later, gen.layout(r))
                expect_ok(c, ses.call("query", db.paths, mtext), mtext)
                note(later)
            res = ses.call("query", db.paths, text)
            expect_ok(c, res, text, "a well-formed FIND")
            missing = sorted(fl - labels) + sorted(fn - names)
            if no_results(res) != bool(missing):
                c.fail(f"FIND, asked again, {'reported' if not missing else 'did not report'} \"No results\"; missing are {missing}", query=text, labels=sorted(labels), names=sorted(names), out=res.out)
            c.event("asked again, absent" if missing else "asked again, present")
            c.judged((sorted(labels), sorted(names), text), sample=text)
            continue
        L, N = sorted(labels), sorted(names)

        def pick_label(q):
            return q.choice(L) if L else gen.label(q)

        def pick_name(q):
            return q.choice(N) if N else gen.name(q)

        p = gen.pattern(r, label_fn=pick_label, name_fn=pick_name)
        absent = r.random()
        if absent < 0.5:  # one element is (probably) not there
            els = p.nodes + [x for x in p.rels]
            e = r.choice(els)
            isrel = e in p.rels
            pool = sorted((labels - names) if isrel else (names - labels))
            z = r.random()
            if z < 0.3 and pool:
                w = r.choice(pool)
            elif z < 0.45 and words:
                w = r.choice(sorted(words))
            elif z < 0.6 and other:
                w = r.choice(sorted(other))
            else:
                w = near(r, (e.name or "REL") if isrel else e.label, isrel)
            if isrel:
                e.name = w.upper() if w.upper().isupper() else "ABSENT"
            else:
                e.label = w
        stmts = [gen.Stmt("FIND", [p])]
        if r.random() < 0.3:
            stmts.append(gen.Stmt("REPORT", items=work.report_items(r, work.handles_of(p))))
        extra = []
        if r.random() < 0.2:  # a MAKE earlier in the same query
            extra = [gen.make_stmt(r, npat=1)]
            if r.random() < 0.7:
                extra[0].patterns[0].nodes[0].label = r.choice(p.nodes).label
                nm = [x.name for x in p.rels if x.name]
                if nm and extra[0].patterns[0].rels:
                    extra[0].patterns[0].rels[0].name = r.choice(nm)
        stmts = extra + stmts
        text = gen.render(stmts, gen.layout(r))
        res = ses.call("query", db.paths, text)
        expect_ok(c, res, text, "a well-formed FIND")
        note(extra)
        fl, fn = labels_names(stmts, "FIND")
        missing = sorted(fl - labels) + sorted(fn - names)
        if not extra:
            asked.append((text, fl, fn, p))
        if missing and not no_results(res):
            c.fail(f"FIND did not report \"No results\" although {missing} are not in the database", query=text, labels=sorted(labels), names=sorted(names), out=res.out)
        if not missing and no_results(res):
            c.fail("FIND reported \"No results\" although every label and name it needs is in the database", query=text, labels=sorted(labels), names=sorted(names))
        c.event("find absent" if missing else "find present")
        c.event(f"nodes {len(p.nodes)}")
        if extra:
            c.event("make and find in one query")
        if missing:
            c.event("absent label" if fl - labels else "absent name only")
        if any(not x.name for x in p.rels) and not missing:
            c.event("unnamed relationship, present")
        c.judged((sorted(labels), sorted(names), text), sample=text)
    x = r.random()
    if x < 0.3 and made:
        second_life(c, ses, db, made)
    elif x < 0.7:
        several_patterns(c, r, ses, db, sorted(labels))


def several_patterns(c, r, ses, db, L):
    """FIND with two patterns: what is certain however they combine."""
    def pat(there):
        while True:
            p = gen.pattern(r, label_fn=(lambda q: q.choice(L)) if there else gen.label)
            p = gen.Pattern([p.nodes[0]], [])
            if (p.nodes[0].label in L) == there:
                return p

    def ask(ps):
        text = gen.render([gen.Stmt("FIND", ps)], gen.layout(r))
        res = ses.call("query", db.paths, text)
        expect_ok(c, res, text, "a well-formed FIND of two patterns")
        return text, no_results(res)

    if L:
        text, none = ask([pat(True), pat(True)])
        if none:
            c.fail("FIND of two patterns reported \"No results\" although every label is in the database", query=text, labels=L)
    text, none = ask([pat(False), pat(False)])
    if not none:
        c.fail("FIND of two patterns did not report \"No results\" although none of its labels is in the database", query=text, labels=L)
    c.event("FIND of two patterns")
    if L and r.random() < 0.2:
        a, b = pat(True), pat(False)
        text, x = ask([a, b])
        _, y = ask([b, a])
        if x != y:
            c.fail("the answer to a FIND of two patterns depends on their order: only the first is looked at", sig="find-first-pattern-only", query=text)


def turned(w, seen):
    """A word of the same length that is not the same."""
    def one(ch):
        if "a" <= ch <= "z":
            return chr((ord(ch) - 97 + 7) % 26 + 97)
        return chr((ord(ch) - 65 + 7) % 26 + 65) if "A" <= ch <= "Z" else ch

    return seen.setdefault(w, "".join(map(one, w)))


def second_life(c, ses, db, made):
    """The database is deleted and made again in the same session with other words of the same lengths."""
    r = c.r
    if not ses.call("delete", db.name, db.folder).ok:
        return
    again = ses.call("create", db.name, db.folder)
    if not again.ok:
        return
    db.paths = again.value
    seen = {}
    old, new = [set(), set()], [set(), set()]
    for stmts in made:
        now = copy.deepcopy(stmts)
        for L, e in ((old, stmts), (new, now)):
            if e is now:
                for s in now:
                    for p in s.patterns:
                        for n in p.nodes:
                            n.label = turned(n.label, seen)
                        for x in p.rels:
                            x.name = turned(x.name, seen)
            a, b = labels_names(e)
            L[0].update(a)
            L[1].update(b)
        text = gen.render(now)
        expect_ok(c, ses.call("query", db.paths, text), text)
    asks = [(gen.Pattern([gen.Node("", w, [])], []), w in new[0]) for w in sorted(old[0] | new[0])]
    asks += [(gen.Pattern([gen.Node("", min(new[0]), []), gen.Node("", max(new[0]), [])], [gen.Rel("", w, True, [])]), w in new[1]) for w in sorted(old[1] | new[1])]
    for p, there in asks:
        text = gen.render([gen.Stmt("FIND", [p])])
        res = ses.call("query", db.paths, text)
        expect_ok(c, res, text, "a well-formed FIND")
        if no_results(res) == there:
            c.fail(f"after the database was deleted and made again FIND {'reported' if there else 'did not report'} \"No results\"", query=text, labels=sorted(new[0]), names=sorted(new[1]), labels_before=sorted(old[0]), names_before=sorted(old[1]))
        c.event("finds in a second life")
        c.judged(("second", sorted(new[0]), text))


def gen_words(text):
    import re

    return {w for w in re.findall(r"[A-Za-z]\w*", text) if w not in ("MAKE", "FIND", "REPORT")}


# ------------------------------------------------------------------------------- C09
def c09(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    if r.random() < 0.5:
        ses.call("query", db.paths, gen.render(work.make_query(r)))
    for k in range(10):
        x = r.random()
        if x < 0.06:
            stmts = work.long_query(r)
            c.event("long queries")
        elif x < 0.5:
            stmts = [gen.make_stmt(r) for _ in range(r.choice([1, 1, 2, 3]))]
        elif x < 0.75:
            stmts = work.mixed_query(r)
        else:
            stmts = work.find_query(r)
        which = mutate.OFFENCES[(c.index + k) % len(mutate.OFFENCES)]
        o = mutate.offend(r, stmts, gen.layout(r), which)
        if o is None:
            continue
        name, what, text = o
        before = db.snap()
        res = ses.call("query", db.paths, text)
        if res.ok:
            c.fail(f"an ill-formed query was accepted ({what})", query=text)
        check_unchanged(before, db.snap(), c, f"a rejected query ({what})", query=text)
        c.event("offence " + name)
        c.judged(text)


# ------------------------------------------------------------------------------- C10
def c10(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    before = db.parsed("start")
    for k in range(14):
        if r.random() < 0.02:  # much text, and a misspelled clause word anywhere in it
            stmts = work.long_query(r)
            if len({x.clause for x in stmts}) == 1:
                f = gen.find_stmt(r)
                if r.random() < 0.5:
                    f.patterns[0].nodes[0].props = gen.props(r, r.choice([10, 40]))
                stmts.insert(r.randint(0, len(stmts)), f)
            if r.random() < 0.3:
                stmts = [x for x in stmts if x.clause == "FIND"] + [gen.make_stmt(r)]
            o = mutate.offend(r, stmts, gen.layout(r), next(x for x in mutate.OFFENCES if x[0] == "misspelled"))
            res = ses.call("query", db.paths, o[2])
            if res.ok:
                c.fail(f"a query was accepted although a statement of it cannot be read ({o[1]})", query=o[2])
            c.event("long queries, misspelled")
            c.judged(o[2])
        stmts = [gen.make_stmt(r, npat=r.choice([1, 1, 2, 3])) for _ in range(r.choice([1, 1, 1, 2]))]
        if r.random() < 0.03:
            stmts = [x for x in work.long_query(r) if x.clause == "MAKE"]
            c.event("long queries")
        if r.random() < 0.5:  # small ones survive damage more often
            for s in stmts:
                for p in s.patterns:
                    for e in p.nodes + p.rels:
                        e.props = e.props[:2]
        lay = gen.layout(r)
        toks = gen.tokens(stmts, lay)
        ds = []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.5:
                o = targeted_damage(r, toks) if x < 0.32 else bare_arrow(r, toks) if x < 0.4 else leftover(r, toks)
                if o:
                    ds.append(o)
                    continue
            ds.append(mutate.damage(r, toks))
        text = gen.join(toks)
        if any(j in d for d in ds for j in ("'FIND'", "'REPORT'")):
            continue
        res = ses.call("query", db.paths, text)
        after = parse(db.snap(), c, f"after {text[:300]!r}")
        if not res.ok:
            c.event("rejected")
            c.judged(text, nontrivial=bool(ds))
            before = after
            continue
        c.event("accepted damaged" if ds else "accepted undamaged")
        new = delta(before, after)
        got_rels = [x for n in new.values() for x in n.rels]
        seen = lexer.read(text)
        if seen is None:
            c.fail("text that is no MAKE in any reading was accepted instead of being refused", query=text, damage=ds, stored=len(new))
        nodes, rels = seen
        if len(nodes) != len(new) or len(rels) != len(got_rels):
            c.fail(f"an accepted query was carried out in part: {len(nodes)} nodes and {len(rels)} relationships written, {len(new)} and {len(got_rels)} stored", query=text, damage=ds)
        for what, want, got in (
            ("labels", [l for l, _ in nodes], [n.label for n in new.values()]),
            ("relationship names", [n for n, _ in rels], [x.name for x in got_rels]),
        ):
            a, b = collections.Counter(want), collections.Counter(got)
            if a != b:
                c.fail(f"an accepted query was carried out in part: {what} written {sorted((a - b).elements())} were stored as {sorted((b - a).elements())}", query=text, damage=ds)
        match_props(c, [(l, p) for l, p in nodes], [(n.label, n.props) for n in new.values()], text, ds)
        match_props(c, [(l, p) for l, p in rels], [(x.name, x.props) for x in got_rels], text, ds)
        c.event("accepted and judged")
        c.judged(text)
        before = after
    for k in range(6):
        damaged_find(c, r, ses, db)


def damaged_find(c, r, ses, db):
    """A FIND with edits: when it is accepted, the search it becomes holds everything written."""
    f = gen.find_stmt(r)
    for e in f.patterns[0].nodes + f.patterns[0].rels:
        e.props = e.props[:2]
    stmts = [f] + ([gen.Stmt("REPORT", items=["*"])] if r.random() < 0.2 else [])
    toks = gen.tokens(stmts, gen.layout(r))
    ds = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        x = r.random()
        o = targeted_damage(r, toks) if x < 0.35 else bare_arrow(r, toks) if x < 0.45 else leftover(r, toks) if x < 0.7 else None
        ds.append(o or mutate.damage(r, toks))
    text = gen.join(toks)
    if "make" in text.lower():
        return
    res = ses.call("query", db.paths, text)
    if not res.ok:
        c.event("FIND rejected")
        c.judged(text, nontrivial=bool(ds))
        return
    seen = lexer.read_find(text)
    if seen is None:
        c.fail("text that is no FIND in any reading was accepted instead of being refused", query=text, damage=ds)
    patterns, nodes, rels = seen
    if patterns > 1:
        c.event("FIND of several patterns")
        return
    pre = ses.call("find_pre", text)
    if not pre.ok:
        c.fail(f"an accepted FIND could not be turned into a search: {pre.exc}: {pre.msg[:200]}", query=text, damage=ds)
    got_n = [n for n in pre.value["nodes"] if n]
    got_r = [x for n in got_n for x in n["rels"]]
    for what, want, got in (
        ("labels", [l for l, _ in nodes], [n["label"] for n in got_n]),
        ("relationship names", [n for n, _ in rels], [x["name"] or "" for x in got_r]),
    ):
        a, b = collections.Counter(want), collections.Counter(got)
        if a != b:
            c.fail(f"an accepted FIND is understood in part: {what} written {sorted((a - b).elements())}, searched for {sorted((b - a).elements())}", query=text, damage=ds)
    match_props(c, nodes, [(n["label"], n["yes"] or {}) for n in got_n], text, ds)
    match_props(c, rels, [(x["name"] or "", x["yes"] or {}) for x in got_r], text, ds)
    c.event("FIND accepted and judged")
    c.judged(text, nontrivial=bool(ds))


def bare_arrow(r, toks):
    """Something like a relationship, without its brackets."""
    p = [i for i, t in enumerate(toks) if t[0] == "[rel"]
    if not p:
        return None
    i = r.choice(p) - 1
    j = next((j for j in range(i, len(toks) - 1) if toks[j][0] == "]rel"), None)
    if j is None or i < 0:
        return None
    new = r.choice(["--", "-->", "<--", "->", "<-", "-", "---->", "<->", "-- ", "- ->", "-:X->", "-r:X->", "-X->", "<-X-", "-()->", "-{}->", "=>", "~", "\u2014", ">", "<", "<>", ".", "|", "-[", "]->"])
    toks[i : j + 2] = [["junk", new]]
    return f"put {new!r} instead of a relationship"


def leftover(r, toks):
    """Something that belongs to no pattern, between or after the elements."""
    p = [i for i, t in enumerate(toks) if t[1] in ("(", ")", "[", "]", ";") or t[0].startswith("arrow")]
    if not p:
        return None
    i = r.choice(p)
    j = r.choice([" x ", " (n)", " ()", " [r:R]", " -[:R]->", " {x: 1}", " (B)", " ->", " foo, ", " '(:A)' ", " . ", " (:A", " :A ", " -[:R]-> (B)", " 5 ", " = ", " : ", "@", "+", " or ", " and (x) "])
    toks.insert(i + r.choice([0, 1]), ["junk", j])
    return f"put {j!r} next to {toks[i][1]!r}"


def match_props(c, written, stored, text, ds):
    left = list(stored)
    for label, props in written:
        for i, (l, p) in enumerate(left):
            if l == label and len(p) == len(props) and all(k in p and lexer.value_ok(v, p[k]) for k, v in props):
                del left[i]
                break
        else:
            c.fail(f"an accepted query was carried out in part: properties {props} of {label!r} were not all stored", query=text, stored=[p for l, p in left if l == label][:4], damage=ds)


def targeted_damage(r, toks):
    """Damage that is likely to pass the syntax checks."""
    x = r.random()
    if x < 0.08:
        p = [i for i, t in enumerate(toks) if t[0] == "key"]
        if not p:
            return None
        i = r.choice(p)
        k = toks[i][1]
        j = r.choice([k, k, k, k.swapcase(), toks[r.choice(p)][1]])
        v = r.choice(["1", "null", "'x'", "[1]", "true", "1.5"])
        toks[i][1] = f"{j}: {v}, {k}"
        return f"gave {j!r} before {k!r}"
    if x < 0.2:
        p = [i for i, t in enumerate(toks) if t[0] in (",pat", ";")]
        if not p:
            return None
        i = r.choice(p)
        t = toks[i][1]
        toks[i][1] = " " if t == "," else ""
        return f"dropped {t!r} between patterns"
    if x < 0.4:
        p = [i for i, t in enumerate(toks) if t[0] in ("val:str", "item:str")]
        if not p:
            return None
        i = r.choice(p)
        j = r.choice([",", ":", ", ", ": ", " , x", "'", '"', "''", " 'x' ", "+", "-", "\n", ";", "!", "/", "\\", "\\n", "{", "=", "é", "\u00a0", "k: 1", ", k: 1", "', k: '1"])
        t = toks[i][1]
        q = r.randint(0, len(t))
        toks[i][1] = t[:q] + j + t[q:]
        return f"inserted {j!r} in a string"
    if x < 0.6:
        p = [i for i, t in enumerate(toks) if t[0] in ("val:int", "val:float", "val:bool", "val:null", "item:int", "item:float")]
        if not p:
            return None
        i = r.choice(p)
        old = toks[i][1]
        toks[i][1] = r.choice(["-5", "-1.5", "+3", ".5", "5.", "1e5", "1.5e3", "1.2.3", "0x10", "1_000", "5 6", "007", "1,5", "foo", "foo bar", "foo.bar", "a@b", "'a' 'b'", "[]", "[[1], 2]", "[1", "{}", "nulll", "truetrue", "null true", "1 null", "NaN", "inf", "٣", "½", "1L", "b'x'", "'''x'''", "x: 1", "'unclosed", "", "true, 1", "9" * 400 + ".5", "1" + "0" * 309 + ".0", "[" + "7" * 320 + ".25]", "0." + "0" * 400 + "1"])
        return f"{old!r} became {toks[i][1]!r}"
    if x < 0.75:
        p = [i for i, t in enumerate(toks) if t[0] == "}"]
        if not p:
            return None
        i = r.choice(p)
        j = r.choice([",", ", ", " x", " x: ", ", x", "}", ", k: 1", " k: 1", "{", "{x: 1}", " 5"])
        toks[i][1] = r.choice([j + "}", "}" + j])
        return f"added {j!r} at the end of properties"
    p = [i for i, t in enumerate(toks) if t[0] in ("label", "nhandle", "name", "rhandle", "key")]
    if not p:
        return None
    i = r.choice(p)
    j = r.choice([" x", "-x", ".x", "@x", "+x", ":x", ": x", "é", "'", " {a: 1}", ",", "/", "|B", "\n"])
    toks[i][1] += j
    return f"{toks[i][0]} got {j!r}"


# ------------------------------------------------------------------------------- C11
def relayout_tokens(r, toks):
    """Another layout of the same tokens."""
    out = []
    blank = r.choice([0.0, 0.3, 0.8])
    for t in toks:
        if t[0] == "ws" and "\n" not in t[1]:
            continue
        out.append(list(t))
    res = []
    for i, t in enumerate(out):
        if res:
            a, b = res[-1][1][-1:], t[1][:1]
            glue = a.isalnum() or a in "_.@+\"'" 
            glue2 = b.isalnum() or b in "_.@+\"'"
            if glue and glue2:
                res.append(["ws", " "])
            elif res[-1][0].startswith("clause:REPORT"):
                res.append(["ws", " "])
            elif r.random() < blank and t[0] not in ("arrow>", "arrow-") and not res[-1][0].startswith("arrow"):
                res.append(["ws", r.choice([" ", "  ", "\t"])])
        if t[0].startswith("arrow"):
            core = t[1].strip("<>")
            t[1] = t[1].replace(core, "-" * r.choice([1, 1, 2, 4])) if core else t[1]
        if t[0].startswith("clause:"):
            t[1] = r.choice([t[1].upper(), t[1].lower(), t[1].capitalize()])
        res.append(t)
    return gen.join(res)


def c11(c):
    r = c.r
    ses = c.session()
    x = r.random()
    if x < 0.5:
        stmts = work.make_query(r)
        while sum(len(s.patterns) for s in stmts) > 6:
            stmts = work.make_query(r)
    elif x < 0.8:
        stmts = work.mixed_query(r)
    else:
        stmts = work.find_query(r)
    base = [work.make_query(r) for _ in range(r.choice([0, 1]))]
    find = [s for s in stmts if s.clause == "FIND"]
    makes = [s for s in stmts if s.clause == "MAKE"]
    fresh_find = None
    if find and not makes and base and r.random() < 0.6:
        fresh_find = [gen.Stmt("FIND", [r.choice(base[0][0].patterns)])]
        stmts = fresh_find
    renderings = [gen.render(stmts)]
    renderings.append(gen.render(stmts, gen.Layout(r, 0.0, oneline=True)))
    renderings.append(gen.render(stmts, gen.Layout(r, 0.6, oneline=True)))
    renderings.append(gen.render(stmts, gen.Layout(r, 0.0, oneline=False, case=True)))
    for _ in range(6):
        renderings.append(gen.render(stmts, gen.layout(r)))
    ref = None
    for k, text in enumerate(dict.fromkeys(renderings)):
        db = DB(c, ses)
        for b in base:
            ses.call("query", db.paths, gen.render(b))
        before = db.parsed("before")
        res = ses.call("query", db.paths, text)
        after = parse(db.snap(), c, "after")
        got, odd = stored_graph(delta(before, after))
        eff = (res.ok, no_results(res), sorted(got.elements()), odd[:1], sorted(map(str, after.labels)), sorted(map(str, after.names)), after.wn)
        if ref is None:
            ref, reftext = eff, text
        elif eff != ref:
            diff = [n for n, a, b in zip(("accepted", "no results", "stored graph", "stored graph", "labels", "names", "next number"), ref, eff) if a != b]
            c.fail(f"two layouts of one query have different effects: {', '.join(diff)}", one=reftext, other=text, effect_one=ref, effect_other=eff, outcome=res.brief())
        c.event("renderings")
        c.event("accepted" if res.ok else "rejected")
        c.judged(text)
    if not ref[0]:
        c.fail("a well-formed query was rejected in every layout", query=reftext, outcome=res.brief())
    # ill-formed queries stay ill-formed in another layout
    for _ in range(3):
        st = copy.deepcopy(stmts)
        name, fn, on_tree = r.choice(mutate.OFFENCES)
        if on_tree:
            if fn(r, st) is None:
                continue
            toks = gen.tokens(st)
        else:
            toks = gen.tokens(st)
            if fn(r, toks) is None:
                continue
        db = DB(c, ses)
        outs = []
        for text in [gen.join(toks), relayout_tokens(r, toks), relayout_tokens(r, toks)]:
            res = ses.call("query", db.paths, text)
            outs.append((res.ok, text))
        if len({o for o, _ in outs}) > 1:
            c.fail(f"an ill-formed query ({name}) is rejected in one layout and accepted in another", layouts=outs)
        c.event("ill-formed layouts", len(outs))


# ------------------------------------------------------------------------------- C12
def clauseish(r):
    return r.choice(gen.CLAUSE_LIKE) if r.random() < 0.7 else gen.label(r)


def clauseish_name(r):
    return r.choice(["MAKE", "FIND", "REPORT", "MAKES", "REPORTS", "FINDER", "KAME", "ADJUST", "CRITERIA", "USING", "WN", "REL"])


CL_STR = ["make", "MAKE", "Make it so", "find", "FIND me", "report", "REPORT a", "annual report", "report foo", "see report 7", "MAKE FIND REPORT", "make find report", "wn", "MAEK", "reprot", "FNID it", "a REPORT b", "find make", "REPORT", "Report.", "report.x", "REPORT x y z"]


def clauseish_props(r):
    out, seen = [], set()
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k = r.choice(["make", "find", "report", "MAKE", "FIND", "REPORT", "Report", "k", "name", "wn"])
        if k in seen:
            continue
        seen.add(k)
        if r.random() < 0.7:
            out.append((k, gen.Val("str", r.choice(CL_STR))))
        elif r.random() < 0.5:
            items = [gen.Val("str", r.choice(CL_STR)) for _ in range(r.choice([1, 2]))]
            out.append((k, gen.Val("list", [i.value for i in items], items=items)))
        else:
            out.append((k, gen.val(r)))
    return out


def c12(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    before = db.parsed("start")
    kw = dict(label_fn=clauseish, name_fn=clauseish_name, props_fn=clauseish_props)
    for k in range(8):
        x = r.random()
        makes = [gen.make_stmt(r, npat=r.choice([1, 1, 2]), **kw) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        f = gen.find_stmt(r, **kw)
        handles = work.handles_of(f.patterns[0])
        rep = gen.Stmt("REPORT", items=work.report_items(r, handles))
        if x < 0.2:
            stmts, ok, kind = makes or [gen.make_stmt(r, **kw)], True, "MAKE only"
        elif x < 0.4:
            stmts, ok, kind = makes + [f], True, "with FIND"
        elif x < 0.65:
            stmts, ok, kind = makes + [f, rep], True, "with FIND and REPORT"
        elif x < 0.75:
            stmts, ok, kind = makes + [f, gen.find_stmt(r, **kw)], False, "two FINDs"
            if r.random() < 0.5:
                stmts.append(rep)
        elif x < 0.83:
            stmts, ok, kind = makes + [f, rep, gen.Stmt("REPORT", items=work.report_items(r, handles))], False, "two REPORTs"
        elif x < 0.91:
            stmts, ok, kind = makes + [rep], False, "REPORT without FIND"
        elif x < 0.96:
            stmts, ok, kind = makes + [f, rep], True, "with FIND and REPORT"
        else:
            text = r.choice(["", " ", ";", "\n", "make", "report", "find", "Make it so", "MAKE;", "FIND;", "REPORT;", "foo bar", "(:A);", "make a report", "please find the report"])
            res = ses.call("query", db.paths, text)
            if res.ok:
                c.fail("a query without any usable clause was accepted", query=text)
            c.event("kind nothing usable")
            c.judged(text)
            continue
        r.shuffle(stmts)
        text = gen.render(stmts, gen.layout(r))
        snap = db.snap()
        res = ses.call("query", db.paths, text)
        after = parse(db.snap(), c, f"after {text[:300]!r}")
        if ok and not res.ok:
            c.fail(f"a well-formed query ({kind}) was rejected: {res.exc}: {res.msg[:200]}", query=text)
        if not ok and res.ok:
            c.fail(f"a query with {kind} was accepted", query=text)
        if ok:
            check_delta(before, after, stmts, c, f"MAKE in a query {kind}", query=text)
        else:
            check_unchanged(snap, db.snap(), c, f"a rejected query ({kind})", query=text)
        before = after
        c.event("kind " + kind)
        c.event("order " + "".join(s.clause[0] for s in stmts)[:5])
        c.judged(text)


# ------------------------------------------------------------------------------- C13
def c13(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    if r.random() < 0.5:
        ses.call("query", db.paths, gen.render(work.make_query(r)))
    for k in range(12):
        p = gen.pattern(r, props_fn=lambda q: gen.props(q, q.choice([0, 0, 1, 2])))
        if r.random() < 0.8:
            for e in p.nodes + p.rels:  # most elements with a handle
                if not e.handle and r.random() < 0.7:
                    h = gen.handle(r)
                    if h not in work.handles_of(p):
                        e.handle = h
        handles = work.handles_of(p)
        items = work.report_items(r, handles)
        undeclared = None
        if r.random() < 0.5:
            for _ in range(20):
                z = r.random()
                if z < 0.5 and handles:
                    w = near(r, r.choice(handles))
                elif z < 0.6:
                    w = p.nodes[0].label
                elif z < 0.7 and p.rels and p.rels[0].name:
                    w = p.rels[0].name
                elif z < 0.8 and p.nodes[0].props:
                    w = p.nodes[0].props[0][0]
                else:
                    w = gen.handle(r)
                if w not in handles and w.replace("_", "a").isalnum():
                    undeclared = w
                    break
            if undeclared:
                it = r.choice([undeclared, undeclared, undeclared + "." + (r.choice(handles) if handles else "x"), "wn(" + undeclared + ")"])
                if items == ["*"]:
                    items = [it]
                else:
                    items.insert(r.choice([r.randint(0, len(items)), len(items)]), it)
        stmts = [gen.Stmt("FIND", [p]), gen.Stmt("REPORT", items=items)]
        if r.random() < 0.2:
            stmts.insert(0, gen.make_stmt(r, npat=1))
        if r.random() < 0.04:
            stmts += [x for x in work.long_query(r) if x.clause == "MAKE"]
            c.event("long queries")
        if r.random() < 0.25:
            r.shuffle(stmts)
        text = gen.render(stmts, gen.layout(r))
        before = db.snap()
        res = ses.call("query", db.paths, text)
        if undeclared and res.ok:
            c.fail(f"REPORT of {undeclared!r}, which the FIND does not declare, was accepted", query=text, handles=handles)
        if not undeclared and not res.ok:
            c.fail(f"REPORT of declared handles was rejected: {res.exc}: {res.msg[:200]}", query=text, handles=handles)
        if undeclared:
            check_unchanged(before, db.snap(), c, "a rejected REPORT", query=text)
        c.event("undeclared" if undeclared else "declared")
        for it in items:
            c.event("item " + ("*" if it == "*" else "wn()" if it.startswith("wn(") else "handle.prop" if "." in it else "handle"))
        c.judged(text)
    if r.random() < 0.2:  # a FIND of two patterns
        a, b = gen.pattern(r), gen.pattern(r)
        a.nodes[0].handle, b.nodes[0].handle = "first", "second"
        text = gen.render([gen.Stmt("FIND", [a, b]), gen.Stmt("REPORT", items=["third"])], gen.layout(r))
        if ses.call("query", db.paths, text).ok:
            c.fail("REPORT of a handle that neither pattern of the FIND declares was accepted", query=text)
        for h in ("first", "second"):
            text = gen.render([gen.Stmt("FIND", [a, b]), gen.Stmt("REPORT", items=[h])], gen.layout(r))
            res = ses.call("query", db.paths, text)
            c.event("two patterns in FIND")
            if not res.ok:
                c.fail(f"REPORT of a handle declared in the {h} pattern of the FIND was rejected: {res.exc}: {res.msg[:200]}", sig="find-first-pattern-only" if h == "second" and res.exc == "FindReportHandleMissmatch" else None, query=text)


# ------------------------------------------------------------------------------- C14
def exp_find(p, crit):
    def el(e, label_key):
        d = {label_key: (e.label if label_key == "label" else e.name), "handle": e.handle, "yes": {k: v.value for k, v in e.props}, "no": {}}
        if crit and e.handle and e.handle in crit:
            d["yes"] = {**d["yes"], **(crit[e.handle][0] or {})}
            d["no"] = {**(crit[e.handle][1] or {})}
        return d

    nodes = [el(n, "label") for n in p.nodes] + [None] * (3 - len(p.nodes))
    for n in nodes:
        if n is not None:
            n["rels"] = []
    for i, x in enumerate(p.rels):
        nodes[i if x.right else i + 1]["rels"].append(el(x, "name"))
    return nodes


def norm_el(d, key):
    return {key: d[key] or "", "handle": d["handle"] or "", "yes": typed(d["yes"] or {}), "no": typed(d["no"] or {})}


def norm_find(nodes):
    out = []
    for n in nodes:
        if n is None:
            out.append(None)
            continue
        d = norm_el(n, "label")
        d["rels"] = sorted(typed(norm_el(x, "name")) for x in n["rels"])
        out.append(d)
    return out


def rand_plain_props(r):
    return {k: v.value for k, v in gen.props(r, r.choice([0, 1, 1, 2, 3]))}


def c14(c):
    r = c.r
    ses = c.session()
    specs, wants = [], []
    for k in range(20):
        p = gen.pattern(r)
        for e in p.nodes + p.rels:
            if not e.handle and r.random() < 0.4:
                h = gen.handle(r)
                if h not in work.handles_of(p):
                    e.handle = h
        crit = None
        if r.random() < 0.5:
            crit = {}
            hs = work.handles_of(p)
            for h in r.sample(hs, r.randint(0, len(hs))):
                crit[h] = (rand_plain_props(r), rand_plain_props(r))
                e = [e for e in p.nodes + p.rels if e.handle == h][0]
                if e.props and r.random() < 0.5:  # the same property again
                    crit[h][0][e.props[0][0]] = gen.val(r).value
            if r.random() < 0.3:
                crit["nobody"] = ({"x": 1}, {"y": 2})
        specs.append((gen.render([gen.Stmt("FIND", [p])], gen.layout(r)), crit))
        wants.append((p, crit))
    for (text, crit), (p, _), res in zip(specs, wants, ses.call("find_pre_many", specs)):
        if not res.ok:
            c.fail(f"a well-formed FIND could not be processed: {res.exc}: {res.msg}", query=text, criteria=crit)
        want, got = norm_find(exp_find(p, crit)), norm_find(res.value["nodes"])
        # a two-node pattern may keep its second node in the middle or on the right
        def squeeze(x):
            return [n for n in x if n is not None]

        if squeeze(want) != squeeze(got):
            c.fail("the search derived from a FIND differs from what is written", query=text, criteria=crit, written=squeeze(want), derived=squeeze(got))
        if got[0] is None:
            c.fail("the search has no left node", query=text)
        L, N = labels_names([gen.Stmt("FIND", [p])], "FIND")
        if set(res.value["labels"]) != L or {x for x in res.value["names"] if x} != N:
            c.fail("labels or names needed by the FIND are wrong", query=text, labels=res.value["labels"], names=res.value["names"])
        c.event(f"nodes {len(p.nodes)}")
        c.event("with criteria" if crit is not None else "without criteria")
        for x in p.rels:
            c.event("direction " + (">" if x.right else "<"))
        c.judged((text, repr(crit)), sample=text)


SPECS = [
    Spec("C06", c06, 500, 5000, "bursts of rejected texts on one database, its twin never sees them; a judgement compares all three files before and after one rejected text; distinct texts", floor={"rejected offence": 300, "rejected unstorable": 60, "rejected make with bad find": 60, "rejected two finds": 40, "rejected report without find": 40, "rejected damaged": 100, "twins_compared": 600}),
    Spec("C08", c08, 700, 7000, "FIND patterns over the labels and names of a random history, with none or one replaced by a near miss; distinct (contents, text)", floor={"find absent": 1500, "find present": 1500, "absent name only": 200, "unnamed relationship, present": 200, "make and find in one query": 300, "nodes 1": 500, "nodes 2": 500, "nodes 3": 500}),
    Spec("C09", c09, 900, 9000, "one offence of each kind at a random place of a well-formed query (1-3 statements, MAKE/FIND/REPORT); distinct texts", floor={"offence " + n: 150 for n, _, _ in mutate.OFFENCES}),
    Spec("C10", c10, 900, 9000, "MAKE texts with 0-3 random or targeted edits; an accepted one is read leniently by an independent reader and compared with what was stored; non-trivial = edited", floor={"rejected": 2000, "accepted and judged": 800, "accepted damaged": 500, "FIND rejected": 1000, "FIND accepted and judged": 600}),
    Spec("C11", c11, 500, 5000, "each case renders one query in about ten layouts and runs each on an equal database; distinct texts", floor={"renderings": 2000, "accepted": 2000, "ill-formed layouts": 1000}),
    Spec("C12", c12, 800, 8000, "queries of 1-6 statements in any order over clause-like words; distinct texts", floor={"kind MAKE only": 300, "kind with FIND": 300, "kind with FIND and REPORT": 300, "kind two FINDs": 150, "kind two REPORTs": 100, "kind REPORT without FIND": 100, "kind nothing usable": 50}),
    Spec("C13", c13, 700, 7000, "FIND and REPORT with declared handles only, or with one near-miss handle; distinct texts", floor={"declared": 1500, "undeclared": 1500, "item *": 100, "item wn()": 300, "item handle.prop": 500, "item handle": 800}),
    Spec("C14", c14, 500, 5000, "FIND patterns with and without criteria; the derived search against the generator's pattern; distinct (text, criteria)", floor={"with criteria": 1000, "without criteria": 1000, "nodes 1": 500, "nodes 2": 500, "nodes 3": 500, "direction >": 1000, "direction <": 1000}),
]

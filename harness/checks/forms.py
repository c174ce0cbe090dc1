"""C32, C33: the errors that refused texts cause, and the parsed form of accepted ones."""
import re

from .. import gen, mutate, work
from ..core import Spec
from ..model import check_unchanged, typed
from ..work import DB

# ------------------------------------------------------------------------------- C32
KINDS = {
    "illegal_char": ["IllegalCharacterError"],
    "undirected": ["NonDirectedRelationshipError"],
    "both_ways": ["NonDirectedRelationshipError"],
    "lower_name": ["RelationshipNameSyntaxError"],
    # names, commas or clause words may look wrong, too, where a bracket is missing or too many
    "bracket_missing": ["WiggleGraphBaseException"],
    "bracket_extra": ["WiggleGraphBaseException"],
    "duplicate_handle": ["MakeDuplicateHandlesError"],
    "comma_missing": ["ParamSyntaxError"],
    "colon_missing": ["ParamSyntaxError"],
    "capital_value": ["WiggleGraphIllegalPropertyValue"],
    "value_missing": ["WiggleGraphIllegalPropertyValue"],
    "misspelled": ["ClauseSyntaxError"],
}
BRACKETS = {"(": "parenthes", ")": "parenthes", "{": "curly", "}": "curly", "[": "square", "]": "square"}


def hint(name, what):
    """What the message has to contain, or None."""
    words = what.split()
    if name == "illegal_char":
        return words[1]
    if name == "lower_name":
        return what[len("relationship name "):]
    if name in ("bracket_missing", "bracket_extra"):
        return None  # see misleads()
    if name == "duplicate_handle":
        return words[1]
    if name == "capital_value":
        return words[1]
    if name == "value_missing":
        return what[len("property without a value: "):]
    if name == "misspelled":
        w = words[1].upper()
        return next(c for c in ("MAKE", "FIND", "REPORT") if sorted(c) == sorted(w))
    return None


def misleads(name, what, msg):
    """Brackets of another kind than the offending one in the message (before the text it quotes)."""
    if name not in ("bracket_missing", "bracket_extra"):
        return None
    right = BRACKETS[what.split()[1][0]]
    head = msg.split("--->")[0].casefold()
    named = {w for w in BRACKETS.values() if w in head}
    return named - {right} if named and right not in named else None


def judge(c, res, name, kinds, want, text, what):
    if res.ok:
        c.fail(f"an ill-formed query was accepted ({what})", query=text)
    if not any(k in res.mro for k in kinds):
        c.fail(f"{what}: the error was {res.exc} instead of {' or '.join(kinds)}", query=text, message=res.msg)
    msg = res.full or res.msg or ""
    said = want in msg if name == "lower_name" else (want or "").casefold() in msg.casefold()
    if want and not said:
        c.fail(f"{what}: the message does not say {want!r}", query=text, message=msg[:1500])
    if wrong := misleads(name, what, msg):
        c.fail(f"{what}: the message speaks of {wrong}", query=text, message=msg[:1500])
    c.event("errors " + name)


def c32(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    if r.random() < 0.5:
        ses.call("query", db.paths, gen.render(work.make_query(r)))
    seen = []
    for k in range(12):
        x = r.random()
        lay = gen.layout(r)
        if x < 0.68:
            stmts = r.choice([work.make_query] * 6 + [work.mixed_query] * 3 + [work.find_query] * 3 + [work.long_query])(r)
            o = mutate.offend(r, stmts, lay, mutate.OFFENCES[(c.index + k) % len(mutate.OFFENCES)])
            if o is None:
                continue
            name, what, text = o
            kinds, want = KINDS[name], hint(name, what)
            if name == "illegal_char" and re.search(re.escape(want) + r"\s*;", text):  # behind the last bracket: no statement any more
                kinds, want = kinds + ["ClauseSyntaxError"], None
            if name == "comma_missing" and what.endswith("list"):
                kinds = kinds + ["WiggleGraphIllegalPropertyValue"]
        elif x < 0.76:
            f = gen.find_stmt(r)
            both = [f, gen.find_stmt(r) if r.random() < 0.7 else f]
            stmts = both + [gen.make_stmt(r) for _ in range(r.choice([0, 0, 1, 2]))]
            r.shuffle(stmts)
            name, what, kinds, want, text = "two_finds", "more than one FIND", ["MultipleClauseStatementsError"], "FIND", gen.render(stmts, lay)
        elif x < 0.82:
            f = gen.find_stmt(r)
            reps = [gen.Stmt("REPORT", items=work.report_items(r, work.handles_of(f.patterns[0]))) for _ in range(2)]
            stmts = [f] + reps + [gen.make_stmt(r) for _ in range(r.choice([0, 0, 1, 2]))]
            r.shuffle(stmts)
            name, what, kinds, want, text = "two_reports", "more than one REPORT", ["MultipleClauseStatementsError"], "REPORT", gen.render(stmts, lay)
        elif x < 0.9:
            f = gen.find_stmt(r)
            known = work.handles_of(f.patterns[0])
            z = gen.handle(r)
            if z in known or not z.isidentifier():
                continue
            items = [i for i in work.report_items(r, known) if i != "*"]
            items.insert(r.randint(0, len(items)), r.choice([z, z + ".name", "wn(" + z + ")"]))
            stmts = [f, gen.Stmt("REPORT", items=items)] + [gen.make_stmt(r) for _ in range(r.choice([0, 0, 1]))]
            r.shuffle(stmts)
            name, what, kinds, want, text = "undeclared", f"REPORT of {z}, which the FIND does not declare", ["FindReportHandleMissmatch"], z, gen.render(stmts, lay)
        elif x < 0.94:
            kind, text = work.bad_query(r, lay)
            name, what, kinds, want = "other", kind, ["Exception"], None
        else:
            _, ds, text = work.damaged_query(r, lay)
            res = ses.call("query", db.paths, text)
            if not res.ok and not (res.full or res.msg).strip():
                c.fail(f"a refused query caused an error without a message ({res.exc})", query=text, damage=ds)
            c.event("damaged " + ("accepted" if res.ok else "refused"))
            continue
        if seen and r.random() < 0.15:  # something from before, again
            name, what, kinds, want, text = r.choice(seen)
            c.event("repeated")
        seen.append((name, what, kinds, want, text))
        before = db.snap()
        res = ses.call("query", db.paths, text)
        judge(c, res, name, kinds, want, text, what)
        if not (res.full or res.msg).strip():
            c.fail(f"a refused query caused an error without a message ({res.exc})", query=text)
        check_unchanged(before, db.snap(), c, f"a rejected query ({what})", query=text)
        c.judged(text)
    if c.index % 3 == 0:  # the storage function, with numbers that are taken
        db2 = DB(c, ses)
        have = {str(n): {"n": n} for n in r.sample(range(10**r.choice([1, 3, 7])), r.choice([1, 3, 8]))}
        if not ses.call("add_db", db2.paths[0], have).ok:
            c.fail("a batch of new records was refused", batch=have)
        for _ in range(3):
            taken = r.choice(list(have))
            batch = {str(10**8 + i): {} for i in range(r.choice([0, 1, 4]))}
            keys = list(batch) + [taken]
            r.shuffle(keys)
            res = ses.call("add_db", db2.paths[0], {key: {"again": True} for key in keys})
            judge(c, res, "taken_number", ["NodeExistsError"], taken, keys, f"adding a record under {taken}, which is taken")
            c.judged(("batch", tuple(keys)))
    if c.index % 3 == 1:  # the data model
        for _ in range(6):
            own = r.choice([0, 1, 7, 10**6]) + r.randint(0, 3)
            rels = [(own + 100 + i, own, own + 1 + i, "R") if r.random() < 0.5 else (own + 100 + i, own + 1 + i, own, "R") for i in range(r.choice([1, 2, 4]))]
            i = r.randrange(len(rels))
            if r.random() < 0.5:
                n = r.choice([own, own + 30])
                rels[i] = (rels[i][0], n, n, "R")
                name, kinds = "to_itself", ["RelationshipToFromError"]
            else:
                rels[i] = (rels[i][0], own + 50, own + 51, "R")
                name, kinds = "unrelated", ["NodeHasUnrelatedRelationship"]
            res = ses.call("build_node", own, rels)
            judge(c, res, name, kinds, None, repr((own, rels)), f"a node with the relationships {rels}")
            c.judged((own, tuple(rels)))


# ------------------------------------------------------------------------------- C33
def pieces(toks):
    """[(clause, text of the statement, [[texts of the elements of a pattern, in order]])]"""
    out, start = [], None
    for i, t in enumerate(toks):
        if t[0].startswith("clause:"):
            clause, start, pats, begun, arrows = t[0][7:], i, [], None, 0
            if clause != "REPORT":
                pats.append([])
        elif start is None:
            continue
        elif t[0] == "(" and not arrows:
            begun = i
        elif t[0] == ")" and not arrows:
            pats[-1].append(join(toks[begun : i + 1]))
        elif t[0].startswith("arrow"):
            arrows += 1
            if arrows == 1:
                begun = i
            else:
                pats[-1].append(join(toks[begun : i + 1]))
                arrows = 0
        elif t[0] == ",pat":
            pats.append([])
        elif t[0] == ";":
            out.append((clause, join(toks[start : i + 1]), pats))
            start = None
    return out


def join(toks):
    return "".join(t[1] for t in toks)


def same_pattern(c, p, texts, form, text):
    order = [e for pair in zip(p.nodes, p.rels + [None]) for e in pair if e is not None]
    got = form["elements"]
    if len(got) != len(order):
        c.fail(f"a pattern of {len(order)} nodes and relationships was parsed into {len(got)}", query=text, parsed=got)
    for e, whole, (place, gwhole, handle, label, props) in zip(order, texts, got):
        if isinstance(e, gen.Node) != place.endswith("node"):
            c.fail(f"{whole!r} was parsed as {place}", query=text, parsed=got)
        if (gwhole or "").strip() != whole.strip():
            c.fail(f"the text of {whole!r} was parsed as {gwhole!r}", query=text)
        if handle != (e.handle or ""):
            c.fail(f"the handle of {whole!r} was parsed as {handle!r}", query=text)
        name = e.label if isinstance(e, gen.Node) else e.name
        if label != (name or ""):
            c.fail(f"the label or name of {whole!r} was parsed as {label!r}", query=text)
        if typed(props) != typed({k: v.value for k, v in e.props}):
            c.fail(f"the properties of {whole!r} were parsed as {props!r}", query=text)
    if form["nodes"] != len(p.nodes) or form["rels"] != len(p.rels):
        c.fail(f"a pattern of {len(p.nodes)} nodes and {len(p.rels)} relationships was counted as {form['nodes']} and {form['rels']}", query=text)
    if form["handles"] != sorted(work.handles_of(p)):
        c.fail(f"the handles of a pattern are {form['handles']}", query=text, written=sorted(work.handles_of(p)))
    c.event("elements", len(order))
    c.event("handles", len(form["handles"]))
    c.event(f"nodes {len(p.nodes)}")


def c33(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses) if r.random() < 0.3 else None
    past = []
    for k in range(10):
        if past and r.random() < 0.1:
            stmts = r.choice(past)
        elif past and r.random() < 0.1:
            stmts = gen.relative(r, r.choice(past))
        else:
            stmts = r.choice([work.make_query, work.mixed_query, work.mixed_query, work.find_query, work.norel_query])(r)
        for s in stmts:
            for p in s.patterns:
                for e in p.nodes + p.rels:
                    if not e.handle and r.random() < 0.3:
                        h = gen.handle(r)
                        if h not in work.handles_of(p):
                            e.handle = h
        past.append(stmts)
        toks = gen.tokens(stmts, gen.layout(r))
        text = join(toks)
        if db and r.random() < 0.5:  # something else in the same session
            ses.call("query", db.paths, work.step(r)[1])
        before = db.snap() if db else None
        res = ses.call("parsed_form", text)
        if db:
            check_unchanged(before, db.snap(), c, "parsing alone", query=text)
        if not res.ok:
            c.fail(f"a well-formed query could not be parsed: {res.exc}: {res.msg[:200]}", query=text)
        form, ps = res.value, pieces(toks)
        for clause, key in (("MAKE", "make"), ("FIND", "find"), ("REPORT", "report")):
            mine = [(s, x) for s, x in zip(stmts, ps) if s.clause == clause]
            got = form[key]
            if not mine:
                if got:
                    c.fail(f"a query without {clause} has a parsed {clause}", query=text, parsed=got)
                c.event(f"without {clause}")
                continue
            c.event(f"with {clause}")
            if not got:
                c.fail(f"the parsed query lacks its {clause}", query=text)
            forms = got if clause == "MAKE" else [got]
            if len(forms) != len(mine):
                c.fail(f"{len(mine)} {clause} statements were parsed into {len(forms)}", query=text, parsed=[f[0] for f in forms])
            for (s, (_, whole, pats)), f in zip(mine, forms):
                if f[0].strip() != whole.strip() or f[1] != clause:
                    c.fail(f"a {clause} statement was parsed as {f[0]!r}", query=text, written=whole)
                if clause == "REPORT":
                    if f[2].strip() != whole.strip():
                        c.fail(f"a REPORT was taken for {f[2]!r}", query=text)
                    continue
                if clause == "FIND":
                    if f[3] != sorted(work.handles_of(s.patterns[0])):
                        c.fail(f"the handles of the FIND are {f[3]}", query=text)
                    same_pattern(c, s.patterns[0], pats[0], f[2], text)
                    continue
                if len(f[2]) != len(s.patterns):
                    c.fail(f"{len(s.patterns)} patterns were parsed into {len(f[2])}", query=text)
                for p, texts, form_p in zip(s.patterns, pats, f[2]):
                    same_pattern(c, p, texts, form_p, text)
        c.judged(text)


SPECS = [
    Spec("C32", c32, 700, 7000, "one offence of each kind at a random place of a well-formed query, surplus FINDs and REPORTs, undeclared handles, numbers that are taken, endpoints that do not fit; kind of the error and the hint in its message; distinct texts",
         floor={"errors " + n: 100 for n in KINDS} | {"errors two_finds": 100, "errors two_reports": 100, "errors undeclared": 100, "errors taken_number": 200, "errors to_itself": 200, "errors unrelated": 200}),
    Spec("C33", c33, 600, 6000, "well-formed queries of one to six statements in random layouts; every field of the parsed form against the generator's tree and tokens; distinct texts",
         floor={"with MAKE": 2000, "with FIND": 1500, "with REPORT": 500, "elements": 15000, "handles": 5000, "nodes 1": 1000, "nodes 2": 1000, "nodes 3": 1000}),
]

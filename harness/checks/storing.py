"""C01-C05, C07, C25, C26: what queries store, over histories."""
from .. import gen, work
from ..core import Spec
from ..model import (
    check_append_only, check_delta, check_indexes, check_integrity, check_numbers,
    check_unchanged, count_elements, delta, parse, typed,
)
from ..work import DB

HIST = "a history = queries (well-formed MAKE / FIND / mixed, ill-formed, damaged texts) in random layouts against one database, with new processes in between"


def expect_ok(c, res, text, what="a well-formed query"):
    if not res.ok:
        c.fail(f"{what} was rejected: {res.exc}: {res.msg[:200]}", query=text)


# ------------------------------------------------------------------------------- C01
def c01(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    if c.index % 25 == 3:
        work.bulk(c, ses, db, r.choice([150, 600, 1300]), distinct=r.random() < 0.5)
    before = db.parsed("start")
    last = None
    for k in range(r.choice([3, 5, 8])):
        if r.random() < 0.12:
            ses.close()
            ses = c.session()
        x = r.random()
        if last is not None and x < 0.08:
            stmts = last  # the same once more
        elif last is not None and x < 0.25:
            stmts = gen.relative(r, last)
        elif x < 0.35:
            stmts = work.mixed_query(r)
        elif x < 0.42:
            stmts = work.norel_query(r)
        elif x < 0.48:
            stmts = [gen.Stmt("MAKE", [gen.pattern(r, size=3) for _ in range(r.choice([6, 12, 25]))])]
        else:
            stmts = work.make_query(r)
        if r.random() < 0.15:  # something that must leave no trace in between
            _, bad = work.bad_query(r, gen.layout(r))
            ses.call("query", db.paths, bad)
            before = db.parsed("after a rejected query")
        text = gen.render(stmts, gen.layout(r))
        res = ses.call("query", db.paths, text)
        expect_ok(c, res, text)
        after = db.parsed(f"after {text[:300]!r}")
        check_delta(before, after, stmts, c, "after a MAKE", query=text, outcome=res.brief())
        n, m = count_elements(stmts)
        c.event("makes")
        c.event("nodes_stored", n)
        c.event("relationships_stored", m)
        for s in stmts:
            if s.clause == "MAKE":
                for p in s.patterns:
                    c.event("shape " + "".join(">" if x.right else "<" for x in p.rels).ljust(0) + f"{len(p.nodes)}")
        c.peak("max_database_bytes", len(after.raw[0]))
        c.judged(text)
        before, last = after, stmts


# ------------------------------------------------------------------------------- C02
def c02(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    before = db.parsed("start")
    past = []
    for k in range(6):
        kinds = r.choice([None, None, ["str"], ["list"], ["int", "float"], ["bool", "null", "str"]])
        nprops = r.choice([1, 2, 3, 5, 9, 16])
        pats = [
            gen.pattern(r, props_fn=lambda q: gen.props(q, q.choice([0, nprops, nprops]), kinds))
            for _ in range(r.choice([1, 1, 2]))
        ]
        pats[0].nodes[0].props = pats[0].nodes[0].props or gen.props(r, nprops, kinds)
        stmts = [gen.Stmt("MAKE", pats)]
        if k and r.random() < 0.35:  # close to what was there before
            stmts = gen.relative(r, r.choice(past))[:1]
            pats = stmts[0].patterns
            c.event("relatives")
        past.append(stmts)
        text = gen.render(stmts, gen.layout(r, case=False))
        res = ses.call("query", db.paths, text)
        expect_ok(c, res, text, "a MAKE with documented property values")
        after = db.parsed(f"after {text[:300]!r}")
        want = sorted(
            [[e.label, "n", typed({k: v.value for k, v in e.props})] for p in pats for e in p.nodes]
            + [[e.name, "r", typed({k: v.value for k, v in e.props})] for p in pats for e in p.rels]
        )
        new = delta(before, after)
        got = sorted(
            [[n.label, "n", typed(n.props)] for n in new.values()]
            + [[x.name, "r", typed(x.props)] for n in new.values() for x in n.rels]
        )
        if want != got:
            miss = [w for w in want if w not in got]
            extra = [g for g in got if g not in want]
            c.fail("properties were not stored as written", written=miss[:3], stored=extra[:3], query=text)
        for p in pats:
            for e in p.nodes + p.rels:
                for _, v in e.props:
                    c.event("value " + v.kind)
                    for i in v.items:
                        c.event("listed " + i.kind)
        c.judged(text)
        before = after


# ------------------------------------------------------------------- histories with monitors
def history(c, monitor, steps, weights=None, restarts=0.12, start=None):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    if start:
        start(c, ses, db)
    elif c.index % 20 == 5:
        work.bulk(c, ses, db, r.choice([100, 400, 900, 1500]), distinct=r.random() < 0.5)
    before = db.parsed("start")
    past = []
    for k in range(steps):
        if r.random() < restarts:
            ses.close()
            ses = c.session()
            c.event("restarts")
        if past and r.random() < 0.1:  # the very same text once more
            kind, text, stmts, expect = r.choice(past)
            c.event("repeated texts")
        elif past and r.random() < 0.1 and any(p[2] for p in past):
            stmts = gen.relative(r, r.choice([p[2] for p in past if p[2]]))
            kind, text, expect = "make", gen.render(stmts, gen.layout(r)), "ok"
        else:
            kind, text, stmts, expect = work.step(r, weights)
        past.append((kind, text, stmts, expect))
        pre = db.snap()
        res = ses.call("query", db.paths, text)
        c.event("accepted" if res.ok else "rejected")
        after = parse(db.snap(), c, f"after {kind} {text[:300]!r} ({res.brief()[:100]})")
        monitor(c, before, after, kind, text, stmts, res, pre)
        c.judged((k, text))
        before = after
    c.event("histories")
    c.peak("max_database_bytes", len(before.raw[0]))
    c.peak("max_nodes", len(before.nodes))
    return db, before


def c03(c):
    used = set()

    def mon(c, b, a, kind, text, stmts, res, pre):
        check_numbers(a, c, f"after {text[:200]!r}")
        for w in b.all_wns():
            used.add(w)
        bset = set(b.all_wns())
        new = set(a.all_wns()) - bset
        if new & used:
            c.fail(f"wiggle numbers {sorted(new & used)[:5]} were handed out before", query=text)
        if new and min(new) < b.wn:
            c.fail(f"new element got number {min(new)} although the next free number was {b.wn}", query=text)
        if a.wn < b.wn:
            c.fail(f"the stored next number went from {b.wn} back to {a.wn}", query=text)
        if res.ok and a.wn - b.wn != len(list(a.all_wns())) - len(list(b.all_wns())):
            c.fail(f"the next number grew by {a.wn - b.wn} while {len(new)} elements were created", query=text)
        if res.ok and stmts is not None:
            n, m = count_elements(stmts)
            if a.wn - b.wn != n + m:
                c.fail(f"the next number grew by {a.wn - b.wn} for a query describing {n + m} elements", query=text)
        used.update(new)
        c.event("numbers_handed_out", len(new))

    history(c, mon, c.r.choice([6, 10, 18]), restarts=0.2)


def c04(c):
    seen = {}

    def mon(c, b, a, kind, text, stmts, res, pre):
        check_append_only(b, a, c, f"after {kind}: {text[:300]!r}")
        for k, t in seen.items():  # against the first sight of every record, not only the previous step
            if k not in a.db or typed(a.db[k]) != t:
                c.fail(f"record {k} differs from what was first stored", first=t, now=a.db.get(k), query=text)
        for k, d in a.db.items():
            seen.setdefault(k, typed(d))
        c.event("records_compared", len(seen))

    history(c, mon, c.r.choice([6, 12, 25]), restarts=0.2)


def c05(c):
    def mon(c, b, a, kind, text, stmts, res, pre):
        check_indexes(a, c, f"after {kind}: {text[:200]!r}")
        c.event("index_comparisons", 3)
        if "bad" not in kind and stmts is not None and not any(p.rels for s in stmts for p in s.patterns):
            c.event("makes_without_relationships")

    db, last = history(c, mon, c.r.choice([5, 10, 18]), weights={"make": 6, "norel": 5, "mixed": 2, "find": 1, "bad": 3, "damaged": 2})
    ses = c.session()  # through the loaders, too
    labels, names, rels = (ses.call("index_load", w, db.paths[1]) for w in ("labels", "names", "noderels"))
    for w, x in (("labels", labels), ("names", names), ("noderels", rels)):
        if not x.ok:
            c.fail(f"loading the {w} index raised {x.exc}: {x.msg}")
    from ..model import index_expected

    L, N, R = index_expected(last.nodes)
    if set(labels.value[1]) != L:
        c.fail("loaded node labels disagree with the stored nodes", loaded=labels.value, stored=sorted(L))
    if set(names.value[1]) != N:
        c.fail("loaded relationship names disagree with the stored relationships", loaded=names.value, stored=sorted(N))
    got = {k: sorted(v[1]) for k, v in rels.value.items() if v[1]}
    if got != R:
        c.fail("loaded node-relationships disagree with the stored relationships", loaded=got, stored=R)


def c07(c):
    """FIND / REPORT only; every kind of text without MAKE."""
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    have = []
    for _ in range(r.choice([0, 1, 2, 4])):
        s = work.make_query(r)
        t = gen.render(s)
        res = ses.call("query", db.paths, t)
        have += s if res.ok else []
    if c.index % 20 == 4:
        work.bulk(c, ses, db, 300)
    if r.random() < 0.4:
        ses = c.session()
    for k in range(12):
        if r.random() < 0.06 and work.reformat(r, db):
            c.event("files reformatted")
        x = r.random()
        lay = gen.layout(r)
        if x < 0.35 and have:  # things that are there
            p = r.choice(r.choice(have).patterns)
            stmts = [gen.Stmt("FIND", [p])]
            if r.random() < 0.5:
                stmts.append(gen.Stmt("REPORT", items=work.report_items(r, work.handles_of(p))))
            text, kind = gen.render(stmts, lay), "find present"
        elif x < 0.6:
            text, kind = gen.render(work.find_query(r), lay), "find"
        elif x < 0.8:
            from .. import mutate

            o = mutate.offend(r, work.find_query(r), lay)
            if not o:
                continue
            text, kind = o[2], "ill-formed find"
        else:
            toks = gen.tokens(work.find_query(r), lay)
            for _ in range(r.choice([1, 2])):
                mutate_damage(r, toks)
            text, kind = gen.join(toks), "damaged find"
            if "make" in text.lower():
                continue
        before = db.snap()
        res = ses.call("query", db.paths, text)
        after = db.snap()
        if before.raw != after.raw:
            c.fail(f"a query without MAKE changed a file ({kind})", query=text, before=before.raw, after=after.raw, outcome=res.brief())
        wrote = [w for w in res.writes if any(w[1].startswith(p.rsplit("/", 1)[0] + "/") for p in db.paths)]
        if wrote:
            c.fail(f"a query without MAKE wrote to {wrote[0]}", query=text)
        c.event(kind)
        c.event("accepted" if res.ok else "rejected")
        if "no results" in res.out.lower():
            c.event("no results")
        c.judged((len(before.raw[0] or b""), text))


def mutate_damage(r, toks):
    from .. import mutate

    return mutate.damage(r, toks)


def c26(c):
    r = c.r
    if c.index % 4 == 3:  # constructors
        ses = c.session()
        for _ in range(25):
            base = r.choice([0, 1, 5, 10**6, 2**40])
            own = base + r.randint(0, 3)
            rels = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                f, t = base + r.randint(0, 4), base + r.randint(0, 4)
                rels.append((base + 100 + r.randint(0, 9), f, t, r.choice([None, "", "REL", "A"])))
            if r.random() < 0.4 and rels:  # mostly right, at most one wrong
                rels = [(w, own, own + 1 + k, n) if k % 2 else (w, own + 1 + k, own, n) for k, (w, f, t, n) in enumerate(rels)]
                k = r.randrange(len(rels))
                z = r.random()
                if z < 0.3:
                    rels[k] = (rels[k][0], own, own, rels[k][3])
                elif z < 0.7:
                    rels[k] = (rels[k][0], own + 50, own + 51, rels[k][3])
            self_rel = any(f == t for _, f, t, _ in rels)
            foreign = any(own not in (f, t) for _, f, t, _ in rels)
            res = ses.call("build_node", own, rels)
            if self_rel and res.ok:
                c.fail("a relationship from a node to itself was built", own=own, rels=rels)
            if foreign and res.ok:
                c.fail("a node was built with a relationship that does not touch it", own=own, rels=rels)
            if not self_rel and not foreign:
                if not res.ok:
                    c.fail(f"a sound node was refused: {res.exc} {res.msg}", own=own, rels=rels)
                if res.value != [own, [[w, f, t] for w, f, t, _ in rels]]:
                    c.fail("a built node differs from what was given", given=(own, rels), built=res.value)
            c.event("constructors " + ("self" if self_rel else "foreign" if foreign else "sound"))
            c.judged((own, tuple(rels)))
        return

    def mon(c, b, a, kind, text, stmts, res, pre):
        check_integrity(a, c, f"after {kind}: {text[:300]!r}")
        c.event("relationships_checked", sum(len(n.rels) for n in a.nodes.values()))

    history(c, mon, r.choice([6, 12, 20]), weights={"make": 6, "norel": 1, "mixed": 2, "find": 1, "bad": 2, "damaged": 5})


SPECS = [
    Spec("C01", c01, 900, 9000, "every case is a history of MAKE queries on one database (random initial counter, some large databases, repeats, restarts); a judgement compares the database delta with the graph the generator meant; distinct query texts", floor={"makes": 800, "shape 1": 100, "shape <2": 50, "shape >2": 50, "shape <<3": 30, "shape <>3": 30, "shape ><3": 30, "shape >>3": 30}),
    Spec("C02", c02, 900, 9000, "each judgement compares type and value of every stored property of one MAKE with the generator's values; distinct query texts", floor={"value int": 300, "value float": 300, "value bool": 300, "value null": 300, "value str": 300, "value list": 300, "listed str": 200}),
    Spec("C03", c03, 500, 5000, HIST + "; a judgement is one step, distinct by position and text", floor={"numbers_handed_out": 2000, "restarts": 100, "rejected": 300}),
    Spec("C04", c04, 400, 4000, HIST + "; a judgement compares every record seen so far", floor={"records_compared": 5000, "restarts": 100, "rejected": 300}),
    Spec("C05", c05, 500, 5000, HIST + "; a judgement compares the three indexes with those recomputed from the database", floor={"index_comparisons": 3000, "makes_without_relationships": 200, "rejected": 300}),
    Spec("C07", c07, 500, 5000, "texts without a MAKE (present, absent, ill-formed, damaged FIND/REPORT) on databases of any content; bytes before and after plus audited writes", floor={"find present": 300, "ill-formed find": 200, "damaged find": 100, "no results": 200, "accepted": 500, "rejected": 300, "files reformatted": 100}),
    Spec("C26", c26, 500, 5000, HIST + "; a judgement checks every stored relationship; plus model constructors with every kind of endpoint choice", floor={"relationships_checked": 5000, "constructors self": 100, "constructors foreign": 100, "constructors sound": 100}),
]

"""C41: work on different databases at the same time; C42: stored records read back as models."""
import json
import os
import shutil

from .. import gen, work
from ..core import Inconclusive, Spec
from ..model import Snap, check_append_only, check_delta, check_indexes, check_integrity, check_numbers, parse, typed
from ..work import DB
from .faults import prepare  # noqa: F401 (see main.py)
from .management import check_empty, fill, names, own_paths
from .meanwhile import Held
from .sessions import diff, view

# ------------------------------------------------------------------------------- C41


def history(r, name, paths, n, listing=True, others=()):
    """Steps on one database: created or opened, queried, now and then deleted and created anew."""
    steps = [("open", name, paths)] if paths else [("create", name)]
    made = []
    for _ in range(n):
        x = r.random()
        if x < 0.08 and others:
            nm = r.choice(others)
            steps += [("create", nm)]
            if r.random() < 0.7:
                steps += [("query", nm, gen.render(work.make_query(r))), ("delete", nm)]
            others.remove(nm)
        elif x < 0.14:
            steps += [("delete", name), ("create", name)]
        elif x < 0.2 and listing:
            steps.append(("list",))
        else:
            if made and r.random() < 0.25:
                text = gen.render([gen.Stmt("FIND", [r.choice(made)])])
            else:
                kind, text, stmts = plan(r)
                made += [p for s in stmts or [] if s.clause == "MAKE" for p in s.patterns]
            steps.append(("query", name, text))
    return steps


def plan(r):
    x = r.random()
    if x < 0.5:
        s = r.choice([work.make_query, work.make_query, work.norel_query, work.mixed_query])(r)
        return "make", gen.render(s, gen.layout(r)), s
    if x < 0.75:
        s = work.find_query(r)
        return "find", gen.render(s, gen.layout(r)), s
    return "bad", work.bad_query(r, gen.layout(r))[1], None


def alike(c, steps, got, want, how):
    """What each step did, against the same steps with nothing going on beside them."""
    if isinstance(got, str):
        c.fail(f"{how}: {got}", steps=steps[:5])
    for s, a, b in zip(steps, got, want):
        if s[0] == "list":
            continue
        if (a[1], a[2], a[4]) != (b[1], b[2], b[4]):
            c.fail(f"{how} a {s[0]} {'did' if a[1] else 'failed: ' + str(a[2:4])}{' (No results)' if a[4] else ''}, alone it {'did' if b[1] else 'failed: ' + str(b[2:4])}{' (No results)' if b[4] else ''}", step=s)
        c.event(("accepted " if a[1] else "refused ") + s[0])


def listed(c, steps, got, always, ever, how):
    for s, a in zip(steps, got):
        if s[0] != "list":
            continue
        if not a[1]:
            c.fail(f"{how} listing failed: {a[2]}: {a[3]}")
        if not set(always) <= set(a[3]) or not set(a[3]) <= set(ever) or len(set(a[3])) != len(a[3]) or a[3] != sorted(a[3]):
            c.fail(f"{how} the list of databases was {a[3]}", always_there=sorted(always), may_be_there=sorted(ever))
        c.event("lists meanwhile")


def at_rest(c, folder, bystanders, how):
    for nm, (paths, seen) in bystanders.items():
        d = diff(view(paths, c, "a database nobody used"), seen)
        if d:
            c.fail(f"{how} a database that nobody used changed: {d}", name=nm)


def remains(c, folder, names_, how):
    have = {x for x in os.listdir(folder)}
    if have != set(names_):
        c.fail(f"{how} the folder holds {sorted(have)} instead of {sorted(names_)}")
    for nm in names_:
        want = {os.path.basename(p) for p in own_paths(folder, nm)}
        if set(os.listdir(os.path.join(folder, nm))) != want:
            c.fail(f"{how} the folder of {nm!r} holds {sorted(os.listdir(os.path.join(folder, nm)))}")


def base(c, n):
    r = c.r
    folder = os.path.join(c.dir, "dbms")
    ns = names(r, n + 6)
    setup = c.session("setup")
    there = {}
    for nm, paths in fill(c, setup, folder, ns[n : n + 2]).items():
        there[nm] = (paths, view(paths, c, "set up"))
    setup.close()
    return folder, ns[:n], ns[n + 2 :], there


def left(steps, name):
    """The databases that exist after these steps."""
    out = []
    for s in steps:
        if s[0] in ("create", "open") and s[1] not in out:
            out.append(s[1])
        elif s[0] == "delete":
            out.remove(s[1])
    return out


def together(c):
    """Processes or threads, each with databases of its own, in one folder."""
    r = c.r
    threads = c.index % 2 == 0
    k = r.choice([2, 3, 4])
    folder, mine, spare, there = base(c, k)
    how = f"beside {k - 1} other {'threads' if threads else 'processes'}"
    jobs = []
    for i, nm in enumerate(mine):
        jobs.append(history(r, nm, None, r.choice([10, 20]), others=spare[i::k][:1]))
    ever = set(mine) | set(spare) | set(there)
    if threads:
        got = c.session("threads").call("at_once", jobs, folder, r.randrange(10**6))
    else:
        ses = [c.session(f"p{i}") for i in range(k)]
        for s, j in zip(ses, jobs):
            s.start("sequence", j, folder)
        got = [s.finish() for s in ses]
    exist = list(there)
    for i, (nm, job) in enumerate(zip(mine, jobs)):
        alone = os.path.join(c.dir, f"alone{i}")
        want = c.session(f"alone{i}").call("sequence", job, alone)
        alike(c, job, got[i], want, how)
        listed(c, job, got[i], there, ever, how)
        for x in left(job, nm):
            exist.append(x)
            d = diff(view(own_paths(folder, x), c, f"{x!r} {how}"), view(own_paths(alone, x), c, "alone"))
            if d:
                c.fail(f"{how} queries had another effect than alone: {d}", steps=job)
        c.judged((c.index, i, tuple(map(str, job))), sample=f"{how}: {job[:3]}")
        c.event("steps beside threads" if threads else "steps beside processes", len(job))
    at_rest(c, folder, there, how)
    remains(c, folder, exist, how)
    c.event("thread runs" if threads else "process runs")


def held(c):
    """A query, creation or deletion on one database held at each of its file-system calls, while others go on."""
    r = c.r
    folder, (target, own), spare, there = base(c, 2)
    setup = c.session("setup2")
    tpaths = own_paths(folder, target)
    kind = r.choice(["query", "query", "create", "delete", "find"])
    stmts = None
    if kind != "create":
        setup.call("create", target, folder)
        for _ in range(r.choice([0, 1, 3])):
            setup.call("query", tpaths, gen.render(work.make_query(r)))
    setup.call("create", own, folder)
    setup.close()
    before = parse(Snap(tpaths), c, "before") if kind != "create" else None
    h = Held(c, "held")
    prefix = os.path.join(folder, target) + ("/" if kind in ("query", "find") else "")
    if kind == "query":
        stmts = work.make_query(r)
        args = ("query", tpaths, gen.render(stmts, gen.layout(r)))
    elif kind == "find":
        args = ("query", tpaths, gen.render(work.find_query(r)))
    else:
        args = (kind, target, folder)
    worker = c.session("worker")
    worker.call("sequence", [], folder)
    mine = os.path.join(c.dir, "alone")
    steps, got, n = [], [], 0
    state = {"own": True}
    extra = spare[0]
    h.ses.start("op_paused", prefix, *h.inner, *args)
    todo = iter(history(r, own, own_paths(folder, own), 40, others=[extra]))
    next(todo)
    while True:
        what = h.next()
        if what is None:
            break
        n += 1
        when = f"while a {kind} on another database was at call {n} ({what})"
        if r.random() < 0.7:
            for _ in range(r.choice([1, 1, 2])):
                s = next(todo, None)
                if s is None:
                    break
                opened = [("open", x, own_paths(folder, x)) for x in left([("open", own, 0)] + steps, own)]
                res = worker.call("sequence", opened + [s], folder, wall=60)[-1]
                steps.append(s)
                got.append(res)
                if s[0] == "list":
                    listed(c, [s], [res], [*there, *left([("open", own, 0)] + steps, own), *([target] if kind in ("query", "find") else [])], [*there, own, extra, target], when)
                c.event("steps while held")
                c.judged((c.index, n, str(s)), sample=f"{when}: {str(s)[:200]}")
    res = h.end()
    h.close()
    if not n:
        raise Inconclusive("nothing was held")
    if not res.ok:
        c.fail(f"a {kind} failed while another database was used: {res.exc}: {res.msg}")
    exist = list(there) + left([("open", own, 0)] + steps, own)
    if kind == "delete":
        if os.path.lexists(os.path.join(folder, target)):
            c.fail("a database is still there after it was deleted while another one was used")
    else:
        exist.append(target)
        if kind == "create":
            check_empty(tpaths, "created while another database was used")
        else:
            after = parse(Snap(tpaths), c, "after")
            check_append_only(before, after, c, "a query while another database was used")
            check_delta(before, after, stmts or [], c, "a query while another database was used")
            check_indexes(after, c, "a query while another database was used")
            check_numbers(after, c, "a query while another database was used")
    remains(c, folder, exist, f"after a {kind} during which another database was used")
    at_rest(c, folder, there, "after work on two others")
    full = [("create", own)] + steps
    want = c.session("alone").call("sequence", full, mine)
    alike(c, steps, got, want[1:], "while another database was used,")
    for x in left(full, own):
        d = diff(view(own_paths(folder, x), c, "beside a held one"), view(own_paths(mine, x), c, "alone"))
        if d:
            c.fail(f"while a {kind} on another database was held, queries had another effect than alone: {d}", steps=steps)
    c.event("held " + kind)
    c.peak("max_calls", n)


def watched(c):
    """One process lists the databases again and again, others create and delete theirs."""
    r = c.r
    k = r.choice([1, 2, 3])
    folder, mine, spare, there = base(c, k)
    ses = [c.session(f"p{i}") for i in range(k)]
    jobs = [[s for _ in range(25) for s in (("create", nm), ("delete", nm))] for nm in mine]
    lister = c.session("lister")
    lister.call("sequence", [("list",)], folder)
    for s, j in zip(ses, jobs):
        s.start("sequence", j, folder)
    looks = [("list",)] * 200
    lister.start("sequence", looks, folder)
    got = [s.finish() for s in ses]
    listed(c, looks, lister.finish(), there, {*there, *mine}, f"while {k} other processes created and deleted databases,")
    for nm, job, res in zip(mine, jobs, got):
        for s, a in zip(job, res):
            if not a[1]:
                c.fail(f"a {s[0]} failed while databases were listed: {a[2]}: {a[3]}")
        c.judged((c.index, nm), sample=f"{nm!r} created and deleted 25 times while listed 200 times")
    at_rest(c, folder, there, "while databases were listed")
    remains(c, folder, there, "after databases were listed meanwhile")
    c.event("watched runs")


def c41(c):
    if c.index % 4 == 1:
        held(c)
    elif c.index % 8 == 7:
        watched(c)
    else:
        together(c)


# ------------------------------------------------------------------------------- C42
def rewritten(c, db):
    """Other records of the stored form: relationships in another order, other properties."""
    r = c.r
    with open(db.paths[0]) as h:
        d = json.load(h)
    for rec in d.values():
        if rec["relations"]:
            r.shuffle(rec["relations"])
        for part in (rec, *(rec["relations"] or [])):
            if r.random() < 0.6:
                part["properties"] = {k: v.value for k, v in gen.props(r)} or None
                c.event("rewritten properties")
    with open(db.paths[0], "w") as h:
        json.dump(d, h)


def c42(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    for _ in range(r.choice([2, 4, 7])):
        s = r.choice([work.make_query, work.make_query, work.norel_query, work.mixed_query])(r)
        res = ses.call("query", db.paths, gen.render(s, gen.layout(r)))
        if not res.ok:
            raise Inconclusive("not stored")
    if c.index % 2:
        rewritten(c, db)
    elif r.random() < 0.3:
        work.reformat(r, db)
    if r.random() < 0.4:
        ses = c.session("later")
    snap = db.parsed("stored")
    raw = db.snap().raw
    got = ses.call("read_back", db.paths[0])
    if not got.ok:
        c.fail(f"a stored record cannot be read back as a node: {got.exc}: {got.msg}", records=list(snap.db.items())[:3])
    if set(got.value) != set(snap.db):
        c.fail("loading does not give every stored record", missing=sorted(set(snap.db) - set(got.value)))
    for k, v in got.value.items():
        rec, n = snap.db[k], snap.nodes[int(k)]
        if v["wn"] != n.wn or v["label"] != n.label or typed(v["props"]) != typed(rec["properties"]):
            c.fail("a stored node reads back as another one", record=rec, node={x: v[x] for x in ("wn", "label", "props")})
        rels = [[x.wn, x.name or None, x.frm, x.to] for x in n.rels]
        v["rels"] = [[x[0], x[1] or None, *x[2:]] for x in v["rels"]]  # no name may be None or an empty one
        if [x[:4] for x in v["rels"]] != rels or [typed(x[4]) for x in v["rels"]] != [typed(d["properties"]) for d in rec["relations"] or []]:
            c.fail("the relationships of a stored node read back as others", record=rec, relationships=v["rels"])
        if [x or None for x in v["names"] or []] != [x[1] for x in rels]:
            c.fail(f"a node names its relationships as {v['names']}", record=rec)
        for how in ("dict", "again"):
            if typed(v[how]) != typed(rec):
                c.fail(f"a stored node read and written {'once' if how == 'dict' else 'twice'} is another record", record=rec, written=v[how])
        if list(v["export"]) != [k] or typed(v["export"][k]) != typed(rec):
            c.fail("a stored node is exported as another record", record=rec, exported=v["export"])
        c.event("relationships", len(rels))
        c.event("nodes with properties" if rec["properties"] else "nodes without properties")
        c.judged((c.index, k, repr(typed(rec))), sample=f"{rec}"[:400])
    if db.snap().raw != raw:
        c.fail("reading records changed a file")
    # all of them put into another database
    other = DB(c, ses, name="other", folder=os.path.join(c.dir, "other"))
    res = ses.call("copy_over", db.paths[0], other.paths[0])
    if not res.ok:
        c.fail(f"exported records cannot be added to another database: {res.exc}: {res.msg}")
    with open(other.paths[0]) as h:
        if typed(json.load(h)) != typed(snap.db):
            c.fail("exported records are stored as others")
    c.event("databases copied")


SPECS = [
    Spec("C41", c41, 160, 2500, "two to four processes or threads with databases of their own in one folder, creating, querying, listing and deleting at the same time, and queries, creations and deletions held at every file-system call while another database is used; everything also alone; distinct (steps)",
         floor={"thread runs": 60, "process runs": 15, "watched runs": 15, "steps while held": 400, "steps beside threads": 2500, "steps beside processes": 600, "accepted query": 2500, "refused query": 700, "accepted delete": 400, "lists meanwhile": 3000}),
    Spec("C42", c42, 150, 3000, "every record stored by random histories of queries, loaded, built into a node, and written out again; distinct records",
         floor={"relationships": 800, "nodes with properties": 500, "rewritten properties": 600, "nodes without properties": 200, "databases copied": 140}),
]

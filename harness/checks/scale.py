"""C39, C40: databases of any size and sessions of any length."""
import json
import os
import shutil

from .. import gen, work
from ..core import Spec
from ..model import check_append_only, check_delta, check_indexes, check_integrity, check_numbers, check_unchanged, count_elements, parse, typed
from ..work import DB
from .sessions import diff, masked, outcome, shell_lines, view

# ------------------------------------------------------------------------------- C39
LIMIT = 10.0
SIZES = [1000, 1024, 2048, 4096, 5000, 8192, 10000, 12000, 16384, 20000, 30000, 32768]
STARTS = [0, 0, 0, 1, 90000, 2**31 - 9000, 2**32 - 3000, 10**12, 2**53 - 5000, 2**63 - 4000, 10**30]


def grown(r, nodes, start, distinct=False):
    """Content of the three files of a database that has grown to that many nodes, as queries would have left it."""
    nlabels = r.choice([3, nodes // 50, nodes // 3, nodes, None])  # None: every node its own
    nnames = r.choice([2, nodes // 60, nodes // 3])
    if distinct:
        nlabels, nnames = None, nodes
    share = r.choice([0.0, 0.3, 0.3, 0.9])
    gaps = r.random() < 0.4
    when = 1.6e9
    wn = start
    db, noderels, labels, names = {}, {}, [], []
    seen = set()

    def props():
        x = r.random()
        if x < 0.6:
            return None
        return {"k": r.choice([1, 2.5, "a b", True, None, [1, "x"], "w" * 40])} if x < 0.98 else {"long": "x" * 2000, "n": 10**25}

    while len(db) < nodes:
        size = r.choice([1, 2, 2, 3])
        own = list(range(wn, wn + size))
        wn += size
        when += 0.01
        recs = []
        for w in own:
            lb = f"L{w if nlabels is None else r.randrange(nlabels)}"
            if lb not in seen:
                seen.add(lb)
                labels.append(lb)
            recs.append({"node_metadata": {"wn": w, "created_at": when, "updated_at": None}, "node_label": lb, "properties": props(), "relations": None})
        for i in range(size - 1):
            a, b = (i, i + 1) if r.random() < 0.6 else (i + 1, i)
            nm = None if r.random() < 0.15 else f"R{r.randrange(nnames)}"
            if nm and nm not in seen:
                seen.add(nm)
                names.append(nm)
            rel = {"relationship_metadata": {"wn": wn, "created_at": when, "updated_at": None}, "relationship_name": nm, "wn_from_node": own[a], "wn_to_node": own[b], "properties": props()}
            recs[a]["relations"] = (recs[a]["relations"] or []) + [rel]
            noderels.setdefault(str(own[a]), []).append(wn)
            wn += 1
        for w, d in zip(own, recs):
            db[str(w)] = d
        if gaps and r.random() < share:
            wn += r.choice([1, 1, 3, 50])
    return db, {"node_relationships": noderels, "node_labels": labels, "relationship_names": names}, wn


def c39(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses)
    n = r.choice(SIZES) if c.tier == "quick" else r.choice(SIZES + [50000, 65536, 80000])
    start = r.choice(STARTS)
    distinct = c.index % 6 == 2  # as many labels and nearly as many names as can be
    if distinct:
        n = r.choice([30000, 32768])
    if c.index % 8 == 3:  # grown by queries
        n = min(n, 3000)
        with open(db.paths[2], "w") as h:
            h.write(str(start))
        work.bulk(c, ses, db, n, distinct=r.random() < 0.5)
        c.event("grown by queries")
    else:
        content, indexes, wn = grown(r, n, start, distinct)
        indent = r.choice([None, None, 4])
        for p, t in zip(db.paths, (json.dumps(content, indent=indent), json.dumps(indexes, indent=indent), str(wn))):
            with open(p, "w") as h:
                h.write(t)
        del content, indexes
    before = db.parsed("start")
    what = f"on a database of {len(before.nodes)} nodes and {len(before.labels)} labels from number {start}"

    def run(text):
        res = ses.call("query", db.paths, text)
        if res.hang or res.cpu > LIMIT:
            c.fail(f"a query {what} took {res.cpu:.0f} s of processor time", query=text[:2000])
        c.peak("max_ms", int(res.cpu * 1000))
        c.event("queries")
        return res

    def find(pat, there, why):
        res = run(gen.render([gen.Stmt("FIND", [pat])], gen.layout(r)))
        if not res.ok:
            c.fail(f"a well-formed FIND {what} failed: {res.brief()}", query=pat)
        none = "no results" in res.out.lower()
        if none == there:
            c.fail(f"FIND of {why} {what} says {'No results' if none else 'nothing, as if there were some'}", label=[x.label for x in pat.nodes], name=[x.name for x in pat.rels])
        c.event("found" if there else "not found")
        c.judged((c.index, why, tuple(x.label for x in pat.nodes), tuple(x.name for x in pat.rels)))

    def finds(snap):
        labels, names = snap.labels, [x for x in snap.names if x == x.upper()]
        byage = [x.label for x in (snap.nodes[w] for w in sorted(snap.nodes))]
        for why, lb in (("the first label", byage[0]), ("the newest label", byage[-1]), ("some label", r.choice(byage)), ("the last label of the index", labels[-1])):
            find(gen.Pattern([gen.Node("", lb, [])], []), True, why)
        if names:
            find(gen.Pattern([gen.Node("", r.choice(labels), []), gen.Node("", r.choice(labels), [])], [gen.Rel("", r.choice(names), True, [])]), True, "some name")
            find(gen.Pattern([gen.Node("", r.choice(labels), []), gen.Node("", r.choice(labels), [])], [gen.Rel("", r.choice(names) + "X9", False, [])]), False, "an absent name")
        lb = r.choice(labels)
        for no in (lb + "x9", lb[:-1] + "_q"):
            if no not in labels:
                find(gen.Pattern([gen.Node("", r.choice(labels), []), gen.Node("", no, [])], [gen.Rel("", "", True, [])]), False, "an absent label")

    finds(before)
    for k in range(2):
        x = r.random()
        if x < 0.2:
            stmts = work.norel_query(r)
        elif x < 0.4 and before.names:  # nothing but labels and names that are there
            names = [y for y in before.names if y == y.upper()]
            pats = [gen.pattern(r, label_fn=lambda q: q.choice(before.labels), name_fn=lambda q: q.choice(names)) for _ in range(3)]
            stmts = [gen.Stmt("MAKE", pats)]
        elif x < 0.55:
            stmts = [gen.Stmt("MAKE", [gen.pattern(r, size=3, props_fn=lambda q: gen.props(q, q.choice([0, 0, 1]))) for _ in range(150)])]
        else:
            stmts = work.make_query(r)
        text = gen.render(stmts, gen.layout(r))
        res = run(text)
        if not res.ok:
            c.fail(f"a well-formed MAKE {what} was rejected: {res.brief()}", query=text[:2000])
        after = db.parsed(f"after a MAKE {what}")
        check_append_only(before, after, c, f"after a MAKE {what}")
        check_delta(before, after, stmts, c, f"after a MAKE {what}", query=text[:2000])
        check_indexes(after, c, f"after a MAKE {what}")
        check_numbers(after, c, f"after a MAKE {what}")
        check_integrity(after, c, f"after a MAKE {what}")
        want = sum(count_elements(stmts))
        if after.wn - before.wn != want:
            c.fail(f"the next number grew by {after.wn - before.wn} for {want} elements {what}", query=text[:2000])
        c.event("makes")
        c.judged((c.index, text))
        if k == 0 or r.random() < 0.5:
            _, bad = work.bad_query(r, gen.layout(r))
            pre = db.snap()
            res = run(bad)
            if res.ok:
                c.fail(f"an ill-formed query was accepted {what}", query=bad)
            if db.snap().raw != pre.raw:
                check_unchanged(pre, db.snap(), c, f"after a rejected query {what}", query=bad)
            c.event("rejected")
        before = after
    finds(after)
    # the storage operations on it
    got = ses.call("load_db", db.paths[0])
    if not got.ok or typed(got.value) != typed(after.db):
        c.fail(f"loading the database {what} gave something else than the file holds: {got.brief() if not got.ok else ''}")
    for which, want in (("labels", set(after.labels)), ("names", set(after.names))):
        got = ses.call("index_load", which, db.paths[1])
        if not got.ok or set(got.value[1]) != want:
            c.fail(f"loading the {which} index {what} gave something else than the file holds: {got.brief() if not got.ok else ''}")
    pre = db.snap()
    old = r.choice(list(after.db))
    batch = {str(after.wn + 7): {"k": 1}, old: {"k": 2}, str(after.wn + 8): {"k": 3}}
    res = ses.call("add_db", db.paths[0], batch)
    if res.ok or db.snap().raw != pre.raw:
        c.fail(f"adding records {what}, one of them under number {old}, which is in use, {'was accepted' if res.ok else 'was refused and yet changed the file'}")
    c.event("duplicates refused")
    c.event("nodes", len(after.nodes))
    c.peak("max_nodes", len(after.nodes))
    c.peak("max_database_bytes", len(after.raw[0]))


# ------------------------------------------------------------------------------- C40
KEPT = {"small": 8, "large": 2000}  # objects and bytes a query may leave behind on average


def small_step(r):
    return work.step(r, {"make": 4, "norel": 2, "mixed": 1, "find": 5, "bad": 5, "damaged": 2})[1]


def c40(c):
    if c.index % 4 == 3:
        return long_shell(c)
    r = c.r
    ses = c.session("long")
    total = r.choice([1100, 1300, 2100]) if c.tier == "quick" else r.choice([2100, 4200, 9000])
    per = r.choice([15, 40, 80])
    done = 0
    marks = []
    folder = os.path.join(c.dir, "dbms")
    twins = os.path.join(c.dir, "twins")
    again = r.random() < 0.5  # one name, deleted and created again and again
    old = []
    repeated = [small_step(r) for _ in range(30)]
    block = 0
    while done < total:
        block += 1
        name = "again" if again else f"db{block % 7}"
        where = folder if again else os.path.join(folder, str(block))
        res = ses.call("create", name, where)
        if not res.ok:
            c.fail(f"after {done} queries of a session a database could not be created: {res.brief()}")
        paths = res.value
        texts = [r.choice(repeated) if r.random() < 0.3 else small_step(r) for _ in range(per)]
        got = ses.call("queries", paths, texts)
        fresh = c.session(f"fresh{block}")
        twin = fresh.call("create", "twin", os.path.join(twins, str(block))).value
        want = fresh.call("queries", twin, texts)
        fresh.close()
        for i, (a, b) in enumerate(zip(got, want)):
            if outcome(a) != outcome(b) or a.exc != b.exc:
                c.fail(f"query {done + i} of a session is {outcome(a)}, at the start of a session it is {outcome(b)}", query=texts[i], messages=(a.msg, b.msg))
            c.event("accepted" if a.ok else "rejected")
        d = diff(view(paths, c, f"after {done + per} queries of a session"), view(twin, c, "in a fresh session"))
        if d:
            c.fail(f"queries {done} to {done + per} of a session had another effect than in a fresh one: {d}", texts=texts)
        c.judged((c.index, block, tuple(texts)), sample=f"queries {done} to {done + per}: {texts[:2]}")
        done += per
        c.event("queries", per)
        if block > 2 and old and r.random() < 0.3:  # one that was used long before
            p, v = r.choice(old)
            if diff(view(p, c, "a database used before"), v):
                c.fail("a database used earlier in the session changed without a query on it")
            c.event("databases looked at again")
        if again:
            res = ses.call("delete", name, where)
            if not res.ok:
                c.fail(f"after {done} queries of a session a database could not be deleted: {res.brief()}")
        elif len(old) < 8:
            old.append((paths, view(paths, c, "left")))
        shutil.rmtree(os.path.join(twins, str(block)))
        marks.append((done, ses.call("resident")))
    first = next(i for i, m in enumerate(marks) if m[0] >= total * 0.4)
    n = marks[-1][0] - marks[first][0]
    for what, least in (("descriptors", 0), ("threads", 0)):
        a, b = marks[first][1][what], marks[-1][1][what]
        if b > a + least:
            c.fail(f"{b - a} {what} more are held after {n} queries")
    for what in ("small", "large"):
        a, b = (min(m[1][what] for m in marks[i : i + 3]) for i in (first, len(marks) - 3))
        c.peak(f"max_{what}_left_behind_per_1000", max(0, int(1000 * (b - a) / n)))
        if b - a > KEPT[what] * n:
            c.fail(f"the memory in use grew by {b - a} {what} blocks or bytes over {n} queries", marks=[(k, m[what]) for k, m in marks])
    c.peak("max_session_length", done)
    c.event("long sessions")


def long_shell(c):
    """The shell over as many lines, against running them directly."""
    r = c.r
    folder = os.path.join(c.env.root, "dbms")
    shutil.rmtree(folder, ignore_errors=True)
    try:
        ses, direct = c.session("shell"), c.session("direct")
        twin = DB(c, direct, name="mine", folder=os.path.join(c.dir, "twin"))
        n = r.choice([1030, 1200, 2100]) if c.tier == "quick" else r.choice([2100, 5000])
        pool = [x for x in shell_lines(r, 120) if "\r" not in x and len(x) < 1200 and len(direct.call("query", twin.paths, x).writes) == 0]
        lines = [r.choice(pool) for _ in range(n)]
        for i in range(0, n, r.choice([25, 60])):  # now and then something that is stored
            lines[i] = gen.render([gen.Stmt("MAKE", [gen.pattern(r)])])
        lines[-1] = gen.render([gen.Stmt("MAKE", [gen.pattern(r)])])
        twin = DB(c, direct, name="mine", folder=os.path.join(c.dir, "twin2"))
        res = ses.call("shell_long", folder, ["n", "mine"] + lines + ["q", "MAKE (:After);"])
        if not res.ok or res.value != n + 3:
            c.fail(f"a shell session was to end at its line {n + 3}, the q; it ended at {res.value}: {res.brief()}", lines=lines[-3:])
        want = direct.call("queries", twin.paths, lines)
        made = sum(w.ok for w in want)
        none = sum("no results" in w.out.lower() for w in want)
        shown = res.out.lower().count("\nno results\n")
        if shown != none and not any("no results" in x.lower() for x in lines):
            c.fail(f"'No results' came {shown} times in {n} lines of a shell, {none} times when run directly")
        d = diff(view([os.path.join(folder, "mine", os.path.basename(p)) for p in twin.paths], c, f"after {n} lines of a shell"), view(twin.paths, c, "run directly"))
        if d:
            c.fail(f"{n} lines of a shell had another effect than run directly: {d}")
        c.event("shell lines", n)
        c.event("accepted", made)
        c.event("rejected", n - made)
        c.event("long shells")
        c.peak("max_session_length", n)
        c.judged((c.index, tuple(lines[:20])), sample=f"{n} lines of a shell")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


SPECS = [
    Spec("C39", c39, 48, 400, "databases of 1,000 to 32,768 (thorough: 80,000) nodes, few or many labels and names, numbers from 0 to 10**30, mostly written as queries leave them, some grown by queries: FINDs of old, new and absent labels and names, MAKEs, ill-formed queries and storage operations, judged as on small ones, with their processor time; distinct (database, query)",
         floor={"makes": 60, "found": 250, "not found": 100, "rejected": 30, "nodes": 250000, "grown by queries": 3, "duplicates refused": 30}),
    Spec("C40", c40, 24, 160, "sessions of 1,100 to 2,100 (thorough: 9,000) queries in blocks on databases created and deleted in between, every block also in a fresh session on a twin; shell sessions of as many lines against direct execution; memory, open files and threads of the process; distinct blocks",
         floor={"queries": 15000, "long shells": 4, "accepted": 5000, "rejected": 4000}),
]

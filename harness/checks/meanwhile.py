"""C34: what other processes see while a query runs; C35: queries broken off by an exception."""
import os
import time
from multiprocessing.connection import wait

from .. import gen, work
from ..core import Died, Inconclusive, Spec, Violation
from ..model import BadFile, Snap, check_append_only, check_delta, check_indexes, check_integrity, check_numbers, delta, index_expected, labels_names, parse, parse_json, typed
from ..work import DB
from .faults import Copy, examine, follow_up, prepare, superset  # noqa: F401 (prepare: see main.py)


def empty(res):
    return "no results" in res.out.lower()


class Held:
    """A session whose queries are held at every file-system call."""

    def __init__(self, c, tag):
        self.from_r, to_w = os.pipe()
        from_r2, self.to_w = os.pipe()
        self.inner = to_w, from_r2
        self.ses = c.session(tag)
        os.close(to_w)
        os.close(from_r2)
        self.calls = 0

    def begin(self, paths, text):
        self.ses.start("query_paused", paths, text, *self.inner)

    def next(self):
        """Runs on to the next call; its name, or None when the query is over."""
        if self.calls:
            os.write(self.to_w, b"c")
        ready = wait([self.ses.conn, self.from_r], 120)
        if not ready:
            raise Inconclusive("a held query does not go on")
        if self.from_r in ready:
            rec = os.read(self.from_r, 16)
            if rec:
                self.calls += 1
                return rec.rstrip(b"\0").decode()
        return None

    def end(self):
        self.calls = 0
        return self.ses.finish()

    def close(self):
        self.ses.close()
        os.close(self.from_r)
        os.close(self.to_w)


class Known:
    """What a reader may count on: labels and names stored so far, and those under way."""

    def __init__(self):
        self.labels, self.names = set(), set()
        self.patterns = []
        self.coming_l, self.coming_n = set(), set()

    def stored(self, stmts):
        a, b = labels_names(stmts)
        self.labels |= a
        self.names |= b
        self.patterns += [p for s in stmts if s.clause == "MAKE" for p in s.patterns]

    def coming(self, stmts):
        a, b = labels_names(stmts)
        self.coming_l |= a
        self.coming_n |= b

    def expect(self, find):
        """found / none / either, for a FIND that begins now."""
        a, b = labels_names(find, "FIND")
        if a <= self.labels and b <= self.names:
            return "found"
        if a <= self.labels | self.coming_l and b <= self.names | self.coming_n:
            return "either"
        return "none"

    def find(self, r, coming=()):
        x = r.random()
        if x < 0.55 and self.patterns:
            p = r.choice(self.patterns)
        elif x < 0.8 and coming:
            p = r.choice(coming)
        else:
            return work.find_query(r)
        s = [gen.Stmt("FIND", [p])]
        if r.random() < 0.3 and work.handles_of(p):
            s.append(gen.Stmt("REPORT", items=work.report_items(r, work.handles_of(p))))
        return s


def judge(c, res, want, when, text):
    if not res.ok:
        c.fail(f"{when}: a FIND failed: {res.exc}: {res.msg}", query=text)
    got = "none" if empty(res) else "found"
    if want != "either" and got != want:
        c.fail(f"{when}: a FIND of something that {'was stored before' if want == 'found' else 'was never stored'} answered {res.out!r:.80}", query=text)
    c.event(f"FINDs meanwhile: {want}" + (", " + got if want == "either" else ""))


def makes_of(stmts):
    return [p for s in stmts if s.clause == "MAKE" for p in s.patterns]


def writer_query(r):
    x = r.random()
    if x < 0.55:
        return work.make_query(r)
    if x < 0.7:
        return work.norel_query(r)
    if x < 0.9:
        return work.mixed_query(r)
    return [gen.Stmt("MAKE", [gen.pattern(r, size=3) for _ in range(r.choice([6, 20, 60]))])]


def start(c):
    r = c.r
    ses = c.session("setup")
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    known = Known()
    if c.index % 10 == 3:
        for s in work.bulk(c, ses, db, r.choice([60, 150])):
            known.stored([s])
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        s = work.make_query(r)
        if not ses.call("query", db.paths, gen.render(s)).ok:
            raise Inconclusive("the history could not be stored")
        known.stored(s)
    ses.close()
    return db, known


def whole(c, before, paths, stmts, when):
    snap = parse(Snap(paths), c, when)
    check_append_only(before, snap, c, when)
    check_numbers(snap, c, when)
    check_integrity(snap, c, when)
    superset(snap, when)
    if snap.wn < before.wn:
        c.fail(f"{when}: the next number went from {before.wn} back to {snap.wn}")
    there = bool(delta(before, snap))
    if there:
        check_delta(before, snap, stmts, c, when + ": part of the query's nodes are there")
    return snap, there


def load_all(c, ses, paths, before, when):
    """The loaders of another session give what the files hold."""
    snap = Snap(paths).parse()
    res = ses.call("load_db", paths[0])
    if not res.ok or typed(res.value) != typed(snap.db):
        c.fail(f"{when}: loading the database gave {res.brief()}")
    for which, have in (("labels", before.labels), ("names", before.names)):
        res = ses.call("index_load", which, paths[1])
        if not res.ok or not set(have) <= set(res.value[1]):
            c.fail(f"{when}: loading the {which} gave {res.brief()}", before=have)


def held_writer(c, db, known, readers):
    r = c.r
    before = db.parsed("before the held query")
    stmts = writer_query(r)
    text = gen.render(stmts, gen.layout(r))
    pats = makes_of(stmts)
    w = Held(c, "writer")
    if r.random() < 0.4:
        w.ses.call("query", db.paths, gen.render(work.find_query(r)))
    known.coming(stmts)
    dense = r.random() < 0.5
    last, was_there, n = before, False, 0
    w.begin(db.paths, text)
    while True:
        what = w.next()
        if what is None:
            break
        n += 1
        when = f"while a query was at call {n} ({what})"
        try:
            snap, there = whole(c, before, db.paths, stmts, when)
            check_append_only(last, snap, c, when)
            if snap.wn < last.wn:
                c.fail(f"{when}: the next number went back from {last.wn} to {snap.wn}")
            if not (set(last.labels) <= set(snap.labels) and set(last.names) <= set(snap.names)):
                c.fail(f"{when}: an index lost entries")
            c.event("looks while held")
            c.event("all of the query there" if there else "none of the query there")
            if dense or r.random() < 0.25:
                s = r.choice(readers)
                f = known.find(r, pats)
                t = gen.render(f, gen.layout(r))
                want = known.expect(f)
                judge(c, s.call("query", db.paths, t, wall=25), want, when, t)
                if there:
                    f = [gen.Stmt("FIND", [r.choice(pats)])]
                    t = gen.render(f)
                    judge(c, s.call("query", db.paths, t, wall=25), "found", when + ", with its nodes in the database", t)
                if r.random() < 0.3:
                    load_all(c, s, db.paths, before, when)
            if r.random() < 0.03:
                s = c.session(f"new{n}")
                f = known.find(r, pats)
                t = gen.render(f)
                judge(c, s.call("query", db.paths, t, wall=25), known.expect(f), when + ", in a new session", t)
                s.close()
        except Violation as v:
            v.detail.setdefault("held_query", text)
            raise
        c.judged((c.index, "writer", n, snap.wn, len(snap.db)), sample=f"{when}: {text[:300]}")
        last = snap
    res = w.end()
    if not res.ok:
        c.fail(f"a query failed while others were reading: {res.exc}: {res.msg}", query=text)
    if not n:
        raise Inconclusive("no file-system call seen below the database folder")
    after, there = whole(c, before, db.paths, stmts, "after the held query")
    if pats and not there:
        c.fail("a query was acknowledged while others were reading, and nothing is stored", query=text)
    check_indexes(after, c, "after the held query")
    known.stored(stmts)
    for s in readers:
        f = known.find(r, pats)
        t = gen.render(f)
        judge(c, s.call("query", db.paths, t, wall=25), known.expect(f), "after the held query", t)
    w.close()
    c.event("held writers")
    c.peak("max_calls_in_a_query", n)


def held_reader(c, db, known, writer):
    """A FIND held at each of its calls, while MAKEs are carried out."""
    r = c.r
    h = Held(c, "reader")
    if r.random() < 0.4:
        h.ses.call("query", db.paths, gen.render(work.find_query(r)))
    plans = [writer_query(r) for _ in range(r.choice([1, 2, 4]))]
    before = db.parsed("before the held FIND")
    f = known.find(r, [p for s in plans for p in makes_of(s)])
    text = gen.render(f, gen.layout(r))
    have = known.expect(f)
    h.begin(db.paths, text)
    n = done = 0
    while True:
        what = h.next()
        if what is None:
            break
        n += 1
        if plans and r.random() < 0.3:
            s = plans.pop()
            known.coming(s)
            t = gen.render(s)
            res = writer.call("query", db.paths, t, wall=25)
            if not res.ok:
                c.fail(f"a MAKE failed while a FIND was at call {n} ({what}): {res.exc}: {res.msg}", query=t, held=text)
            after = db.parsed(f"after a MAKE while a FIND was at call {n}")
            check_append_only(before, after, c, "a MAKE while a FIND was held")
            check_delta(before, after, s, c, "a MAKE while a FIND was held", query=t, held=text)
            check_indexes(after, c, "a MAKE while a FIND was held")
            known.stored(s)
            before = after
            done += 1
            c.event("MAKEs while a FIND is held")
    res = h.end()
    end = known.expect(f)
    want = "found" if have == "found" else "none" if end == "none" else "either"
    judge(c, res, want, f"held at {n} calls with {done} MAKEs in between", text)
    now = db.parsed("after the held FIND")
    if typed(now.db) != typed(before.db):
        c.fail("a FIND that was held undid a MAKE", query=text)
    c.event("held FINDs")
    c.judged((c.index, "reader", text, n, done), nontrivial=bool(n), sample=f"{n} calls, {done} MAKEs: {text[:300]}")
    h.close()


def free(c, db, known, readers):
    """All run freely: one writes, others read, and the files are looked at all the time."""
    r = c.r
    before = db.parsed("before the free run")
    plans = [work.make_query(r) for _ in range(r.choice([6, 12, 20]))]
    w = c.session("free writer")
    for s in plans:
        known.coming(s)
    jobs = []
    for s in readers:
        fs = [known.find(r, [p for q in plans for p in makes_of(q)]) for _ in range(25)]
        jobs.append((s, [(gen.render(f), f, known.expect(f)) for f in fs]))
    for s, todo in jobs:
        s.start("queries", db.paths, [t for t, _, _ in todo])
    w.start("queries", db.paths, [gen.render(s) for s in plans])
    looks, states = 0, set()
    last = before.db
    end = time.time() + 60
    while not w.conn.poll(0) and time.time() < end:
        when = "while MAKEs and FINDs run"
        s = Snap(db.paths)  # database first, then indexes, then the number: each is written after the ones behind it
        try:
            s.parse()
        except BadFile as e:
            c.fail(f"{when}: {e}")
        for k, v in last.items():
            if k not in s.db or typed(s.db[k]) != typed(v):
                c.fail(f"{when}: record {k} is gone or changed", before=v, now=s.db.get(k))
        check_integrity(s, c, when)
        check_numbers(s, c, when)
        superset(s, when)
        last = s.db
        looks += 1
        states.add((len(s.db), len(s.labels), s.wn))
        time.sleep(r.choice([0, 0, 0.0005]))
    for q, res in zip(plans, w.finish()):
        if not res.ok:
            c.fail(f"a MAKE failed while others were reading: {res.exc}: {res.msg}", query=gen.render(q))
    for s, todo in jobs:
        for (t, f, want), res in zip(todo, s.finish()):
            judge(c, res, want, "while MAKEs run", t)
            c.judged((c.index, "free", t))
    w.close()
    after = db.parsed("after the free run")
    check_append_only(before, after, c, "after the free run")
    check_delta(before, after, [s for q in plans for s in q], c, "after the free run")
    check_indexes(after, c, "after the free run")
    for q in plans:
        known.stored(q)
    c.event("free looks", looks)
    c.event("states seen by free looks", len(states))
    c.event("free runs")


def c34(c):
    r = c.r
    db, known = start(c)
    readers = [c.session("r0"), c.session("r1")]
    for s in readers:
        if r.random() < 0.7:
            t = gen.render(known.find(r))
            s.call("query", db.paths, t)
    for _ in range(r.choice([1, 2])):
        held_writer(c, db, known, readers)
    for _ in range(r.choice([1, 2, 3])):
        held_reader(c, db, known, c.session("w") if r.random() < 0.5 else readers[0])
    if c.index % 3 == 0:
        free(c, db, known, readers)


# ------------------------------------------------------------------------------- C35
def spots(r, res, n):
    """Steps at which to break the query off: at any line, anywhere, and around the writes."""
    total, out = res.steps, []
    for _ in range(n):
        x = r.random()
        if x < 0.4:
            k = r.choice(r.choice(r.choice(res.places)))
        elif x < 0.5 or not res.marks:
            k = r.randint(1, total)
        elif x < 0.7:
            k = r.choice(res.marks) + r.randint(-12, 25)
        elif x < 0.85:
            k = r.randint(res.marks[0], total)
        else:
            k = r.randint(res.marks[-1], total)
        out.append(min(max(k, 1), total))
    return out


def c35(c):
    r = c.r
    db, known = start(c)
    before = db.parsed("start")
    x = r.random()
    stmts = work.make_query(r) if x < 0.6 else work.norel_query(r) if x < 0.75 else work.mixed_query(r) if x < 0.92 else work.find_query(r)
    text = gen.render(stmts, gen.layout(r))
    makes = bool(makes_of(stmts))
    dry = Copy(c, db, "dry")
    s = c.session("dry")
    res = s.call("query_broken", dry.paths, text, 0, "", True)
    if not res.ok:
        raise Inconclusive(f"the query fails when it is not broken off: {res.brief()}")
    s.close()
    dry.drop()
    c.peak("max_steps_of_a_query", res.steps)
    for t, k in enumerate(spots(r, res, 16)):
        what = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"])
        copy = Copy(c, db, f"x{t}")
        s = c.session(f"broken{t}")
        base = before
        used = set(before.all_wns())
        if r.random() < 0.35:
            q0 = work.make_query(r)
            if not s.call("query", copy.paths, gen.render(q0)).ok:
                raise Inconclusive("the first query failed")
            base = parse(copy.snap(), c, "after a first query")
            used |= set(base.all_wns())
        for round_ in range(r.choice([1, 1, 2])):
            got = s.call("query_broken", copy.paths, text, k if not round_ else r.randint(1, res.steps), what)
            when = f"after {what} at {got.fired or 'no step'}"
            try:
                after, there = examine(c, base, copy, stmts, when)
                if got.ok:
                    if makes and not there:
                        c.fail(f"{when}: success was reported and nothing stored")
                    c.event("success reported")
                elif got.fired:
                    c.event(f"broken off by {what}, " + ("all there" if there else "none there"))
                else:
                    c.fail(f"the query fails in some runs only: {got.brief()}")
                used |= set(after.all_wns())
                base = after
            except Violation as v:
                v.detail.setdefault("query", text)
                v.detail["outcome"] = got.brief()
                raise
            c.judged((c.index, t, round_, got.fired), nontrivial=bool(got.fired), sample=f"{when}: {text[:200]}")
        try:
            if r.random() < 0.25:
                s.close()
                s = c.session(f"after{t}")
            follow_up(c, s, copy, stmts, when, used)
        except Violation as v:
            v.detail.setdefault("broken_query", text)
            raise
        s.close()
        copy.drop()


SPECS = [
    Spec("C34", c34, 48, 600, "queries held at every file-system call while other sessions read and the files are looked at; FINDs held while MAKEs are carried out; free runs of a writer and two readers; non-trivial and distinct = (query, call, state)",
         floor={"looks while held": 1000, "held FINDs": 50, "MAKEs while a FIND is held": 50, "FINDs meanwhile: found": 300, "FINDs meanwhile: none": 200, "free looks": 200, "free runs": 8},
         assumptions=["one process writes at a time; the code has no locking"]),
    Spec("C35", c35, 90, 1000, "queries broken off by KeyboardInterrupt, MemoryError or RecursionError at a step (line, call or return) of the repository or of the library functions it writes with; non-trivial = the exception was raised; distinct = (query, place)", level="fault_enumeration",
         floor={"broken off by KeyboardInterrupt, none there": 100, "broken off by KeyboardInterrupt, all there": 15, "broken off by MemoryError, none there": 60},
         assumptions=["exceptions are raised between two steps of Python code, not inside compiled functions"]),
]

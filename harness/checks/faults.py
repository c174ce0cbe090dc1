"""C20, C21: crashes and failing file-system calls at every point of a query, C36: of a creation
or deletion; C37, C38: of the storage functions; C25: the clock.

The file-system calls of the code under test and the clock go through a preloaded library
(harness/native/shim.c), which is compiled anew by every run.
"""
import os
import time
import shutil
import subprocess
import sys
import tempfile

from .. import gen, work
from . import management, storage
from ..core import Died, Inconclusive, Out, Spec, Violation
from ..model import (
    BadFile, Snap, check_append_only, check_delta, check_integrity, check_numbers, count_elements,
    delta, index_expected, labels_names, parse, parse_json, typed,
)
from ..ops import snapshot_tree
from ..work import DB

MODES = {"ENOSPC": 3, "EIO": 4, "short": 5, "disk full from then on": 6, "disk full after half a write": 7}
CRASH = {"before": 1, "after": 2}
MARK = "VERIF_SHIM"


def prepare(argv):
    """Starts this check over with the library preloaded."""
    if os.environ.get(MARK):
        so = os.environ.pop(MARK)
        os.environ.pop("LD_PRELOAD", None)  # loaded by now
        shutil.rmtree(os.path.dirname(so), ignore_errors=True)
        return
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "shim.c")
    folder = tempfile.mkdtemp(prefix="verif-shim-")
    so = os.path.join(folder, "shim.so")
    for cc in ("gcc", "clang", "cc"):
        try:
            r = subprocess.run([cc, "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"], capture_output=True, text=True)
        except FileNotFoundError:
            continue
        if r.returncode == 0:
            break
    else:
        shutil.rmtree(folder, ignore_errors=True)
        print("INCONCLUSIVE the fault library cannot be compiled")
        sys.exit(2)
    env = dict(os.environ, LD_PRELOAD=so)
    env[MARK] = so
    os.execve(sys.executable, [sys.executable, "-m", "harness.main"] + argv[1:], env)


# ------------------------------------------------------------------------------ helpers
class Copy:
    """A copy of a database folder, to be damaged."""

    def __init__(self, c, db, tag):
        self.folder = os.path.join(c.dir, tag)
        os.mkdir(self.folder)
        src = os.path.dirname(db.paths[0])
        dst = os.path.join(self.folder, os.path.basename(src))
        shutil.copytree(src, dst)
        self.paths = [os.path.join(dst, os.path.basename(p)) for p in db.paths]

    def snap(self):
        return Snap(self.paths)

    def drop(self):
        shutil.rmtree(self.folder, ignore_errors=True)


def superset(snap, when):
    L, N, R = index_expected(snap.nodes)
    if not L <= set(snap.labels):
        raise Violation(f"{when}: stored labels {sorted(L - set(snap.labels))[:4]} are missing from the index")
    if not N <= set(snap.names):
        raise Violation(f"{when}: stored names {sorted(N - set(snap.names))[:4]} are missing from the index")
    for k, v in R.items():
        if not set(v) <= set(snap.noderels.get(k, [])):
            raise Violation(f"{when}: relationships {v} of node {k} are missing from the index", index=snap.noderels.get(k))


def examine(c, before, copy, stmts, when):
    """Whole database after a fault; returns (parsed snapshot, whether the query's nodes are there)."""
    after = parse(copy.snap(), c, when)
    check_append_only(before, after, c, when)
    check_numbers(after, c, when)
    check_integrity(after, c, when)
    superset(after, when)
    if after.wn < before.wn:
        c.fail(f"{when}: the next number went from {before.wn} back to {after.wn}")
    there = bool(delta(before, after))
    if there:
        check_delta(before, after, stmts, c, when + ", part of the query's nodes are there")
    return after, there


def follow_up(c, ses, copy, stmts, when, used):
    """A MAKE and two FINDs on what a fault left behind."""
    r = c.r
    before = parse(copy.snap(), c, when)
    used |= set(before.all_wns())
    again = stmts if r.random() < 0.4 and any(s.clause == "MAKE" for s in stmts) else work.make_query(r)
    text = gen.render(again)
    res = ses.call("query", copy.paths, text)
    if not res.ok:
        c.fail(f"{when}: the next MAKE failed: {res.exc}: {res.msg}", query=text)
    after = parse(copy.snap(), c, when + ", after the next MAKE")
    check_append_only(before, after, c, when + ", after the next MAKE")
    check_delta(before, after, again, c, when + ", after the next MAKE", query=text)
    check_numbers(after, c, when + ", after the next MAKE")
    superset(after, when + ", after the next MAKE")
    new = set(after.all_wns()) - set(before.all_wns())
    if new & used:
        c.fail(f"{when}: numbers {sorted(new & used)[:4]} were used again")
    used |= new
    pats = [p for s in again if s.clause == "MAKE" for p in s.patterns]
    f = gen.render([gen.Stmt("FIND", [r.choice(pats)])])
    res = ses.call("query", copy.paths, f)
    if not res.ok or "no results" in res.out.lower():
        c.fail(f"{when}: FIND of what was just stored: {res.brief()} {res.out!r}", query=f)
    g = "FIND (:ZzAbsentLabel);"
    res = ses.call("query", copy.paths, g)
    if not res.ok or "no results" not in res.out.lower():
        c.fail(f"{when}: FIND of a label that never occurred: {res.brief()} {res.out!r}", query=g)
    return after


def prologue(c):
    """A database with a history, and the query to disturb."""
    r = c.r
    ses = c.session("setup")
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    if c.index % 12 == 5:
        work.bulk(c, ses, db, r.choice([60, 150]))
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        t = gen.render(work.make_query(r))
        if not ses.call("query", db.paths, t).ok:
            raise Inconclusive("the history could not be stored")
    ses.close()
    x = r.random()
    if x < 0.55:
        stmts = work.make_query(r)
    elif x < 0.7:
        stmts = work.norel_query(r)
    elif x < 0.85:
        stmts = work.mixed_query(r)
    elif x < 0.95:
        stmts = [gen.Stmt("MAKE", [gen.pattern(r, size=3) for _ in range(r.choice([6, 20, 60]))])]
    else:
        stmts = work.find_query(r)
    before = db.parsed("start")
    text = gen.render(stmts, gen.layout(r))
    dry = Copy(c, db, "dry")
    s = c.session("dry")
    res = s.call("query_fault", dry.paths, text, 0, 0)
    s.close()
    if not res.ok:
        raise Inconclusive(f"the query fails without any fault: {res.brief()}")
    dry.drop()
    if not res.calls:
        raise Inconclusive("no file-system call seen below the database folder")
    c.peak("max_calls_in_a_query", res.calls)
    return db, before, stmts, text, res.calls, res.log.split()


def points(c, n, per):
    ks = list(range(1, n + 1))
    limit = 90 if c.tier == "quick" else 400
    if len(ks) > limit:
        ks = sorted(set(ks[:20] + ks[-20:] + c.r.sample(ks, limit - 40)))
    else:
        c.event("queries with every point tried")
    return ks


# ------------------------------------------------------------------------------- C20
def c20(c):
    db, before, stmts, text, n, log = prologue(c)
    r = c.r
    t = 0
    for k in points(c, n, 2):
        for name, mode in CRASH.items():
            t += 1
            what = log[k - 1] if k <= len(log) else "?"
            when = f"after a crash {name} call {k} of {n} ({what})"
            copy = Copy(c, db, f"x{t}")
            s = c.session(f"crash{t}")
            try:
                res = s.call("query_fault", copy.paths, text, k, mode, may_die=True)
                c.event("ran to the end")
                if res.fired:
                    raise Inconclusive("the crash fired and the process lives")
                if not res.ok:
                    c.fail(f"the query fails in some runs only: {res.brief()}", query=text)
                s.close()
            except Died as d:
                if d.status != 77 << 8:
                    c.fail(f"{when}: the process ended with status {d.status}", query=text)
                c.event("crashes")
                c.event(f"crash {name} {what}")
            try:
                after, there = examine(c, before, copy, stmts, when)
                c.event("all of the query there" if there else "none of the query there")
                used = set(before.all_wns())
                if r.random() < 0.15:  # and another one, on what that left behind
                    q2 = work.make_query(r)
                    s2 = c.session(f"second{t}")
                    k2, m2 = r.randint(1, n), r.choice([1, 2])
                    mid = after
                    try:
                        s2.call("query_fault", copy.paths, gen.render(q2), k2, m2, may_die=True)
                        s2.close()
                    except Died:
                        c.event("second crashes")
                    used |= set(mid.all_wns())
                    examine(c, mid, copy, q2, when + f" and a second crash at call {k2}")
                s3 = c.session(f"next{t}")
                follow_up(c, s3, copy, stmts, when, used)
                s3.close()
            except Violation as v:
                v.detail.setdefault("interrupted_query", text)
                v.detail["calls_of_the_query"] = " ".join(log)
                raise
            copy.drop()
            c.judged((c.index, k, name), sample=f"{when}: {text[:300]}")


# ------------------------------------------------------------------------------- C21
def c21(c):
    db, before, stmts, text, n, log = prologue(c)
    r = c.r
    t = 0
    ks = points(c, n, 5)
    if c.tier == "quick" and len(ks) > 45:
        ks = sorted(r.sample(ks, 45))
    for k in ks:
        for name, mode in MODES.items():
            t += 1
            what = log[k - 1] if k <= len(log) else "?"
            if name == "short" and what not in ("write", "read", "pwrite", "writev", "sendfile"):
                continue
            when = f"after {name} at call {k} of {n} ({what})"
            copy = Copy(c, db, f"x{t}")
            s = c.session(f"fault{t}")
            warm = r.random() < 0.3
            base = before
            used = set(before.all_wns())
            if warm:  # the session has done something before
                q0 = work.make_query(r)
                if not s.call("query", copy.paths, gen.render(q0)).ok:
                    raise Inconclusive("the first query failed")
                base = parse(copy.snap(), c, "after a first query")
                used |= set(base.all_wns())
            res = s.call("query_fault", copy.paths, text, k, mode)
            if not res.fired:
                c.event("fault not reached")
            else:
                c.event(f"fault {name}")
            try:
                after, there = examine(c, base, copy, stmts, when)
                makes = any(x.clause == "MAKE" for x in stmts)
                if res.ok:
                    c.event("success reported")
                    if makes and not there:
                        c.fail(f"{when}: success was reported and nothing stored")
                    if res.fired:
                        c.event("success reported in spite of a fault")
                else:
                    if not res.fired:
                        c.fail(f"the query fails in some runs only: {res.brief()}")
                    c.event("error reported, " + ("all there" if there else "none there"))
                if r.random() < 0.3:  # fails once more in the same way before it clears
                    r2 = s.call("query_fault", copy.paths, text, r.randint(1, n), r.choice(list(MODES.values())))
                    mid, there = examine(c, after, copy, stmts, when + " and a second fault")
                    if r2.ok and makes and not there:
                        c.fail(f"{when} and a second fault: success was reported and nothing stored")
                    c.event("second faults")
                used |= set(after.all_wns())
                follow_up(c, s, copy, stmts, when + ", same session", used)
            except Violation as v:
                v.detail.setdefault("disturbed_query", text)
                v.detail["calls_of_the_query"] = " ".join(log)
                v.detail["outcome"] = res.brief()
                raise
            s.close()
            copy.drop()
            c.judged((c.index, k, name), nontrivial=bool(res.fired), sample=f"{when}: {text[:300]}")


# ------------------------------------------------------------------------------- C25
ZONES = [None, None, "UTC", "America/New_York", "Asia/Kolkata", "XYZ-13:30", "ABC+11"]
# (zone, an instant at which its clocks were turned back or forward, in seconds since 1970)
TURNS = [
    ("GMT0BST,M3.5.0/1,M10.5.0/2", 1761440400), ("GMT0BST,M3.5.0/1,M10.5.0/2", 1743296400), ("EST5EDT,M3.2.0,M11.1.0", 1762063200), ("EST5EDT,M3.2.0,M11.1.0", 1741503600),
    ("LHST-10:30LHDT-11,M10.1.0,M4.1.0", 1743865200), ("NZST-12NZDT,M9.5.0,M4.1.0/3", 1743861600),
]
FAR = [86400, 10**9, 2**31 - 3, 2**31, 2**32 - 2, 2**32 + 5, 4102444800, 10**10]


def c25(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    before = db.parsed("start")
    offset = r.choice([0.0, 0.0, 3600.0 * r.randint(-5000, 5000)])
    zone = r.choice(ZONES)
    x = r.random()
    turn = None
    if x < 0.35:
        zone, turn = r.choice(TURNS)
        offset = turn + r.uniform(-3700, 3700) - time.time()
        c.event("around a turn of the clocks")
    elif x < 0.45:
        offset = r.choice(FAR) - time.time()
        c.event("far times")
    for k in range(r.choice([3, 6, 10])):
        if r.random() < 0.15:
            ses.close()
            ses = c.session()
        if k:
            offset += r.choice([0.0, 0.05, 1.7, 59.0, 3600.0, 86400.0, 86400.0 * 366, r.random() * 1e5])
        if turn and k:
            offset = turn + r.uniform(-3700, 3700) - time.time()
        elif r.random() < 0.15:
            zone = r.choice(ZONES)
        kind, text, stmts, _ = work.step(r, {"make": 6, "norel": 2, "mixed": 2, "bad": 1, "find": 1})
        res = ses.call("clock_query", db.paths, text, offset, zone)
        after = parse(db.snap(), c, f"after {kind} {text[:200]!r}")
        new = delta(before, after)
        for n in new.values():
            for what, x in [(f"node {n.wn}", n)] + [(f"relationship {y.wn}", y) for y in n.rels]:
                ok = isinstance(x.created, (int, float)) and not isinstance(x.created, bool)
                if not ok:
                    c.fail(f"the creation time of {what} is {x.created!r}", query=text)
                if not res.t0 - 0.002 <= x.created <= res.t1 + 0.002:
                    c.fail(
                        f"the creation time of {what} is {x.created!r}, the query ran from {res.t0!r} to {res.t1!r} ({x.created - res.t0:+.3f}s from its start)",
                        query=text, clock_offset=offset, zone=zone, query_number=k,
                    )
                if x.updated is not None:
                    c.fail(f"the update time of {what} is {x.updated!r}", query=text)
                c.event("times_checked")
                c.event("times_of_nodes" if what[0] == "n" else "times_of_relationships")
        check_append_only(before, after, c, "times of older records")
        c.event("clock_moves" if offset else "real_clock")
        c.judged((k, text, offset), nontrivial=bool(new))
        before = after


# ------------------------------------------------------------------------------- C36
def copied(c, template, tag):
    dst = os.path.join(c.dir, tag)
    shutil.copytree(template, dst)
    return dst


def moved(paths, template, root):
    return [os.path.join(root, os.path.relpath(p, template)) for p in paths]


def c36(c):
    """One creation or deletion, cut short at every call in every way."""
    r = c.r
    template = os.path.join(c.dir, "template")
    os.mkdir(template)
    sub = r.choice(["dbms", "dbms", "dbms", "g[l]ob*", "deep/er/dbms"])
    ses = c.session("setup")
    ns = management.names(r, r.choice([1, 2, 3, 4]))
    name, others = ns[0], ns[1:]
    have = management.fill(c, ses, os.path.join(template, sub), others)
    what = r.choice(["create", "create", "create", "create", "delete", "delete", "delete", "delete partial", "create taken", "create partial", "create partial", "dialog"])
    own = []
    if what in ("delete", "create taken"):
        own = management.fill(c, ses, os.path.join(template, sub), [name])[name]
        if what == "delete" and r.random() < 0.3:  # somebody's own file, an old temporary file
            for f in r.sample(["notes.txt", "zz", "0", "replacement.tmp", "database.bak"], r.choice([1, 2])):
                with open(os.path.join(os.path.dirname(own[0]), f), "w") as h:
                    h.write("x")
    elif what in ("create partial", "delete partial"):
        d = os.path.join(template, sub, name)
        os.makedirs(d)
        own = management.own_paths(os.path.join(template, sub), name)
        for p, body in zip(own, ['{"0": {}}', '{"node_relationships": {}, "node_labels": ["L"], "relationship_names": []}', "42"]):
            if r.random() < 0.45:
                with open(p, "w") as h:
                    h.write(r.choice([body, ""]))
    ses.close()
    if not have:
        os.makedirs(os.path.join(template, sub), exist_ok=True)
        if what in ("create", "dialog") and r.random() < 0.5:
            shutil.rmtree(os.path.join(template, sub))
    op = {"d": "delete", "c": "create"}[what[0]] if what != "dialog" else "create_dialog"
    wrong = r.sample(sorted(have), min(len(have), r.choice([0, 1])))

    def act(s, folder, prefix, k, mode, **kw):
        args = (folder, wrong + [name]) if op == "create_dialog" else (name, folder)
        return s.call("fault", prefix, k, mode, op, *args, **kw)

    # Without any fault
    root = copied(c, template, "dry")
    s = c.session("dry")
    dry = act(s, os.path.join(root, sub), os.path.join(root, sub), 0, 0)
    s.close()
    shutil.rmtree(root)
    n, log = dry.calls, dry.log.split()
    if not n:
        raise Inconclusive("no file-system call seen below the folder")
    c.peak("max_calls", n)
    t = 0
    modes = list(CRASH.items()) + [(k, v) for k, v in MODES.items()]
    for k in range(1, n + 1):
        call = log[k - 1]
        for mode, m in modes:
            if mode == "short" and call not in ("write", "read", "pwrite", "writev", "sendfile"):
                continue
            if "disk full" in mode and call in ("unlink", "rmdir", "open-r", "read", "opendir") and r.random() < 0.7:
                continue
            t += 1
            root = copied(c, template, f"t{t}")
            folder = os.path.join(root, sub)
            before = snapshot_tree(root)
            fore = os.path.relpath(folder, root) + "/" + name
            when = f"{what} {name!r}: {mode} at call {k} of {n} ({call})"
            s = c.session(f"s{t}")
            died = False
            res = None
            try:
                res = act(s, folder, folder, k, m, may_die=True)
                c.event("fault not reached" if not res.fired else f"fault {mode}")
                if res.fired and mode in CRASH:
                    raise Inconclusive("the crash fired and the process lives")
            except Died as d:
                if d.status != 77 << 8:
                    c.fail(f"{when}: the process ended with status {d.status}")
                died = True
                c.event("crashes")
            try:
                cut_short(c, what, s, died, res, dry, root, folder, fore, before, name, {x: moved(p, template, root) for x, p in have.items()}, when)
            except Violation as v:
                v.detail["databases"] = [name] + others
                v.detail["calls"] = " ".join(log)
                v.detail["outcome"] = "died" if died else res.brief()
                raise
            shutil.rmtree(root, ignore_errors=True)
            c.judged((c.index, k, mode), nontrivial=died or bool(res.fired), sample=when)


def cut_short(c, what, s, died, res, dry, root, folder, fore, before, name, have, when):
    r = c.r
    ups = os.path.relpath(folder, root)

    def outside(tree):
        return {k: v for k, v in tree.items() if not (k == fore + "/" or k.startswith(fore + "/") or (ups + "/").startswith(k))}

    def inside(tree):
        return {k: v for k, v in tree.items() if k.startswith(fore + "/") and k != fore + "/"}

    def others(at):
        if outside(snapshot_tree(root)) != outside(before):
            c.fail(f"{at}: {management.differ(outside(before), outside(snapshot_tree(root)))[:4]} changed")

    others(when)
    now = snapshot_tree(root)
    b, a = inside(before), inside(now)
    changed = [k for k in b if k in a and a[k] != b[k]]
    if changed:
        c.fail(f"{when}: {changed[:3]}, there before, changed", was=str(b[changed[0]])[:200], now=str(a[changed[0]])[:200])
    if what.startswith("delete"):
        if set(a) - set(b):
            c.fail(f"{when}: {sorted(set(a) - set(b))[:3]} appeared")
    elif set(b) - set(a):
        c.fail(f"{when}: {sorted(set(b) - set(a))[:3]}, there before, vanished")
    if not died:
        if res.ok:
            c.event("success reported")
            if not dry.ok:
                c.fail(f"{when}: success, and without a fault {dry.exc}")
            if what.startswith("delete"):
                if fore + "/" in now or a:
                    c.fail(f"{when}: reported as deleted, and there is {sorted(a)[:3] or 'its folder'}")
            else:
                management.expect_paths(c, folder, name, res.value, when)
                management.check_empty(res.value, when)
        else:
            c.event("error reported")
            if not res.fired and dry.ok:
                c.fail(f"{when}: fails in some runs only: {res.brief()}")
    if died or r.random() < 0.4:
        s.close()
        s = c.session(f"after{os.path.basename(root)}")
    # The rest can be used as before
    got = s.call("listing", folder)
    if not got.ok or set(got.value) - {name} != set(have) or (name in got.value) != (fore + "/" in now):
        c.fail(f"{when}: listed are {got.brief()}, there are {sorted(have)}")
    for x, p in have.items():
        if r.random() < 0.15:
            other = s.call("open_", x, folder)
            if not other.ok or [management.norm(y) for y in other.value] != [management.norm(y) for y in p]:
                c.fail(f"{when}: {x!r} is now {other.brief()}")
            f = s.call("query", p, "FIND (:ZzAbsentLabel);")
            if not f.ok:
                c.fail(f"{when}: a search in {x!r} now gives {f.brief()}")
            c.event("other databases tried")
    if have and r.random() < 0.1:
        letters = s.call("display", folder)
        free = sorted(have)[0]
        mine = [k for k, v in (letters.value or {}).items() if v == name]
        his = [k for k, v in (letters.value or {}).items() if v == free]
        if free not in management.HIDDEN:
            pick = s.call("select_existing", folder, mine + his + ["never asked"])
            if not his or not pick.ok:
                c.fail(f"{when}: {free!r} cannot be chosen: {pick.brief()}", letters=letters.value)
            target = name if mine and len(pick.log) == 1 else free
            if any(os.path.basename(os.path.dirname(management.norm(y))) != target for y in pick.value):
                c.fail(f"{when}: choosing {target!r} gave {pick.value}")
            c.event("chosen among what was left")
    # And the name again
    if r.random() < 0.5:
        whole = len(inside(snapshot_tree(root))) and s.call("open_", name, folder).ok
        held = inside(snapshot_tree(root))
        res2 = s.call("create", name, folder)
        at = f"{when}, then created"
        if res2.ok:
            if whole:
                c.fail(f"{at} although it is there")
            management.expect_paths(c, folder, name, res2.value, at)
            management.check_empty(res2.value, at)
            management.usable(c, s, res2.value, at)
            c.event("created straight away")
        else:
            lost = [k for k, v in held.items() if inside(snapshot_tree(root)).get(k, 0) != v]
            if lost:
                c.fail(f"{at}, which was refused and changed {lost[:3]}")
            if not held and fore + "/" not in snapshot_tree(root):
                c.fail(f"{at}, refused and nothing of it was there: {res2.brief()}")
            c.event("has to be deleted first")
        others(at)
    at = f"{when}, then deleted"
    if fore + "/" in snapshot_tree(root):
        res3 = s.call("delete", name, folder)
        if not res3.ok:
            c.fail(f"{at}: {res3.brief()}", left=sorted(inside(snapshot_tree(root)))[:5])
        if fore + "/" in snapshot_tree(root):
            c.fail(f"{at}, and still there")
        others(at)
    at += " and created again"
    res4 = s.call("create", name, folder)
    if not res4.ok:
        c.fail(f"{at}: {res4.brief()}")
    management.expect_paths(c, folder, name, res4.value, at)
    management.check_empty(res4.value, at)
    others(at)
    if r.random() < 0.3:
        management.usable(c, s, res4.value, at)
    if inside(snapshot_tree(root)).keys() - {os.path.relpath(p, root) for p in res4.value}:
        c.fail(f"{at}: besides there is {sorted(inside(snapshot_tree(root)))[:6]}")
    c.event("made good")
    s.close()


# ------------------------------------------------------------------------- C37, C38
def content(path):
    """What a file holds, as far as it matters."""
    with open(path, "rb") as h:
        raw = h.read()
    if path.endswith(".txt"):
        try:
            return int(raw)
        except ValueError:
            raise BadFile(f"the number file holds {raw[:40]!r}")
    x = parse_json(raw, os.path.basename(path))
    if isinstance(x, dict) and "node_labels" in x and "node_relationships" in x:
        try:
            return (
                sorted(x["node_labels"]), sorted(x["relationship_names"], key=str),
                sorted((k, sorted(v)) for k, v in x["node_relationships"].items() if v),
            )
        except (TypeError, KeyError, AttributeError) as e:
            raise BadFile(f"the index file: {e!r}")
    return typed(x)


def stored(c, ses):
    r = c.r
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    for _ in range(r.choice([0, 1, 2, 3])):
        if not ses.call("query", db.paths, gen.render(work.make_query(r))).ok:
            raise Inconclusive("the history could not be stored")
    if c.index % 10 == 3:
        work.bulk(c, ses, db, r.choice([60, 200]))
    return db


def c37(c):
    """One storage operation, cut short at every call in every way."""
    r = c.r
    ses = c.session("setup")
    db = stored(c, ses)
    ses.close()
    which = r.choice(["labels", "names", "noderels"])
    words = {r.choice(["A", "Person", "é", "", "x" * 300, gen.ident(r)]) for _ in range(r.choice([1, 2, 40]))}
    rels = {str(r.randint(0, 40)): set(r.sample(range(90), r.choice([1, 2, 6]))) for _ in range(r.choice([1, 2, 9]))}
    top = parse(db.snap(), c, "start").wn
    op, i, args = r.choice([
        ("add_db", 0, ({str(top + k): storage.record(r, top + k) for k in range(r.choice([1, 2, 60]))},)),
        ("wipe_db", 0, (True,)),
        ("index_add", 1, (rels if which == "noderels" else words,)),
        ("index_wipe", 1, (True,)),
        ("set_wn", 2, (top + r.choice([0, 1, 2, 10, 10**6]),)),
    ])

    def act(s, paths, k, mode, **kw):
        head = (which, paths[i]) if op.startswith("index") else (paths[i],)
        return s.call("fault", os.path.dirname(paths[i]) + "/", k, mode, op, *head, *args, **kw)

    dry = Copy(c, db, "dry")
    s = c.session("dry")
    old = content(dry.paths[i])
    res = act(s, dry.paths, 0, 0)
    s.close()
    if not res.ok:
        raise Inconclusive(f"{op} fails without any fault: {res.brief()}")
    new = content(dry.paths[i])
    dry.drop()
    n, log = res.calls, res.log.split()
    if not n:
        raise Inconclusive("no file-system call seen")
    c.peak("max_calls", n)
    c.event(op)
    t = 0
    for k in range(1, n + 1):
        call = log[k - 1]
        for mode, m in list(CRASH.items()) + list(MODES.items()):
            if mode == "short" and call not in ("write", "read", "pwrite", "writev", "sendfile"):
                continue
            t += 1
            copy = Copy(c, db, f"x{t}")
            when = f"{op}: {mode} at call {k} of {n} ({call})"
            beside = {p: open(p, "rb").read() for p in copy.paths if p != copy.paths[i]}
            s = c.session(f"s{t}")
            died, res = False, None
            try:
                res = act(s, copy.paths, k, m, may_die=True)
                c.event("fault not reached" if not res.fired else f"fault {mode}")
                if res.fired and mode in CRASH:
                    raise Inconclusive("the crash fired and the process lives")
            except Died as d:
                if d.status != 77 << 8:
                    c.fail(f"{when}: the process ended with status {d.status}")
                died = True
                c.event("crashes")
            how = "died" if died else res.brief()

            def state(at):
                for p, raw in beside.items():
                    if not os.path.exists(p) or open(p, "rb").read() != raw:
                        c.fail(f"{at}: {os.path.basename(p)} changed", outcome=how)
                try:
                    now = content(copy.paths[i])
                except (BadFile, OSError) as e:
                    c.fail(f"{at}: {e}", outcome=how, calls=" ".join(log))
                if now not in (old, new):
                    c.fail(f"{at}: the file holds neither the old nor the new content", holds=str(now)[:300], outcome=how, calls=" ".join(log))
                return now

            now = state(when)
            if not died:
                if res.ok and now != new:
                    c.fail(f"{when}: success was reported and the content is the old one", calls=" ".join(log))
                if not res.ok and not res.fired:
                    c.fail(f"{when}: fails in some runs only: {how}")
                c.event("success reported" if res.ok else "error reported")
            c.event("same before and after" if old == new else "new content there" if now == new else "old content there")
            if died or r.random() < 0.4:
                s.close()
                s = c.session(f"after{t}")
            done = now == new and old != new
            again = act(s, copy.paths, 0, 0)
            if not again.ok and not (op == "add_db" and done):
                c.fail(f"{when}, then once more: {again.brief()}", outcome=how)
            if state(when + ", then once more") != new:
                c.fail(f"{when}, then once more: the file holds the old content", outcome=how)
            s.close()
            copy.drop()
            c.judged((c.index, op, k, mode), nontrivial=died or bool(res.fired), sample=when)


def c38(c):
    """Readings with a fault at every call."""
    r = c.r
    ses = c.session("setup")
    db = stored(c, ses)
    paths = db.paths
    stmts = work.make_query(r)
    if not ses.call("query", paths, gen.render(stmts)).ok:
        raise Inconclusive("the history could not be stored")
    whole = {p: open(p, "rb").read() for p in paths}
    snap = parse(db.snap(), c, "start")
    there = gen.render([gen.Stmt("FIND", [r.choice(stmts[0].patterns)])])
    absent = r.choice(["FIND (:ZzAbsentLabel);", "FIND (a:ZzAbsentLabel)-[]->(:ZzOther);"])
    label = sorted(snap.labels)[0] if snap.labels else None
    missing = f"FIND (:{label})-[:ZZABSENT]->(:{label});" if label and label.isidentifier() else absent
    ops = [
        ("load_db", (paths[0],)), ("index_load", ("labels", paths[1])), ("index_load", ("names", paths[1])), ("index_load", ("noderels", paths[1])),
        ("get_wn", (paths[2],)), ("query", (paths, there)), ("query", (paths, absent)), ("query", (paths, missing)),
    ]
    r.shuffle(ops)
    prefix = os.path.dirname(paths[0]) + "/"

    def answer(res):
        if not res.ok:
            return None
        v = res.value
        if isinstance(v, tuple):
            return v[0], sorted(v[1], key=str)
        if isinstance(v, dict):
            return typed({k: sorted(x[1]) if isinstance(x, tuple) else x for k, x in v.items()})
        return v, "no results" in res.out.lower()

    for op, args in ops:
        dry = ses.call("fault", prefix, 0, 0, op, *args)
        if not dry.ok:
            raise Inconclusive(f"{op} fails without any fault: {dry.brief()}")
        right = answer(dry)
        n, log = dry.calls, dry.log.split()
        if op == "query" and right[1] != (args[1] is not there and args[1] != there):
            c.fail(f"without any fault: {dry.brief()}", query=args[1])
        for k in range(1, n + 1):
            for mode, m in MODES.items():
                if mode == "short" and log[k - 1] not in ("read", "write", "sendfile") or "full" in mode:
                    continue
                s = c.session() if r.random() < 0.1 else ses
                if r.random() < 0.12:  # read once, then changed by another session
                    s.call(op, *args)
                    w = c.session()
                    if not w.call("query", paths, gen.render(work.make_query(r))).ok:
                        raise Inconclusive("a MAKE in between failed")
                    w.close()
                    w = c.session()
                    right = answer(w.call(op, *args))
                    w.close()
                    whole = {p: open(p, "rb").read() for p in paths}
                    c.event("changed in between")
                when = f"{op} {args[1] if len(args) > 1 else ''}: {mode} at call {k} of {n} ({log[k - 1]})"
                res = s.call("fault", prefix, k, m, op, *args)
                if res.ok:
                    c.event("answered" if res.fired else "fault not reached")
                    if answer(res) != right:
                        c.fail(f"{when}: the answer is {str(answer(res))[:200]}", right=str(right)[:300], fired=res.fired)
                else:
                    c.event("error reported")
                    if not res.fired:
                        c.fail(f"{when}: fails in some runs only: {res.brief()}")
                    if not res.msg and not res.exc:
                        c.fail(f"{when}: an error without anything to say")
                    if "no results" in res.out.lower():
                        c.fail(f"{when}: an answer was given in spite of the error", out=res.out[:200])
                for p in paths:
                    if not os.path.exists(p) or open(p, "rb").read() != whole[p]:
                        c.fail(f"{when}: {os.path.basename(p)} changed by reading")
                if r.random() < 0.5:
                    again = s.call(op, *args)
                    if answer(again) != right:
                        c.fail(f"{when}, then once more: {str(answer(again))[:200]} {again.brief()}", right=str(right)[:300])
                    c.event("read again")
                if s is not ses:
                    s.close()
                c.event(f"fault {mode}" if res.fired else "no fault")
                c.judged((c.index, op, args[-1] if op == "query" else args[0], k, mode), nontrivial=bool(res.fired), sample=when)
    ses.close()


SPECS = [
    Spec("C37", c37, 140, 2000, "one storage operation (adding to or wiping the database or an index, setting the number), counted in a dry run and then, on a copy, cut short before, after and within and made to fail at each of its file-system calls, then done once more; non-trivial = the fault was reached", level="fault_enumeration",
         floor={"crashes": 300, "error reported": 500, "old content there": 800, "new content there": 100},
         assumptions=["faults are injected at the C library's file-system calls; the process dies, the operating system does not"]),
    Spec("C38", c38, 150, 2500, "every load function and FINDs of what is stored and what is not, with each of their file-system calls failing, mostly in a long-lived session; non-trivial = the fault was reached", level="fault_enumeration",
         floor={"error reported": 1000, "answered": 50, "read again": 600, "changed in between": 200},
         assumptions=["faults are injected at the C library's file-system calls"]),
    Spec("C20", c20, 40, 700, "for each query the file-system calls on the database's folder are counted in a dry run; then the query is run on a copy and the process ended immediately before and after (writes: in the middle of) each of them; non-trivial and distinct = (query, call, side)", level="fault_enumeration",
         floor={"crashes": 1000, "all of the query there": 50, "none of the query there": 300, "second crashes": 30},
         assumptions=["the process dies, the operating system does not: what was written before stays"]),
    Spec("C21", c21, 32, 500, "as for C20, with the call failing (no space, I/O error, short transfer, disk full from then on with or without part of the data written) instead of the process dying; non-trivial = the fault was reached", level="fault_enumeration",
         floor={"fault " + m: 100 for m in MODES} | {"error reported, none there": 300, "second faults": 100},
         assumptions=["faults are injected at the C library's file-system calls"]),
    Spec("C36", c36, 48, 600, "one creation (of a new name, a name in use, over parts of a database, through the dialog) or deletion, counted in a dry run and then cut short, on a copy, before and after and in every failing way at each of its file-system calls; non-trivial = the fault was reached", level="fault_enumeration",
         floor={"crashes": 300, "error reported": 400, "made good": 900, "created straight away": 50, "has to be deleted first": 150, "other databases tried": 60},
         assumptions=["faults are injected at the C library's file-system calls; the process dies, the operating system does not"]),
    Spec("C25", c25, 250, 2500, "histories in long-lived sessions with the clock moved between queries by fractions of a second up to years, in several time zones; every new node and relationship; non-trivial = something was created",
         floor={"times_of_nodes": 1500, "times_of_relationships": 800, "clock_moves": 500}),
]

"""C29, C30, C31: what queries leave behind, damaged files, and large inputs."""
import json
import os
import stat

from .. import gen, work
from ..core import Spec
from ..model import BadFile, Snap, check_append_only, check_delta, check_indexes, check_numbers, check_integrity, count_elements, parse, typed
from ..work import DB

WEIGHTS = {"make": 6, "norel": 2, "mixed": 3, "find": 3, "bad": 4, "damaged": 2}


# ------------------------------------------------------------------------------- C29
def look(folder):
    """Everything below the folder: kind, permissions, and content (links: where they lead)."""
    out = {}
    for base, dirs, files in os.walk(folder):
        for x in dirs + files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            rel = os.path.relpath(p, folder)
            mode = oct(st.st_mode)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("folder", mode)
            else:
                with open(p, "rb") as h:
                    out[rel] = ("file", mode, h.read())
    return out


STRAYS = ["notes.txt", ".hidden", "database.json", "indexes.json", "wiggle_number.txt", "database_other.json", "backup of database", "lock", "query.log", "x.bak", "0", "é.json"]


def extreme(r):
    """A query with something unusually long, deep or large in it."""
    n = r.choice([257, 1001, 2500, 4299, 4300, 4301, 6000, 20000])
    x = r.choice(["int", "int", "negative", "float", "list", "item", "string", "nested", "brackets", "patterns", "key", "label", "unclosed"])
    v = {
        "int": "7" * n, "negative": "-" + "7" * n, "float": "1." + "3" * n, "list": "[" + "1, " * n + "1]", "item": "[1, " + "8" * n + "]", "string": "'" + "s" * n + "'",
        "nested": "[" * min(n, 2500) + "1" + "]" * min(n, 2500), "brackets": "[" + "(" * n + "]", "unclosed": "'" + "s" * n,
    }.get(x, "1")
    if x == "patterns":
        return x, "MAKE " + ", ".join("(:A)-[:R]->(:B)" for _ in range(min(n, 300))) + ";"
    return x, "MAKE (:%s{%s: %s})-[:REL]->(b:B);" % ("L" * n if x == "label" else "A", "k" * n if x == "key" else "k", v)


# what a first use may settle once (a log file opened, a folder for temporary files looked up)
WARMS_UP = {"open files", "temporary folder", "random numbers"}


def c29(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    home = os.path.dirname(db.paths[0])
    kept = [os.path.realpath(home)]
    for _ in range(r.choice([0, 1, 3])):
        with open(os.path.join(home, r.choice(STRAYS)), "w") as h:
            h.write(r.choice(["", "mine", "{}", '{"1": {}}', "7"]))
    if r.random() < 0.3:
        os.makedirs(os.path.join(home, r.choice(["old", "backup"])), exist_ok=True)
    if r.random() < 0.3:
        for p in db.paths:
            os.chmod(p, r.choice([0o600, 0o640, 0o644, 0o660, 0o664, 0o666]))
        c.event("unusual permissions")
    if r.random() < 0.25:  # the files live elsewhere
        away = os.path.join(c.dir, "away")
        os.makedirs(away)
        for p in db.paths:
            if r.random() < 0.7:
                q = os.path.join(away, os.path.basename(p))
                os.rename(p, q)
                os.symlink(r.choice([q, os.path.relpath(q, home)]), p)
        kept.append(os.path.realpath(away))
        c.event("linked files")
    neighbour = DB(c, ses)
    ses.call("query", neighbour.paths, "MAKE (:A)-[:R]->(:B);")
    own = {os.path.relpath(os.path.realpath(p), c.dir) for p in db.paths}
    cold = ses.call("process_state")
    for t in ("MAKE (w:Warm)-[:UP]->(:Warm);", "FIND (w:Warm); REPORT w;", "FIND (:Nowhere);", "MAKE (:A;"):
        ses.call("query", neighbour.paths, t)
        if r.random() < 0.3:
            ses.call("query", db.paths, t)
    before = look(c.dir)
    state = ses.call("process_state")
    for what in state:
        if what not in WARMS_UP and cold[what] != state[what]:
            c.fail(f"the first queries changed the {what} of the process", before=cold[what], after=state[what])
    for k in range(r.choice([8, 14, 25])):
        kind, text, stmts, _ = work.step(r, WEIGHTS)
        if r.random() < 0.08:
            what, text = extreme(r)
            c.event("extreme " + what)
        x = r.random()
        if x < 0.2:
            res = ses.call("query_limited", db.paths, text, "fsize", r.choice([0, 1, 100, len(db.snap().raw[0] or b"") - 1, len(db.snap().raw[1] or b"") + 5, len(db.snap().raw[0] or b"") + 50]))
            c.event("while files could not grow" + ("" if res.ok else ", failed"))
        elif x < 0.27:
            res = ses.call("query_limited", db.paths, text, "nofile", r.choice([0, 1, 1, 2]))
            c.event("while files could not be opened" + ("" if res.ok else ", failed"))
        else:
            res = ses.call("query", db.paths, text)
        for event, path in list(res.writes) + list(res.blocked):
            if not any(os.path.dirname(path) == f for f in kept):
                c.fail(f"a query did {event} on {path}, which is not in the folder of its database", query=text, outcome=res.brief())
            c.event("writes_seen")
        after = look(c.dir)
        for p in sorted(set(before) | set(after)):
            if p not in after:
                c.fail(f"a query made {p} disappear", query=text, outcome=res.brief())
            if p not in before:
                c.fail(f"a query left {p} behind", query=text, outcome=res.brief())
            if p in own:
                if after[p][:2] != before[p][:2]:
                    c.fail(f"a query changed the kind or permissions of {p} from {before[p][:2]} to {after[p][:2]}", query=text)
            elif after[p] != before[p]:
                c.fail(f"a query changed {p}, which is none of its database's files", before=before[p], after=after[p], query=text)
        now = ses.call("process_state")
        for what in state:
            if now[what] != state[what]:
                c.fail(f"a query changed the {what} of the process", before=state[what], after=now[what], query=text, outcome=res.brief())
        c.event("accepted" if res.ok else "rejected")
        c.judged((k, text))
        before = after
    c.peak("max_open_files", len(state["open files"]))


# ------------------------------------------------------------------------------- C30
def damage_bytes(r, i, raw, only=None):
    """(kind, bytes or None for a missing file) that hold no database, index or number any more."""
    if i == 2:
        k = r.choice(["empty", "garbage", "garbage", "missing", "binary"])
        return k, {"empty": b"", "garbage": r.choice([b"abc", b"1.5", b"12 34", b"one", b"{}", b"None", b"0x10", b"1e3", b"\n", b" "]), "missing": None, "binary": r.choice([b"\xff\xfe1", b"\x00\x00", b"7\x00"])}[k]
    k = r.choice(["empty", "cut off", "cut off", "cut off", "garbage", "missing", "binary", "doubled", "other json"] + (["part gone", "part gone"] if i == 1 else []))
    if k == "part gone":  # one of the three indexes is no index any more, the others are as they were
        d = json.loads(raw)
        which = only or r.choice(sorted(d))
        x = r.random()
        if x < 0.5:
            del d[which]
        elif x < 0.7:
            d[which + r.choice(["s", "_", " ", "2"])] = d.pop(which)
        else:
            d[which] = r.choice([None, 7, True, 1.5])
        return f"{k}: {which}", json.dumps(d, indent=r.choice([4, None])).encode()
    if k == "cut off":
        body = raw.rstrip()
        return k, body[: r.choice([1, len(body) - 1, len(body) // 2, r.randint(1, len(body) - 1)])]
    return k, {
        "empty": b"",
        "garbage": r.choice([b"not json", b"{'1': 2}", b"{" + raw, raw + b"}", b"<html>", b"\n", b"{,}"]),
        "missing": None,
        "binary": r.choice([b"\xff\xfe" + raw, b"\x00" * max(2, len(raw)), raw[: len(raw) // 2] + b"\xc3\x28"]),
        "doubled": raw + raw,
        "other json": r.choice([b"[]", b"null", b"7", b'"text"', b"[1, 2]", b"true"]),
    }[k]


def put(p, raw):
    if raw is None:
        if os.path.exists(p):
            os.remove(p)
    else:
        with open(p, "wb") as h:
            h.write(raw)


def c30(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    for _ in range(r.choice([1, 2, 4])):
        t = gen.render(work.make_query(r))
        if not ses.call("query", db.paths, t).ok:
            c.fail("a well-formed MAKE was rejected", query=t)
    base = db.parsed("start")
    used = set(base.all_wns())
    for round_ in range(r.choice([2, 4])):
        if r.random() < 0.5:
            ses.close()
            ses = c.session()
        i = r.choice([0, 0, 0, 1, 1, 2, 2])
        good = list(db.snap().raw)
        kind, bad = damage_bytes(r, i, good[i])
        which = ("database", "index", "wiggle number")[i]
        put(db.paths[i], bad)
        held = typed(base.db)
        for k in range(r.choice([1, 2, 4])):
            x = r.random()
            if x < 0.7:
                stmts = r.choice([work.make_query, work.make_query, work.norel_query])(r)
            elif x < 0.85:
                stmts = work.mixed_query(r)
            else:
                stmts = work.find_query(r)
            text = gen.render(stmts, gen.layout(r))
            res = ses.call("query", db.paths, text)
            raw = db.snap().raw
            where = f"with the {which} file damaged ({kind})"
            if raw[i] != bad:
                c.fail(f"{where} a query {'created' if bad is None else 'overwrote'} it", query=text, damaged=bad, now=raw[i], outcome=res.brief())
            makes = any(s.clause == "MAKE" for s in stmts)
            if makes and res.ok:
                c.fail(f"{where} a MAKE was accepted", query=text, files=raw)
            if i != 0:
                s = Snap(db.paths)
                try:
                    now = json.loads(s.raw[0])
                except (ValueError, TypeError):
                    c.fail(f"{where} a query damaged the database file as well", query=text, now=s.raw[0])
                if any(typed(now.get(key)) != typed(v) for key, v in base.db.items()):
                    c.fail(f"{where} a query changed or lost stored nodes", query=text, before=held, now=s.raw[0])
            for j in (1, 2):
                if j != i and raw[j] is None:
                    c.fail(f"{where} a query removed another file", query=text)
            c.event(f"{which} {kind}")
            c.event("refused" if not res.ok else "carried out")
            c.judged((k, which, kind, text), nontrivial=makes)
        # repaired: as before the damage
        put(db.paths[i], good[i])
        text = None
        back = db.parsed(f"after repairing the {which} file")
        check_append_only(base, back, c, f"after repairing the {which} file")
        if r.random() < 0.4:
            ses.close()
            ses = c.session()
        stmts = work.make_query(r)
        text = gen.render(stmts)
        res = ses.call("query", db.paths, text)
        if not res.ok:
            c.fail(f"after the {which} file was damaged ({kind}) and repaired a MAKE is refused: {res.exc} {res.msg}", query=text)
        after = db.parsed("after the repair and a MAKE")
        check_append_only(back, after, c, "after the repair")
        check_delta(back, after, stmts, c, "after the repair", query=text)
        check_numbers(after, c, "after the repair")
        new = set(after.all_wns()) - set(back.all_wns())
        if new & (used | set(back.all_wns())):
            c.fail("after the repair numbers were used again", numbers=sorted(new & used)[:5])
        used |= set(after.all_wns())
        c.event("repairs")
        base = after
    # the storage operations themselves
    for which in r.sample(["db", "labels", "names", "noderels", "wn"], 2):
        i = {"db": 0, "wn": 2}.get(which, 1)
        good = db.snap().raw[i]
        only = {"labels": "node_labels", "names": "relationship_names", "noderels": "node_relationships"}.get(which)
        kind, bad = damage_bytes(r, i, good, only)
        put(db.paths[i], bad)
        if which == "db":
            res = ses.call("add_db", db.paths[0], r.choice([{"990001": {"k": 1}}, {"990001": {}, "990002": {"a": [1]}}]))
        elif which == "wn":
            res = ses.call("get_wn", db.paths[2])
        elif which == "noderels":
            res = ses.call("index_add", which, db.paths[1], {"1": {2, 3}})
        else:
            res = ses.call("index_add", which, db.paths[1], {"Fresh", "New"})
        now = db.snap().raw[i]
        if res.ok or now != bad:
            c.fail(f"{'adding to' if which != 'wn' else 'reading'} a damaged {which} file ({kind}) {'was accepted' if res.ok else 'was refused and yet the file changed'}", damaged=bad, now=now, outcome=res.brief())
        put(db.paths[i], good)
        c.event(f"storage operation {which} {kind}")
        c.judged((which, kind, bad))


# ------------------------------------------------------------------------------- C31
EDGES = [100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049]
LONG = EDGES + [3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193]
HUGE = LONG + [10000, 16384, 32767, 32768, 65535, 65536, 65537]
LIMIT = 30.0


def chars(r, n, blanks=True):
    alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_" + ("  .@" if blanks else "")
    unit = "".join(r.choice(alphabet) for _ in range(r.choice([1, 7, 61, 997])))
    s = (unit * (n // len(unit) + 1))[:n]
    return "x" + s[1:-1] + "y" if n > 1 else "x"


def small_props(q):
    return gen.props(q, q.choice([0, 0, 0, 1, 2]))


def big_query(r):
    """(what, size, statements, text)"""
    what = r.choice(["patterns", "patterns", "statements", "statements", "properties", "list", "list", "string", "strings", "long name", "blanks", "dashes", "labels", "numbers"])
    lay = gen.PLAIN
    n = r.choice(EDGES)
    V = gen.Val
    if what == "patterns":
        stmts = [gen.Stmt("MAKE", [gen.pattern(r, props_fn=small_props) for _ in range(n)])]
    elif what == "statements":
        stmts = [gen.Stmt("MAKE", [gen.pattern(r, props_fn=small_props)]) for _ in range(n)]
    elif what == "labels":
        stmts = [gen.Stmt("MAKE", [gen.Pattern([gen.Node("", f"L{i}", []), gen.Node("", f"M{i}", [])], [gen.Rel("", f"R{i}" if i % 2 else f"REL_{i}", i % 3 > 0, [])]) for i in range(n)])]
    else:
        p = gen.pattern(r, props_fn=small_props)
        e = r.choice(p.nodes + p.rels)
        if what == "properties":
            e.props = [(f"k{i}", gen.val(r)) for i in range(n)]
        elif what == "list":
            n = r.choice(LONG)
            items = [gen.val(r, 1, r.choice([["int"], ["str"], None])) for _ in range(min(n, 40))]
            items = (items * (n // len(items) + 1))[:n]
            e.props = [("before", V("int", 1, "1")), ("k", V("list", [x.value for x in items], items=items)), ("after", V("int", 2, "2"))]
        elif what == "string":
            n = r.choice(HUGE)
            e.props = [("before", V("int", 1, "1")), ("k", V("str", chars(r, n))), ("after", V("int", 2, "2"))]
        elif what == "strings":
            m = r.choice([3, 10, 40])
            n = r.choice(EDGES)
            e.props = [(f"k{i}", V("str", chars(r, n))) for i in range(m)]
        elif what == "numbers":
            n = r.choice([100, 300, 999, 1000, 1001, 2000, 4000])
            t = "".join(r.choice("123456789") for _ in range(n))
            f = "0." + "".join(r.choice("0123456789") for _ in range(n))
            e.props = [("i", V("int", int(t), t)), ("f", V("float", float(f), f)), ("l", V("list", [int(t), 1], items=[V("int", int(t), t), V("int", 1, "1")]))]
        elif what == "long name":
            n = r.choice(LONG)
            long = "L" + chars(r, n - 1, blanks=False).replace("_", "a")
            for _ in range(r.choice([1, 2])):
                x = r.choice(["label", "name", "handle", "key"])
                if x == "label":
                    r.choice(p.nodes).label = long
                elif x == "name" and p.rels:
                    r.choice(p.rels).name = long.upper()
                elif x == "handle":
                    e.handle = long.lower()
                else:
                    e.props = [(long, V("int", 7, "7"))]
        stmts = [gen.Stmt("MAKE", [gen.pattern(r, props_fn=small_props), p, gen.pattern(r, props_fn=small_props)][r.choice([0, 1]):r.choice([2, 3])])]
    toks = gen.tokens(stmts, lay)
    text = gen.join(toks)
    if what in ("blanks", "dashes"):
        n = r.choice(LONG)
        if what == "dashes" and not any(q.rels for q in stmts[0].patterns):
            stmts = [gen.Stmt("MAKE", [gen.pattern(r, size=3, props_fn=small_props)])]
        plain = gen.render(stmts, lay)
        if what == "dashes":
            i = r.choice([k for k in range(len(plain) - 1) if plain[k:k + 2] in ("-[", "]-")])
            i += 1 if plain[i] == "]" else 0
            text = plain[:i] + "-" * n + plain[i:]
        else:
            spots = []
            for k, ch in enumerate(plain):
                if ch in "(){}:,[];" and plain[:k].count("'") % 2 == 0 and plain[:k].count('"') % 2 == 0:
                    if ch in "{[(:":
                        spots.append(k + 1)
                    elif ch != "[":
                        spots.append(k)
            i = r.choice(spots)
            text = plain[:i] + r.choice([" ", "\t", " \t"]) * n + plain[i:]
            text = text[: len(plain) + n + n]
    return what, n, stmts, text


def c31(c):
    r = c.r
    ses = c.session()
    db = DB(c, ses, wn=r.choice(work.OFFSETS))
    before = db.parsed("start")
    for k in range(r.choice([2, 4, 6])):
        if k and r.random() < 0.25:
            stmts = work.make_query(r)
            what, n, text = "ordinary after large", 1, gen.render(stmts, gen.layout(r))
        else:
            what, n, stmts, text = big_query(r)
        res = ses.call("query", db.paths, text)
        if res.hang or res.cpu > LIMIT:
            c.fail(f"a query of {len(text)} characters ({what}, {n}) on {len(before.raw[0])} bytes took {res.cpu:.0f} s of processor time", query=text[:3000])
        if not res.ok:
            c.fail(f"a large well-formed query ({what}, {n}) was rejected: {res.exc}: {res.msg}", query=text[:3000])
        after = db.parsed(f"after a large query ({what}, {n})")
        check_append_only(before, after, c, f"after a large query ({what}, {n})")
        check_delta(before, after, stmts, c, f"after a large query ({what}, {n})", query=text[:3000])
        check_indexes(after, c, f"after a large query ({what}, {n})")
        check_numbers(after, c, f"after a large query ({what}, {n})")
        check_integrity(after, c, f"after a large query ({what}, {n})")
        want = sum(count_elements(stmts))
        if after.wn - before.wn != want:
            c.fail(f"the next number grew by {after.wn - before.wn} for {want} elements ({what}, {n})", query=text[:3000])
        pats = [p for s in stmts for p in s.patterns]
        for p in (pats[0], pats[-1], r.choice(pats)):
            f = gen.render([gen.Stmt("FIND", [p])])
            fr = ses.call("query", db.paths, f)
            if fr.hang or fr.cpu > LIMIT:
                c.fail(f"a FIND of {len(f)} characters took {fr.cpu:.0f} s", query=f[:3000])
            if not fr.ok or "no results" in fr.out.lower():
                c.fail(f"FIND of part of a large query ({what}, {n}): {fr.brief()} {fr.out[:100]!r}", query=f[:3000])
            c.event("finds")
        absent = gen.Pattern([gen.Node("", pats[0].nodes[0].label + "q", [])], [])
        if absent.nodes[0].label not in after.labels:
            fr = ses.call("query", db.paths, gen.render([gen.Stmt("FIND", [absent])]))
            if not fr.ok or "no results" not in fr.out.lower():
                c.fail(f"FIND of an absent label after a large query: {fr.brief()} {fr.out[:100]!r}")
        c.event("large " + what)
        c.event("elements", want)
        c.peak("max_ms", int(res.cpu * 1000))
        c.peak("max_characters", len(text))
        c.peak("max_database_bytes", len(after.raw[0]))
        c.judged((what, n, hash(text)), sample=f"{what} {n}: {text[:200]}")
        before = after


SPECS = [
    Spec("C29", c29, 220, 2600, "queries of every kind, some while files cannot grow or be opened, against databases with strangers' files in their folders, unusual permissions and linked files; whole folder tree, audited writes and process state around each; distinct = (step, text)",
         floor={"writes_seen": 5000, "while files could not grow, failed": 150, "while files could not be opened, failed": 50, "linked files": 25, "unusual permissions": 30}),
    Spec("C30", c30, 260, 3000, "databases whose database, index or wiggle-number file is emptied, cut off, replaced or removed between queries and repaired afterwards; non-trivial = the query holds a MAKE",
         floor={"repairs": 400, "refused": 600, "database cut off": 60, "index cut off": 40, "wiggle number empty": 20}),
    Spec("C31", c31, 90, 900, "well-formed queries of up to 2,049 patterns, statements, properties, 8,193 list elements, characters of a name or blanks, and strings of up to 65,537 characters, with sizes around powers of two and ten, on growing databases; exact stored delta, indexes, numbers, processor time",
         floor={"large patterns": 10, "large statements": 10, "large list": 10, "large string": 5, "elements": 20000}),
]

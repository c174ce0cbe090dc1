"""C19, C22, C27: several databases, the interactive shell, and where state lives."""
import copy
import json
import os
import re
import shutil
import subprocess
import sys

from .. import gen, mutate, work
from ..core import Inconclusive, Spec, VERIF
from ..model import BadFile, Snap, parse, typed
from ..work import DB


def view(paths, c, when):
    """Content of a database without what is bound to differ between two runs (creation times)."""
    s = parse(Snap(paths), c, when)
    nodes = {}
    for w, n in s.nodes.items():
        nodes[w] = [n.label, typed(n.props), n.updated, sorted([x.wn, x.name, x.frm, x.to, typed(x.props), x.updated] for x in n.rels)]
    noderels = {k: sorted(v, key=repr) for k, v in s.noderels.items() if v}
    return {"nodes": nodes, "labels": sorted(map(str, s.labels)), "names": sorted(map(str, s.names)), "noderels": noderels, "wn": s.wn}


def outcome(res):
    return ("accepted" if res.ok else "rejected", "no results" in (res.out or "").lower())


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                ks = [x for x in list(a[k]) + list(b[k]) if a[k].get(x) != b[k].get(x)]
                return f"{k}[{ks[0]}]: {a[k].get(ks[0])!r:.300} against {b[k].get(ks[0])!r:.300}"
            return f"{k}: {a[k]!r:.300} against {b[k]!r:.300}"
    return None


def masked(text):
    """Without addresses of objects, which differ between two runs."""
    return re.sub(r"0x[0-9a-fA-F]+", "0x", text)


STEPS = {"make": 6, "norel": 2, "mixed": 2, "find": 3, "bad": 3, "damaged": 2}


def echo_find(r, stmts):
    """A FIND of something another query stored."""
    pats = [p for s in stmts for p in s.patterns]
    if not pats:
        return None
    p = r.choice(pats)
    if len(p.nodes) > 1 and r.random() < 0.5:
        k = r.randrange(len(p.nodes))
        p = gen.Pattern([p.nodes[k]], [])
    return gen.render([gen.Stmt("FIND", [p])], gen.layout(r))


def twisted(stmts, k):
    """The same statements with every label and name replaced by another of the same length and kind of letters."""
    def word(w):
        return "".join(chr((ord(x) - b + k) % 26 + b) if (b := 97 if "a" <= x <= "z" else 65 if "A" <= x <= "Z" else 0) else x for x in w)

    out = copy.deepcopy(stmts)
    for e in {id(e): e for s in out for p in s.patterns for e in p.nodes + p.rels}.values():
        if isinstance(e, gen.Node):
            e.label = word(e.label)
        elif e.name:
            e.name = word(e.name)
    return out


# ------------------------------------------------------------------------------- C19
def c19(c):
    r = c.r
    ses = c.session("all")
    n = r.choice([2, 2, 3, 4])
    flat = r.random() < 0.2
    where = os.path.join(c.dir, "dbms")
    dbs = []
    for i in range(n):
        if flat:  # files of several databases in one folder
            os.makedirs(where, exist_ok=True)
            d = DB.__new__(DB)
            d.case, d.folder, d.name = c, where, f"f{i}"
            d.paths = [os.path.join(where, f"{p}{i}") for p in ("data", "idx", "num")]
            for p, t in zip(d.paths, ("{}", '{"node_relationships": {}, "node_labels": [], "relationship_names": []}', "0")):
                with open(p, "w") as h:
                    h.write(t)
        else:
            same = r.random() < 0.3
            d = DB(c, ses, name="same" if same else f"db{'1' * (i + 1)}", folder=os.path.join(c.dir, f"folder{i}") if same else where)
        dbs.append(d)
    twins = [DB(c, ses, name="twin", folder=os.path.join(c.dir, f"twin{i}")) for i in range(n)]
    alone = [c.session(f"alone{i}") for i in range(n)]
    recent = []
    seen = []
    coarse = r.random() < 0.4  # file times as from a clock that hardly moves
    nearby = r.random() < 0.25  # the paths are given relative to a working directory that changes
    clock = 1_000_000_000
    for k in range(r.choice([8, 14, 22])):
        i = r.randrange(n)
        if coarse:
            if r.random() < 0.1:
                clock += 1
            for d in dbs + twins:
                for p in d.paths:
                    os.utime(p, (clock, clock))
            c.event("steps with coarse times")
        if r.random() < 0.08 and not flat:  # dropped and created again
            folder, name = dbs[i].folder, dbs[i].name
            if not ses.call("delete", name, folder).ok:
                c.fail(f"{name!r} could not be deleted in between")
            res = ses.call("create", name, folder)
            if not res.ok:
                c.fail(f"{name!r} could not be created again in between: {res.brief()}")
            dbs[i].paths = res.value
            twins[i] = DB(c, c.session(), name="twin", folder=os.path.join(c.dir, f"twin{i}_{k}"))
            alone[i].close()
            alone[i] = c.session(f"alone{i}")
            c.event("dropped and created again")
        text = None
        stmts = None
        if recent and r.random() < 0.3:
            text = echo_find(r, r.choice(recent))
        if text is None and coarse and recent and r.random() < 0.6:  # other words of the same lengths
            stmts = twisted(r.choice(recent), r.randint(1, 25))
            text = gen.render(stmts)
        if recent and text is None and r.random() < 0.15:
            stmts = r.choice(recent)  # the same query as another database saw
            text = gen.render(stmts)
        if text is None:
            kind, text, stmts, _ = work.step(r, STEPS)
        before = [d.snap().raw for d in dbs]
        paths = dbs[i].paths
        if nearby:
            cwd = r.choice([os.path.dirname(paths[0]), os.path.dirname(os.path.dirname(paths[0])), c.dir])
            ses.call("chdir", cwd)
            paths = [os.path.relpath(p, cwd) for p in paths]
            c.event("steps with relative paths")
        res = ses.call("query", paths, text)
        after = [d.snap().raw for d in dbs]
        for j in range(n):
            if j != i and before[j] != after[j]:
                c.fail(f"a query on database {i} changed database {j}", query=text, before=before[j], after=after[j])
        one = alone[i].call("query", twins[i].paths, text)
        if outcome(res) != outcome(one):
            c.fail(f"beside other databases the query is {outcome(res)}, with the database alone {outcome(one)}", query=text, message=(res.msg, one.msg))
        d = diff(view(dbs[i].paths, c, "beside others"), view(twins[i].paths, c, "alone"))
        if d:
            c.fail(f"beside other databases the database became different: {d}", query=text)
        if stmts and res.ok and any(s.clause == "MAKE" for s in stmts):
            recent.append(stmts)
        c.event("steps")
        c.event("accepted" if res.ok else "rejected")
        if "no results" in res.out.lower():
            c.event("no results")
        c.judged((k, i, text))
    c.event("flat layouts" if flat else "folder layouts")


# ------------------------------------------------------------------------------- C22
ODD = [
    "", " ", "\t", "help", "HELP", " help ", "Help!", "help me", "helpful", "exit", "quit", "Q", " q", "q ", "qq", "q;", "'q'", "q q", "bye", "\\q", ":q",
    "exit()", "quit()", "None", "0", ";", ";;", "y", "n", "A", "\x00", "\x1b[2J", "\x04", "\x03", "\u2028", "%s %d", "{0} {x}", "{", "}", "(", ")", "\\",
    "ðŸ", "👍", "\ud800", "MAKE", "MAKE ;", "FIND", "REPORT", "REPORT *;", "USING x;", "ADJUST (a:A);", "CRITERIA a.x = 1;", "DROP DATABASE;", "__import__('os').abort()",
    "raise SystemExit", "MAKE (help:Help {help: 'help'});", "MAKE (q:Q);", "FIND (help:Help);", "MAKE (:A{q: 'q'});", "MAKE (:A{k: 'helper'}), (:Help);", "MAKE (:A) ; q",
    "MAKE (:A{k: [1j]});", "MAKE (:A{k: [b'x']});", "FIND (a:A); REPORT b;", "FIND (a:A); FIND (a:A);", "(" * 2000, "MAKE (:" + "a" * 3000 + ");", "MAKE " + "(:A), " * 300 + "(:A);",
    "-- MAKE (:A);", "# MAKE (:A);", "// MAKE (:A);", "-- (:A);", "--", "#", "/* MAKE (:A); */", "@file", "!ls", "?", "??", ".", "..", ".help", ".quit", "\\h", "\\?", ":help", ":exit", "h", "x", "e", "stop", "end",
    "clear", "cls", "ls", "use other", "show databases", "history", "!!", "!1", "undo", "commit", "rollback", "BEGIN", "reset", "version", "--version", "-h", "--help", "source x", "EOF", "^C", "^D", "logout", "close", "abort", "restart", "verbose", "debug", "quiet",
    "MAKE (:A{k: [" + "[" * 200 + "]});", "MAKE (:A{k: " + "9" * 5000 + "});", "MAKE (:A{k: [" + "9" * 5000 + "]});", "MAKE (:A{k: [exit()]});", "MAKE (:A{k: [" + "(" * 300 + "]});",
]


FRONT = ["--", "-- ", "#", "# ", "// ", "/", ":", "\\", ".", "!", "> ", ">", "? ", "?", "@", "$ ", "%", "&", "* ", "; ", "help ", "q ", "exit ", "wql> ", "EXPLAIN ", "'", "| ", "~", "\t", " ", "    ", "\ufeff", "\x00", "0 ", "1. ", "- ", "use x; ", "echo "]
BACK = [" -- note", " # note", "// note", "\\", " \\", ";;", " ;", "&", "| cat", " > out", " q", "; q", "\nq", " help", "?", "!", "\t", " ", "\x1a", "\x04", "...", " \\G", " go"]


def shell_lines(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        if out and x < 0.15:  # a line entered before, often the last one
            out.append(r.choice([out[-1], out[-1], r.choice(out), out[-1] + " "]))
        elif x < 0.38:
            out.append(r.choice(ODD))
        else:
            kind, text, _, _ = work.step(r, STEPS)
            text = text.replace("\r", " ").replace("\n", " ") if r.random() < 0.7 else text
            if r.random() < 0.15:
                text = r.choice(FRONT) + text
            elif r.random() < 0.08:
                text += r.choice(BACK)
            out.append(text)
    return [x for x in out if x != "q"]


def start_lines(r, c, api_ses, root):
    """How the session gets to its database: (lines, name)."""
    folder = os.path.join(root, "dbms")
    others = ["aaa", "zzz"] if r.random() < 0.4 else []
    for o in others:
        res = api_ses.call("create", o, folder)
        if res.ok and r.random() < 0.5:
            api_ses.call("query", res.value, "MAKE (:A)-[:R]->(:B);")
    name = r.choice(["mine", "help", "q", "main db", "m1"])
    if r.random() < 0.5:
        return [r.choice(["n", "no", ""])] + ([others[0]] if others and r.random() < 0.5 else []) + [name], name, others
    res = api_ses.call("create", name, folder)
    if not res.ok:
        raise Inconclusive("cannot create")
    letter = "ABC"[sorted(others + [name]).index(name)]
    return [r.choice(["y", "yes"])] + (["?", "zz"] if r.random() < 0.3 else []) + [letter], name, others


def tree_paths(folder, name):
    d = os.path.join(folder, name)
    return [os.path.join(d, f"database_{name}.json"), os.path.join(d, f"indexes_{name}.json"), os.path.join(d, f"wiggle_number_{name}.txt")]


class Held:
    """A database as found in a recorded snapshot of the folder."""

    def __init__(self, probe, name):
        self.raw = [probe.get(f"{name}/database_{name}.json"), probe.get(f"{name}/indexes_{name}.json"), probe.get(f"{name}/wiggle_number_{name}.txt")]


def held_view(probe, name, c, when):
    s = Snap([])
    s.paths = tree_paths("", name)
    s.raw = Held(probe, name).raw
    try:
        s.parse()
    except BadFile as e:
        c.fail(f"{when}: {e}")
    nodes = {}
    for w, n in s.nodes.items():
        nodes[w] = [n.label, typed(n.props), n.updated, sorted([x.wn, x.name, x.frm, x.to, typed(x.props), x.updated] for x in n.rels)]
    noderels = {k: sorted(v, key=repr) for k, v in s.noderels.items() if v}
    return {"nodes": nodes, "labels": sorted(map(str, s.labels)), "names": sorted(map(str, s.names)), "noderels": noderels, "wn": s.wn}


def is_help(line):
    return line.strip().lower() == "help"


def c22(c):
    r = c.r
    root = c.env.root
    folder = os.path.join(root, "dbms")
    shutil.rmtree(folder, ignore_errors=True)
    try:
        _c22(c, r, root, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def _c22(c, r, root, folder):
    setup = c.session("setup")
    start, name, others = start_lines(r, c, setup, root)
    twin = DB(c, setup, name=name, folder=os.path.join(c.dir, "twin"))
    lines = shell_lines(r, r.choice([4, 8, 14]))
    separate = c.index % 12 == 7  # as a process of its own, fed through standard input
    if separate:
        lines = [x for x in lines if "\r" not in x and "\n" not in x and "\u2028" not in x and "\ud800" not in x and "\x1c" not in x]
        return _separate(c, r, root, folder, setup, start, name, twin, lines)
    leaves = r.random() < 0.8
    after_q = ["MAKE (:AfterTheEnd);", "q"]
    ses = c.session("shell")
    entered = start + lines + (["q"] + after_q if leaves else [])
    res = ses.call("shell", folder, entered)
    used = len(start) + len(lines) + 1
    if leaves:
        if not res.ok:
            c.fail(f"the session did not end normally on q: {res.brief()}", entered=entered[-8:], read=len(res.log))
        if len(res.log) != used:
            c.fail(f"the session read {len(res.log)} lines, the q was in line {used}", last_read=entered[len(res.log) - 1] if 0 < len(res.log) <= len(entered) else None, entered=entered)
        c.event("sessions left with q")
    else:
        if res.exc != "Exhausted" or len(res.log) != used:
            last = entered[len(res.log) - 1] if 0 < len(res.log) <= len(entered) else None
            c.fail(f"the session ended by itself: {res.brief()}", last_line=last, entered=entered)
        c.event("sessions without q")
    base = len(start)
    ones = []
    direct = c.session("direct")
    prev = None
    for i, line in enumerate(lines):
        if r.random() < 0.1:
            direct.close()
            direct = c.session("direct")
        one = direct.call("query", twin.paths, line)
        ones.append(one)
        entry = res.log[base + i + 1] if base + i + 1 < len(res.log) else None
        probe = entry["probe"] if entry else res["end_probe"]
        got = held_view(probe, name, c, f"after shell line {line[:200]!r}")
        want = view(twin.paths, c, "direct")
        d = diff(got, want)
        if d:
            c.fail(f"a shell line had another effect than the query by itself: {d}", line=line, alone=one.brief(), earlier=lines[:i])
        shown = (entry["out"] if entry else res.out)[len(res.log[base + i]["out"]):]
        found = "no results" in shown.lower().replace(line.lower(), "")
        if found != ("no results" in one.out.lower()) and "no results" not in line.lower():
            c.fail(f"'No results' was {'' if found else 'not '}shown for a shell line, unlike for the query by itself", line=line, shown=shown)
        if not one.ok and not is_help(line):
            body = shown.replace(line, "", 1)
            msg = one.msg.strip()
            if msg and twin.folder not in msg and masked(msg) not in masked(shown):
                c.fail("a rejected line did not produce its error message", line=line, message=msg, shown=shown)
            if not msg and one.exc is None:
                c.event("errors without a text")
            c.event("rejected lines")
        elif one.ok:
            c.event("accepted lines")
        else:
            c.event("help lines")
        prompt = res.log[base + i]["prompt"]
        if prev is not None and prompt != prev:
            c.fail(f"line {line!r} was asked for by {prompt!r}, the ones before by {prev!r}", lines=lines[:i])
        prev = prompt
        foreign = {k: v for k, v in probe.items() if not k.startswith(name + "/")}
        first = {k: v for k, v in res.log[base]["probe"].items() if not k.startswith(name + "/")}
        if foreign != first:
            c.fail("a shell line changed other databases", line=line)
        c.judged((tuple(lines[:i][-3:]), line), sample=line[:300])
    end = held_view(res["end_probe"], name, c, "at the end")
    d = diff(end, view(twin.paths, c, "direct"))
    if d:
        c.fail(f"after the session the database differs from direct execution: {d}", entered=entered)


def _separate(c, r, root, folder, setup, start, name, twin, lines):
    enc = r.choice(["utf-8", "utf-8", "utf-8", "latin-1", "ascii"])
    try:
        "".join(start).encode(enc)
    except UnicodeEncodeError:
        enc = "utf-8"
    raw, undecodable = [], set()
    for i, line in enumerate(lines):
        try:
            b = line.encode(enc)
        except UnicodeEncodeError:
            b = line.encode("utf-8")  # entered in another encoding than the one of the terminal
        if r.random() < 0.15:
            at = r.randint(0, len(b))
            b = b[:at] + r.choice([b"\xff", b"\xe9", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80"]) + b[at:]
        raw.append(b)
        try:
            lines[i] = b.decode(enc)
        except UnicodeDecodeError:
            lines[i] = b.decode(enc, "replace")
            undecodable.add(i)
    env = dict(os.environ, PYTHONHASHSEED=str(r.randint(0, 999)), PYTHONIOENCODING=enc, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF)
    env.pop("LD_PRELOAD", None)
    text = b"\n".join([*(x.encode(enc) for x in start), *raw, b"q", b"MAKE (:AfterTheEnd);"]) + b"\n"
    try:
        p = subprocess.run([sys.executable, "-m", "harness.shellmain", root], input=text, capture_output=True, timeout=200, cwd=c.dir, env=env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the shell process did not end")
    out = p.stdout.decode(enc, "replace")
    if p.returncode != 0:
        c.fail(f"the shell process ended with status {p.returncode} (input and output in {enc})", shown=out[-800:], errors=p.stderr.decode("utf-8", "replace")[-800:], entered=start + lines)
    direct = c.session("direct")
    for i, line in enumerate(lines):
        one = direct.call("query", twin.paths, line)
        c.event("undecodable lines", i in undecodable)
        if i not in undecodable and not one.ok and not is_help(line) and one.msg.strip() and twin.folder not in one.msg and masked(one.msg.strip()) not in masked(out):
            c.fail("a rejected line did not produce its error message", line=line, message=one.msg, shown=out[-1500:])
    got = view(tree_paths(folder, name), c, "after the shell process")
    d = diff(got, view(twin.paths, c, "direct"))
    if d:
        c.fail(f"after the shell process the database differs from direct execution: {d}", entered=start + lines)
    c.event("sessions as processes")
    if enc != "utf-8":
        c.event("sessions in other encodings")
    c.event("lines in processes", len(lines))
    c.judged(("process", tuple(lines)), sample=lines[:3])


# ------------------------------------------------------------------------------- C27
SURROUNDINGS = {
    "time zone": {"TZ": "Pacific/Kiritimati"}, "time zone far west": {"TZ": "XYZ+12:30"},
    "ASCII": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "UTF-8": {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}, "UTF-8 mode": {"LC_ALL": "C", "PYTHONUTF8": "1"},
    "optimised": {"PYTHONOPTIMIZE": "1"}, "doc strings off": {"PYTHONOPTIMIZE": "2"}, "debug allocator": {"PYTHONMALLOC": "debug"},
    "no home": {"HOME": "/nonexistent", "USER": "", "LOGNAME": "", "TMPDIR": "/nonexistent"}, "narrow": {"COLUMNS": "10", "LINES": "3", "TERM": "dumb", "NO_COLOR": "1"},
    "int digits": {"PYTHONINTMAXSTRDIGITS": "4300"}, "unbuffered": {"PYTHONUNBUFFERED": "1"},
}


def solo(c, paths, texts, r, tag):
    """The queries in a new Python process with surroundings of its own: hash seed, working directory, locale, time zone, ..."""
    root = os.path.join(c.dir, f"solo{tag}")
    os.makedirs(root, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(r.randint(0, 9999)), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, PYTHONIOENCODING="utf-8")
    for what in r.sample(sorted(SURROUNDINGS), r.choice([0, 1, 1, 2, 3])):
        env.update(SURROUNDINGS[what])
        c.event("surroundings: " + what)
    job = {"root": root, "cwd": r.choice([None, "/", c.dir]), "paths": paths, "texts": texts, "allowed": [c.dir], "umask": r.choice([None, 0, 0o077, 0o027])}
    if r.random() < 0.3:  # paths from where the process is
        job["cwd"] = r.choice([c.dir, os.path.dirname(paths[0]), root])
        job["paths"] = [os.path.relpath(p, job["cwd"]) for p in paths]
        c.event("relative paths")
    try:
        p = subprocess.run([sys.executable, "-m", "harness.solo"], input=json.dumps(job).encode(), capture_output=True, timeout=240, cwd=VERIF, env=env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the separate process did not end")
    if p.returncode != 0:
        raise Inconclusive("separate process: " + p.stderr.decode("utf-8", "replace")[-1500:])
    from ..core import Out

    return [Out(x) for x in json.loads(p.stdout.decode("utf-8").splitlines()[-1])]


def c27(c):
    r = c.r
    one = c.session("one")
    wn = r.choice(work.OFFSETS)
    db1 = DB(c, one, name="whole", folder=os.path.join(c.dir, "w"), wn=wn)
    db2 = DB(c, one, name=r.choice(["whole", "split"]), folder=os.path.join(c.dir, "s"), wn=wn)
    texts = []
    have = []
    turns = c.index % 3 == 1  # processes taking turns, looking for the same things before and after they are made
    for _ in range(r.choice([4, 7, 12])):
        t = None
        if turns and r.random() < 0.7:
            s = work.make_query(r)
            f = echo_find(r, s)
            if f:
                texts.append(f)
            texts.append(gen.render(s, gen.layout(r)))
            if f:
                texts.append(f)
            have.append(s)
            continue
        if have and r.random() < 0.25:
            t = echo_find(r, r.choice(have))
        if have and t is None and r.random() < 0.1:
            t = r.choice(texts)
        if t is None:
            _, t, s, _ = work.step(r, STEPS)
            if s:
                have.append(s)
        texts.append(t)
    battery = c.index % 8 == 2 and c.index % 16 == 2
    if battery:  # a battery of texts that are mostly refused, for the new interpreters
        texts += [work.step(r, {"bad": 5, "damaged": 4, "make": 1})[1] for _ in range(50)]
        c.event("batteries of bad texts")
    elif c.index % 8 == 2:  # several statements of several patterns each
        for _ in range(4):
            texts.append(gen.render([gen.Stmt("MAKE", [gen.pattern(r) for _ in range(r.choice([1, 2, 3, 4, 6]))]) for _ in range(r.choice([2, 3, 5]))], gen.layout(r)))
        r.shuffle(texts)
    if c.index % 10 == 6:
        pats = [gen.pattern(r, size=3) for _ in range(60)]
        texts.insert(r.randint(0, len(texts)), gen.render([gen.Stmt("MAKE", pats)]))
    whole = [one.call("query", db1.paths, t) for t in texts]
    # the same history, split
    paths = db2.paths
    split = []
    i = 0
    cut = 0
    way = r.choice(["every", "some", "some"])
    heavy = c.index % 8 == 2
    coarse = r.random() < 0.3
    together = True
    keep = turns or r.random() < 0.5
    if turns:
        way = "every"
    live = []
    while i < len(texts):
        n = 1 if way == "every" else r.randint(1, max(1, len(texts) // 2))
        if heavy and cut < 3:
            n = max(1, len(texts) // 3)
        part = texts[i : i + n]
        cut += 1
        if heavy and cut <= 3:
            split += solo(c, paths, part, r, cut)
            c.event("parts in a new interpreter")
        else:
            if live and r.random() < (0.8 if turns else 0.6):  # a process that was here before, others having been at work meanwhile
                s = r.choice(live)
                c.event("parts in an earlier process")
            else:
                s = c.session(f"part{cut}")
            if r.random() < 0.4:
                s.call("chdir", r.choice([c.dir, "/", os.path.dirname(paths[0])]))
            if r.random() < 0.2:
                s.call("umask", r.choice([0, 0o077, 0o027]))
            if coarse:
                for p in paths:
                    os.utime(p, (10**9, 10**9))
            if r.random() < 0.3:  # a session that first does something else
                other = DB(c, s, folder=os.path.join(c.dir, "else"))
                s.call("query", other.paths, gen.render(work.make_query(r)))
                c.event("sessions busy elsewhere before")
            given = paths
            if r.random() < 0.3:
                cwd = r.choice([os.path.dirname(paths[0]), os.path.dirname(os.path.dirname(paths[0]))])
                s.call("chdir", cwd)
                given = [os.path.relpath(p, cwd) for p in paths]
                c.event("parts with relative paths")
            split += [s.call("query", given, t) for t in part]
            if keep and len(live) < 3:
                if s not in live:
                    live.append(s)
            elif s not in live:
                s.close()
            c.event("parts")
        i += n
        if r.random() < (0.1 if turns else 0.4) and i < len(texts):  # moved between the parts
            x = r.random()
            new = os.path.join(c.dir, f"moved{cut}")
            os.mkdir(new)
            if x < 0.6 and together:
                old = os.path.dirname(paths[0])
                shutil.move(old, os.path.join(new, os.path.basename(old)))
                paths = [os.path.join(new, os.path.basename(old), os.path.basename(p)) for p in paths]
            else:  # under other names, each file somewhere else
                dst = []
                for k, p in enumerate(paths):
                    d = os.path.join(new, f"part{k}")
                    os.mkdir(d)
                    dst.append(os.path.join(d, ["graph.json", "ix", "n.txt"][k]))
                    shutil.move(p, dst[-1])
                paths = dst
                together = False
            c.event("moves")
    for k, (a, b) in enumerate(zip(whole, split)):
        if outcome(a) != outcome(b):
            c.fail(f"query {k} is {outcome(a)} in one session and {outcome(b)} in a history split over {cut} processes", query=texts[k], messages=(a.msg, b.msg))
        c.event("outcomes compared")
        c.event("accepted" if a.ok else "rejected")
    d = diff(view(db1.paths, c, "one session"), view(paths, c, f"split over {cut} processes"))
    if d:
        c.fail(f"the history in one session and split over {cut} processes gave different databases: {d}", texts=texts)
    c.judged((tuple(texts), cut), sample=texts[:2])


SPECS = [
    Spec("C19", c19, 220, 2500, "2-4 databases in one session (same names in different folders, dropped and created again, files side by side) with interleaved queries of every kind, each against a twin alone in its own session; distinct (position, database, text)",
         floor={"steps": 1500, "dropped and created again": 60, "accepted": 1000, "rejected": 300, "no results": 150, "flat layouts": 15}),
    Spec("C22", c22, 260, 2500, "scripted shell sessions (start dialogs; good, ill-formed, damaged and odd lines; with and without q), files recorded at every prompt and compared with direct execution on a twin; some sessions as processes fed through standard input in several encodings, with undecodable lines; distinct (recent lines, line)",
         floor={"undecodable lines": 10, "sessions in other encodings": 2, "accepted lines": 500, "rejected lines": 500, "sessions left with q": 100, "sessions without q": 20, "sessions as processes": 10, "help lines": 5}),
    Spec("C27", c27, 220, 2500, "each history is run in one session and, on another database, split over processes (forked ones, at work in turns or one after another, new interpreters with other hash seeds, working directories, relative paths, locales, time zones, optimisation levels and file-creation masks) with the files moved in between; distinct (texts, parts)",
         floor={"parts": 400, "moves": 150, "parts in a new interpreter": 25, "parts in an earlier process": 100, "outcomes compared": 1000, "surroundings: ASCII": 3, "relative paths": 10}),
]

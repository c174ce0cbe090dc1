"""C15-C18: creating, opening, deleting, listing and choosing databases."""
import html
import json
import os
import shutil
import unicodedata
import urllib.parse

from .. import gen, work
from ..core import Inconclusive, Spec, Violation
from ..model import BadFile, Snap, check_delta, check_indexes, count_elements, parse, parse_json
from ..ops import snapshot_tree

PLAIN = [
    "db", "db1", "db2", "db10", "db_db1", "Db", "DB", "a", "A", "b", "aa", "x", "test", "Graph", "my db", "two  blanks",
    "a.b", "a..b", "v1.0", ".hidden", "..x", "...", "trailing.", "name-with-dash", "-rf", "--help", "under_score", "database",
    "database_db", "indexes", "wiggle_number", "wiggle_number_db", "db.json", "database_db.json", "0", "007", "1e5",
    "naïve", "Ünïcödé", "東京", "ключ", "emoji😀", "e\u0301", "q", "y", "n", "yes", "help", "None", "null", "make", "~", "$HOME", "%s",
    "{x}", "{}", "a;b", "a&b", "a|b", "a>b", "a'b", 'a"b', "a\\b", "a:b", "C:", "a,b", "#1", "!", "(x)", "replacement.tmp",
    "lead ", " lead", "\ttab", "new\nline", "dbs", "d", "dbdb", "log", "tests2", "N" * 100, "é" * 60,
]
GLOBBY = ["*", "?", "d*", "db*", "db?", "??", "[a-z]", "[abd]b", "db[12]", "[!x]*", "**", "db1*", "a[", "]", "[", "[]", "[*]", "d[b]", "*.json", "database_*", "{db,db1}"]
SUFFIXES = ["~", "~1", "~old", ".bak", ".old", ".tmp", ".1", "-1", "_1", " 1", " (1)", "(1)", " copy", "_backup", "-backup", "_old", "_tmp", "#", "#1", "@", "@2", "+", "=", ",", ";", "!", "$", "%", "^", "&", "'", ".json", ".txt", ".d", ".lock", ".swp", "_copy", ":", "x", "s", "2", "0"]
HIDDEN = {"tests", "__pycache__"}
# Harmless as they are, but not once somebody normalises, trims, decodes or expands them
TWISTED = [
    "\uff0e\uff0e", "\u2025", "\uff0e", "..\uff0foutside\uff0fvictim", "\uff0e\uff0e\uff0foutside", "\uff0fetc", "..\u2215outside", "..\u2044outside", "\u2024\u2024",
    " ..", ".. ", "..\t", "\n..", " .", ". ", " ", "\t", "\n", "\u00a0", "\u3000..", "..\u200b", "\ufeff..", "%2e%2e", "..%2f", "%2e%2e%2foutside", "%2Foutside",
    "..\\", "..\\outside\\victim", "\\outside", "$HOME", "${HOME}", "$PWD", "~", "~root", "%HOME%", "`pwd`", "$(pwd)", "'..'", '".."', "{..}", "file:..", "..;", "..#", "..?x",
    "&#46;&#46;", "\\x2e\\x2e", "\\056\\056", "$OLDPWD", "..\r", "\x7f..", "..\x1b", "(..)", "[.][.]", "*", "..*", ".?", "?.", "{.,.}.", "victim\t", "outside",
]


def word(r):
    return "".join(r.choice("abcdefghijXYZ019_-. ") for _ in range(r.randint(1, 9))).strip(". ") or "w"


def pick_name(r):
    x = r.random()
    if x < 0.55:
        return r.choice(PLAIN)
    if x < 0.75:
        return r.choice(GLOBBY)
    return word(r)


def names(r, n):
    """Different names, many of them related to each other."""
    out = []
    while len(out) < n:
        x = r.random()
        if out and x < 0.3:
            base = r.choice(out)
            nm = r.choice([base + "1", base + "_", base + " ", base[:-1], base.upper(), base.lower(), base + "*", base[:1] + "*", base[:-1] + "?", " " + base, base + "\t", base.swapcase(), "".join(chr(ord(x) + 0xFEE0) if "!" <= x <= "~" else x for x in base), unicodedata.normalize("NFD", base), unicodedata.normalize("NFKC", base), "database_" + base, base + base, "[" + base + "]", base + "." + base, base + r.choice(SUFFIXES), r.choice(SUFFIXES) + base])
        else:
            nm = pick_name(r)
        if nm and nm not in out and nm not in HIDDEN and nm not in (".", "..") and "/" not in nm and "\0" not in nm and len(nm.encode()) <= 200:
            out.append(nm)
    return out


def near(r, name):
    """A name that is almost the other one: somebody trimming, folding, completing or matching would take it for that."""
    folds = [name.swapcase(), name.upper(), name.lower(), name.casefold(), name.title(), name.capitalize(), name[:1].swapcase() + name[1:], name[:-1] + name[-1:].swapcase()]
    forms = [unicodedata.normalize(f, name) for f in ("NFC", "NFD", "NFKC", "NFKD")]
    edges = [name + x for x in (" ", "\t", "\n", ".", "_", "*", "?", "\\", ";", ",")] + [x + name for x in (" ", ".", "_", "\t", "-")]
    parts = [name.strip(), name.strip("._- "), name[:-1], name[1:], name.split(".")[0], name.split()[0] if name.split() else "", name.rsplit("_", 1)[0], name.replace(" ", "_"), name.replace("_", " "), name.replace("-", "_"), name.replace(" ", "")]
    dress = [f"'{name}'", f'"{name}"', f"database_{name}", f"database_{name}.json", name + ".json", f"indexes_{name}", f"[{name}]", name.removeprefix("database_"), name.removesuffix(".json"), f"{name}{name}", name[::-1]]
    nm = r.choice(r.choice([folds, folds, folds, forms, edges, parts, dress]))
    if not nm or nm in HIDDEN or nm in (".", "..") or "/" in nm or "\0" in nm or len(nm.encode()) > 200:
        return None
    return nm


def sub(tree, name):
    """Entries of the tree belonging to a name directly below its root."""
    return {k: v for k, v in tree.items() if k == name + "/" or k.startswith(name + "/")}


def rest(tree, name):
    s = sub(tree, name)
    return {k: v for k, v in tree.items() if k not in s}


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0) or (k in a) != (k in b))


def own_paths(folder, name):
    d = os.path.join(folder, name)
    return [os.path.join(d, f"database_{name}.json"), os.path.join(d, f"indexes_{name}.json"), os.path.join(d, f"wiggle_number_{name}.txt")]


def check_empty(paths, when):
    try:
        s = Snap(paths).parse()
    except BadFile as e:
        raise Violation(f"{when}: {e}")
    if s.db or s.labels or s.names or any(s.noderels.values()) or s.wn != 0:
        raise Violation(f"{when}: the new database is not empty", content=s.raw)


def usable(c, ses, paths, when, fresh=True):
    """A MAKE on it works, and what it made is found."""
    before = parse(Snap(paths), c, when)
    stmts = work.make_query(c.r)
    text = gen.render(stmts)
    res = ses.call("query", paths, text)
    if not res.ok:
        c.fail(f"{when}: a MAKE was rejected: {res.exc}: {res.msg}", query=text)
    after = parse(Snap(paths), c, when)
    check_delta(before, after, stmts, c, when, query=text)
    check_indexes(after, c, when)
    if fresh and after.wn != sum(count_elements(stmts)):
        c.fail(f"{when}: after {sum(count_elements(stmts))} elements the next number is {after.wn}", query=text)
    text = gen.render([gen.Stmt("FIND", [c.r.choice(stmts[0].patterns)])])
    res = ses.call("query", paths, text)
    if not res.ok or "no results" in res.out.lower():
        c.fail(f"{when}: what was made is not found: {res.brief()} {res.out[:100]!r}", query=text)


def norm(p):
    return os.path.normpath(p)


def expect_paths(c, folder, name, value, when):
    """The three paths are three different files inside the database's own folder."""
    d = norm(os.path.join(folder, name))
    if len(value) != 3 or len({norm(p) for p in value}) != 3:
        c.fail(f"{when}: {value}")
    for p in value:
        if os.path.dirname(norm(p)) != d:
            c.fail(f"{when}: {p} does not lie in {d}")


def fresh(c, sub="dbms"):
    folder = os.path.join(c.dir, sub)
    return folder


def fill(c, ses, folder, ns, queries=True):
    """Creates databases through the code under test; name -> paths."""
    out = {}
    for n in ns:
        r = ses.call("create", n, folder)
        if not r.ok:
            c.fail(f"creating a database under the new name {n!r} failed: {r.exc}: {r.msg}", existing=list(out))
        out[n] = r.value
        if queries and c.r.random() < 0.6:
            ses.call("query", r.value, gen.render(work.make_query(c.r)))
    return out


# ------------------------------------------------------------------------------- C15
def c15(c):
    r = c.r
    folder = os.path.join(c.dir, r.choice(["dbms", "deep/er/dbms", "with blank", "g[l]ob*"]))
    ses = c.session()
    have = {}
    partial = {}  # name -> which files exist
    gone = set()  # deleted
    pool = names(r, 14)
    for step in range(r.choice([6, 10, 14])):
        if r.random() < 0.15:
            ses.close()
            ses = c.session()
        tree = snapshot_tree(c.dir)
        x = r.random()
        free = [n for n in pool if n not in have and n not in partial]
        if have and r.random() < 0.15:
            name = r.choice(sorted(have))
            usable(c, ses, have[name], f"later, {name!r}", fresh=False)
            ses.call("query", have[name], gen.render(work.find_query(r)))
            if r.random() < 0.7:
                res = ses.call("delete", name, folder)
                if not res.ok:
                    c.fail(f"{name!r} cannot be deleted: {res.exc}: {res.msg}")
                if sub(snapshot_tree(folder), name):
                    c.fail(f"{name!r} was deleted and is still there")
                del have[name]
                gone.add(name)
                c.event("deleted")
            continue
        if x < 0.4 and free:
            back = [n for n in free if n in gone]
            name = r.choice(back if back and r.random() < 0.5 else free)
            stray = r.random() < 0.12
            if stray:  # a folder that is no database (yet): whatever lies in it stays as it is
                d = os.path.join(folder, name)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "notes.txt"), "w") as h:
                    h.write("mine")
                tree = snapshot_tree(c.dir)
            x2 = r.random()
            if x2 < 0.6:
                res = ses.call("create", name, folder)
            else:  # through the dialog, after some names in use
                wrong = r.sample(sorted(have), min(len(have), r.choice([0, 1, 3])))
                res = ses.call("create_dialog", folder, wrong + [name, "never asked"])
                if res.ok and len(res.log) != len(wrong) + 1:
                    c.fail(f"{len(res.log)} names were asked for, the {len(wrong) + 1}th was free", entered=wrong + [name])
            when = f"creating {name!r}"
            if not res.ok:
                if stray:
                    c.event("refused over a stray folder")
                    continue
                c.fail(f"{when} failed: {res.exc}: {res.msg}", existing=sorted(have), partial=partial)
            expect_paths(c, folder, name, res.value, when)
            after = snapshot_tree(c.dir)
            pre = os.path.relpath(folder, c.dir) + "/" + name
            missing = [k for k in tree if k not in after or after[k] != tree[k]]
            if missing:
                c.fail(f"{when} changed {missing[:4]}", existing=sorted(have))
            new = [k for k in after if k not in tree and not os.path.relpath(folder, c.dir).startswith(k.rstrip("/"))]
            foreign = [k for k in new if not (k == pre + "/" or k.startswith(pre + "/"))]
            if foreign:
                c.fail(f"{when} also created {foreign[:4]}", existing=sorted(have))
            check_empty(res.value, when)
            gone.discard(name)
            got = ses.call("open_", name, folder)
            if not got.ok or [norm(p) for p in got.value] != [norm(p) for p in res.value]:
                c.fail(f"{when}: looked up again it is {got.brief()}", created=res.value)
            usable(c, ses, res.value, f"after {when}")
            have[name] = res.value
            c.event("created")
        elif x < 0.55 and free:
            name = r.choice(free)  # only some of its files exist
            parts = r.choice([["db"], ["indexes"], ["wn"], ["db", "wn"], ["indexes", "wn"], ["db", "indexes"]])
            by_code = r.random() < 0.5
            for w in parts:
                if by_code:
                    res = ses.call("create_part", w, name, folder)
                    if not res.ok:
                        c.fail(f"creating the {w} file of {name!r} failed: {res.exc}: {res.msg}")
                    path = own_paths(folder, name)[["db", "indexes", "wn"].index(w)]
                    if norm(res.value) != norm(path) and os.path.dirname(norm(res.value)) != os.path.dirname(norm(path)):
                        c.fail(f"the {w} file of {name!r} was put at {res.value}")
                    look = ses.call("open_part", w, name, folder)
                    if not look.ok or norm(look.value) != norm(res.value):
                        c.fail(f"the {w} file of {name!r} cannot be looked up again: {look.brief()}", created=res.value)
                    again = snapshot_tree(c.dir)
                    res2 = ses.call("create_part", w, name, folder)
                    if res2.ok:
                        c.fail(f"the {w} file of {name!r} was created twice")
                    if snapshot_tree(c.dir) != again:
                        c.fail(f"creating the {w} file of {name!r} a second time changed {differ(again, snapshot_tree(c.dir))[:4]}")
                else:
                    p = own_paths(folder, name)[["db", "indexes", "wn"].index(w)]
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as h:
                        h.write(r.choice({"db": ['{"0": {}}', "{}", "", "{", " ", "\n"], "indexes": ['{"node_relationships": {}, "node_labels": ["L"], "relationship_names": []}', "{}", "", "[", "\n"], "wn": ["42", "0", "", " ", "\n", "x", "00", "-1"]}[w]))
                    c.event("files with odd contents in the way")
            partial[name] = parts
            c.event("partial databases made")
        elif x < 0.8 and have:
            name = r.choice(sorted(have))  # in use as a whole
            res = ses.call("create", name, folder)
            if res.ok:
                c.fail(f"{name!r} was created although it exists")
            after = snapshot_tree(c.dir)
            if after != tree:
                c.fail(f"refusing {name!r} changed {differ(tree, after)[:4]}")
            got = ses.call("open_", name, folder)
            if not got.ok:
                c.fail(f"{name!r} cannot be opened after a second creation was refused: {got.brief()}")
            c.event("refused, in use")
        elif partial:
            name = r.choice(sorted(partial))
            res = ses.call("create", name, folder)
            if res.ok:
                c.fail(f"{name!r} was created although its {partial[name]} exist")
            after = snapshot_tree(c.dir)
            lost = [k for k, v in tree.items() if after.get(k, 0) != v or k not in after]
            if lost:
                c.fail(f"refusing {name!r} (whose {partial[name]} exist) changed {lost[:4]}")
            pre = os.path.relpath(folder, c.dir) + "/" + name + "/"
            foreign = [k for k in after if k not in tree and not k.startswith(pre)]
            if foreign:
                c.fail(f"refusing {name!r} created {foreign[:4]}")
            c.event("refused, partly in use " + "+".join(partial[name]))
        else:
            continue
        c.judged((name, tuple(sorted(have)), step), sample=f"{name!r} among {sorted(have)}")


# ------------------------------------------------------------------------------- C16
def hostile(r, c, legit):
    base = os.path.join(c.dir, "outside")
    victim = r.choice(legit)
    return r.choice([
        "", ".", "..", "/", "./", "../", "../..", "./.", "../outside", "../outside/victim", "..//outside", "sub/dir", "a/b/c",
        f"../dbms/{victim}", f"{victim}/.", f"{victim}/..", f"{victim}/../{victim}", f"./{victim}", f"{victim}/", f"{victim}//", f"{victim}/sub",
        f"/{victim}", base, base + "/victim", base + "/new", os.path.join(c.dir, "dbms", victim), c.dir, os.path.join(c.dir, "dbms"),
        "x/../../outside/victim", f"{victim}/../../outside", "../" * 3 + "x", "\0", "a\0b", "../\0", "~/x", "..\\..\\x/y", " /x", "x/ ", "new/..", "new/../..",
        "*/..", "../*", "../outside/*", "//", "///x", "./..", "a/..", "outside/../../outside/victim",
    ])


def padded(r):
    """A name that is a hostile one but for something around it that somebody may take off."""
    pad = lambda: r.choice(["", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\ufeff", "'", '"', "`", "\x0b", "\x1c", "\u2003", ";", "#"])
    return pad() + r.choice(["..", "..", ".", ""]) + pad() + r.choice([" ", "\t", "\n", "\u00a0", "'"])


def decoys(c, dbms, name):
    """Files at the places the name would lead to, where those lie in this case's folder."""
    out = []
    if "\0" in name:
        return out
    for f in (f"database_{name}.json", f"indexes_{name}.json", f"wiggle_number_{name}.txt"):
        p = os.path.join(dbms, f"{name}/{f}")
        full = os.path.realpath(p)
        if not full.startswith(c.dir + os.sep) or len(full) > 3000:
            continue
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                with open(p, "w") as h:
                    h.write({"d": "{}", "i": '{"node_relationships": {}, "node_labels": [], "relationship_names": []}', "w": "0"}[f[0]])
            out.append(p)
        except OSError:
            pass
    return out


def turned(name):
    """What a name becomes that is trimmed, normalised, decoded or unquoted, where that leads away from its own folder."""
    out = set()
    for f in (
        str.strip, str.lstrip, str.rstrip, lambda x: x.strip("'\"` "), lambda x: x.strip("\ufeff\u200b\x7f\x1b "), urllib.parse.unquote, html.unescape, lambda x: x.replace("\\", "/"),
        lambda x: unicodedata.normalize("NFKC", x), lambda x: unicodedata.normalize("NFKD", x), lambda x: "".join(k for k in x if k.isprintable()), lambda x: "".join(x.split()),
        lambda x: x.encode("ascii", "ignore").decode(), lambda x: x.strip("(){}[];#:"), lambda x: x.replace("\u2215", "/").replace("\u2044", "/"), lambda x: x.split(";")[0].split("#")[0].split("?")[0],
    ):
        for y in (f(name), f(name).strip()):
            if y != name and (y in ("", ".", "..") or "/" in y):
                out.add(y)
    return sorted(out)


def chown_tree(folder, uid):
    for base, dirs, files in os.walk(folder):
        for n in dirs + files:
            os.chown(os.path.join(base, n), uid, uid, follow_symlinks=False)
    os.chown(folder, uid, uid)


def c16(c):
    r = c.r
    dbms = os.path.join(c.dir, "dbms")
    os.makedirs(dbms)
    out = os.path.join(c.dir, "outside", "victim")
    os.makedirs(out)
    for p, t in zip(own_paths(os.path.dirname(out), "victim"), ("{}", '{"node_relationships": {}, "node_labels": [], "relationship_names": []}', "0")):
        with open(p, "w") as h:
            h.write(t)
    setup = c.session("setup")
    legit = names(r, 4)
    fill(c, setup, dbms, legit)
    setup.close()
    todo = []
    for _ in range(8):
        if r.random() < 0.6:
            nm = hostile(r, c, legit)
            if r.random() < 0.5:
                decoys(c, dbms, nm)
            todo.append((nm, True))
        else:
            todo.append((r.choice([r.choice(names(r, 3) + legit + ["L" * 260, "é" * 120]), r.choice(TWISTED), padded(r)]), False))
            for x in turned(todo[-1][0]):
                decoys(c, dbms, x)
    nobody = os.getuid() == 0
    if nobody:
        chown_tree(c.dir, 65534)
    ses = c.session("nobody")
    ses.call("restrict", [dbms])
    if nobody and not ses.call("become_nobody"):
        raise Inconclusive("privileges cannot be given up")
    if r.random() < 0.5:
        ses.call("chdir", r.choice([dbms, c.dir, out]))
    for nm, bad in todo:
        rooted = not os.path.realpath(os.path.join(dbms, nm.replace("\0", ""))).startswith(c.dir)
        op = r.choice(["create", "open_", "delete", "create", "delete", "part", "openpart", "dialog"])
        if bad and rooted and op == "openpart":
            op = "open_"
        before = snapshot_tree(c.dir)
        if op == "part":
            res = ses.call("create_part", r.choice(["db", "indexes", "wn"]), nm, dbms)
        elif op == "openpart":
            res = ses.call("open_part", r.choice(["db", "indexes", "wn"]), nm, dbms)
        elif op == "dialog":
            res = ses.call("create_dialog", dbms, [nm])
            if bad and res.exc == "Exhausted":
                c.event("asked again")
            elif bad and res.ok is False and not res.blocked:
                c.event("dialog ended with an error")
        else:
            res = ses.call(op, nm, dbms)
        after = snapshot_tree(c.dir)
        changed = differ(before, after)
        when = f"{op} with the name {nm!r}"
        if res.blocked:
            c.fail(f"{when} tried {res.blocked[0][0]} on {res.blocked[0][1]}, outside the database folder", outcome=res.brief())
        if bad:
            if changed:
                c.fail(f"{when} changed {changed[:4]}", outcome=res.brief())
            if res.ok:
                c.fail(f"{when} was not refused: {res.value!r:.200}")
            if res.writes:
                c.fail(f"{when} touched the file system: {res.writes[:3]}", outcome=res.brief())
            c.event("refused " + op)
        else:
            own = os.path.join(dbms, nm)
            pre = "dbms/" + nm
            foreign = [k for k in changed if not (k == pre + "/" or k.startswith(pre + "/"))]
            if foreign:
                c.fail(f"{when} changed {foreign[:4]}", outcome=res.brief())
            astray = [w for w in res.writes if not (w[1] == own or w[1].startswith(own + "/") or w[1] == dbms)]
            if astray:
                c.fail(f"{when} touched {astray[:3]}", outcome=res.brief())
            if op.startswith("open") and changed:
                c.fail(f"{when} changed {changed[:4]}")
            if res.ok and op in ("create", "open_", "dialog"):
                expect_paths(c, dbms, nm, res.value, when)
            if res.ok and op in ("part", "openpart") and os.path.dirname(norm(res.value)) != norm(own):
                c.fail(f"{when} led to {res.value}, which is not in the folder of that name")
            c.event(("accepted " if res.ok else "turned down ") + op)
        c.judged((op, nm.replace(c.dir, "<case>"), bad))
    ses.close()


# ------------------------------------------------------------------------------- C17
def c17(c):
    r = c.r
    folder = fresh(c, r.choice(["dbms", "dbms", "d[b]ms*", "with blank"]))
    ses = c.session()
    pool = names(r, 12)
    if r.random() < 0.5:  # one name and many made from it
        base = pool[0]
        kin = [base] + [n for n in dict.fromkeys(base + s for s in r.sample(SUFFIXES, 12)) if len(n.encode()) <= 200 and n not in HIDDEN]
        have = fill(c, ses, folder, kin, queries=r.random() < 0.3)
        pool += kin[1:]
        c.event("families of names")
    else:
        have = fill(c, ses, folder, pool[: r.choice([1, 3, 6])])
    gone = []
    for step in range(r.choice([5, 9])):
        if r.random() < 0.15:
            ses.close()
            ses = c.session()
        if r.random() < 0.2:
            n = [x for x in pool if x not in have]
            if n:
                have.update(fill(c, ses, folder, [r.choice(n)]))
        tree = snapshot_tree(folder)
        x = r.random()
        if x < 0.55 and have:
            name = pool[0] if pool[0] in have and r.random() < 0.4 else r.choice(sorted(have))
            if r.random() < 0.15:  # left behind by an interrupted write
                with open(os.path.join(folder, name, "replacement.tmp"), "w") as h:
                    h.write("{")
                tree = snapshot_tree(folder)
            others = [n for n in have if n != name]
            if r.random() < 0.25:  # links in it: what they point to belongs to somebody else
                to = os.path.join(c.dir, "elsewhere", "precious.txt")
                os.makedirs(os.path.dirname(to), exist_ok=True)
                with open(to, "w") as h:
                    h.write("mine")
                targets = [to, os.path.dirname(to), os.path.join(c.dir, "nowhere")] + [p for n in others for p in have[n]]
                for k in range(r.choice([1, 2, 4])):
                    os.symlink(r.choice(targets), os.path.join(folder, name, r.choice(["notes", "link.json", "z"]) + str(k)))
                tree = snapshot_tree(folder)
                c.event("deleted with links in it")
            far = snapshot_tree(os.path.join(c.dir, "elsewhere")) if os.path.isdir(os.path.join(c.dir, "elsewhere")) else None
            res = ses.call("delete", name, folder)
            if not res.ok:
                c.fail(f"deleting {name!r} failed: {res.exc}: {res.msg}", databases=sorted(have))
            after = snapshot_tree(folder)
            left = sub(after, name)
            if left:
                c.fail(f"after deleting {name!r} there is still {sorted(left)[:4]}")
            if far is not None and snapshot_tree(os.path.join(c.dir, "elsewhere")) != far:
                c.fail(f"deleting {name!r} changed what a link in it points to")
            bad = differ(rest(tree, name), after)
            if bad:
                c.fail(f"deleting {name!r} also changed {bad[:4]}", databases=sorted(have))
            del have[name]
            gone.append(name)
            c.event("deleted")
            look = ses.call("open_", name, folder)
            if look.ok:
                c.fail(f"{name!r} can be opened after it was deleted")
            lst = ses.call("listing", folder)
            if not lst.ok or name in lst.value or sorted(lst.value) != sorted(have):
                c.fail(f"after deleting {name!r} the list is {lst.brief()}", databases=sorted(have))
            if any(ch in name for ch in "*?["):
                c.event("deleted, name with wildcards")
        elif x < 0.8:
            cands = [n for n in pool + gone + GLOBBY + ["d", "db", "nothing here"] if n not in have]
            name = r.choice(cands)
            if have and r.random() < 0.6:
                close = near(r, r.choice(sorted(have)))
                if close and close not in have:
                    name = close
                    c.event("refused, almost a name")
            if r.random() < 0.4:
                look = ses.call("open_", name, folder)
                if look.ok:
                    c.fail(f"{name!r}, which does not exist, was opened", databases=sorted(have), opened=look.value)
            res = ses.call("delete", name, folder)
            if res.ok:
                c.fail(f"deleting {name!r}, which does not exist, was not refused", databases=sorted(have))
            after = snapshot_tree(folder)
            if after != tree:
                c.fail(f"deleting {name!r}, which does not exist, changed {differ(tree, after)[:4]}", databases=sorted(have))
            c.event("refused, not there")
        elif gone:
            name = r.choice(gone)
            if name in have:
                continue
            res = ses.call("create", name, folder)
            if not res.ok:
                c.fail(f"the deleted name {name!r} could not be created again: {res.exc}: {res.msg}")
            bad = differ(tree, rest(snapshot_tree(folder), name))
            if bad:
                c.fail(f"creating {name!r} again changed {bad[:4]}")
            check_empty(res.value, f"{name!r} created again")
            usable(c, ses, res.value, f"{name!r} created again")
            have[name] = res.value
            c.event("created again")
        else:
            continue
        c.judged((name, tuple(sorted(have)), step), sample=f"{name!r} among {sorted(have)}")


# ------------------------------------------------------------------------------- C18
def c18(c):
    r = c.r
    ses = c.session()
    default = c.index % 3 == 0  # the folder the shell uses
    if default:
        folder = os.path.join(c.env.root, "dbms")
        shutil.rmtree(folder, ignore_errors=True)
    else:
        folder = fresh(c, r.choice(["dbms", "with blank", "d*"]))
    try:
        _c18(c, ses, folder, default)
    finally:
        if default:
            shutil.rmtree(folder, ignore_errors=True)


def check_listing(c, ses, folder, ns):
    want = sorted(ns)
    res = ses.call("listing", folder)
    if not res.ok:
        c.fail(f"listing failed: {res.exc}: {res.msg}", databases=want)
    if res.value != want:
        c.fail("the list of databases is wrong", listed=res.value, databases=want)
    skips = set(c.r.sample(want, min(len(want), 2))) | {"not there"}
    res = ses.call("listing_skips", sorted(skips), folder)
    if not res.ok or res.value != [n for n in want if n not in skips]:
        c.fail(f"the list without some names is wrong: {res.brief()}", databases=want, without=sorted(skips))
    res = ses.call("display", folder)
    if not res.ok:
        c.fail(f"displaying the databases failed: {res.exc}: {res.msg}", databases=want)
    if not want:
        if res.value:
            c.fail(f"databases are displayed where there are none: {res.value}")
        return {}
    if not isinstance(res.value, dict) or list(res.value.values()) != want:
        c.fail("not every database was given a letter, in order", shown=res.value, databases=want)
    pos = 0
    for letter, name in res.value.items():
        if not isinstance(letter, str) or not letter.strip():
            c.fail(f"{letter!r} is no letter")
        i = res.out.find(letter, pos)
        j = res.out.find(name, i + len(letter)) if i >= 0 else -1
        if j < 0:
            c.fail(f"{name!r} is not shown with its letter {letter!r}", shown=res.out)
        pos = j + len(name)
    c.event("lists with more than 26" if len(want) > 26 else "lists")
    c.peak("max_databases", len(want))
    return res.value


def _c18(c, ses, folder, default):
    r = c.r
    letters = check_listing(c, ses, folder, [])
    c.event("listed with no databases")
    if r.random() < 0.5:
        os.makedirs(folder)
        check_listing(c, ses, folder, [])
        if r.random() < 0.5:
            with open(os.path.join(folder, "stray.json"), "w") as h:
                h.write("{}")
            check_listing(c, ses, folder, [])
    # with nothing there, choosing leads to a new database
    if r.random() < 0.3:
        nm = pick_name(r)
        if nm not in HIDDEN:
            if default and r.random() < 0.6:
                res = ses.call("select_dialog", [r.choice(["y", "yes"]), nm])
            else:
                res = ses.call("select_existing", folder, [nm])
            if not res.ok:
                c.fail(f"with no databases there, naming a new one {nm!r} led to {res.brief()}")
            expect_paths(c, folder, nm, res.value, "the first database")
            check_empty(res.value, "the first database")
            if ses.call("delete", nm, folder).ok is not True:
                raise Inconclusive("cannot be deleted")
            c.event("first database through the dialog")
    n = r.choice([1, 2, 3, 5, 8, 26, 27, 31, 55] if r.random() < 0.35 else [1, 2, 3, 5, 8])
    ns = names(r, n)
    if c.index % 40 == 18:  # very many
        ns += [x for x in (r.choice(["{}", "db{}", "db-{:04}", "{}_old"]).format(i) for i in range([80, 700, 280, 1100, 180][c.index // 40 % 5])) if x not in ns]
    r.shuffle(ns)
    paths = fill(c, ses, folder, ns, queries=n < 10 and len(ns) < 10)
    incomplete = {}
    for nm in r.sample(ns, min(len(ns), r.choice([0, 0, 1, 2]))):
        k = r.choice([1, 2, 4, 3, 5, 6, 7])
        for b in range(3):
            if k >> b & 1:
                os.remove(paths[nm][b])
        incomplete[nm] = k
    if r.random() < 0.4:  # files beside the databases are no databases
        for f in r.sample(["notes.txt", "db.json", "A", "zzz", ".DS_Store", "database_x.json"], 2):
            if f not in ns:
                with open(os.path.join(folder, f), "w") as h:
                    h.write("x")
    if r.random() < 0.3 and len(ns) > 2:  # one more goes
        nm = ns.pop()
        incomplete.pop(nm, None)
        ses.call("delete", nm, folder)
        paths.pop(nm)
    if r.random() < 0.3:
        ses.close()
        ses = c.session()
    letters = check_listing(c, ses, folder, ns)
    tree = snapshot_tree(folder)
    by_name = {v: k for k, v in letters.items()}
    for _ in range(4):
        wrong = []
        for _ in range(r.choice([0, 1, 2, 4])):
            w = r.choice(["", " ", "1", "0", "-1", "a", "é", "AAA", "ZZ", "Letter", "None", "*", "A ", " A", "\n", r.choice(ns), r.choice(list(letters)).lower(), r.choice(list(letters)) + "!", r.choice(list(letters)) * 7, "[", "q"])
            if w not in letters:
                wrong.append(w)
        for nm in incomplete:
            if r.random() < 0.6:
                wrong.insert(r.randint(0, len(wrong)), by_name[nm])
                c.event("incomplete databases chosen")
        good = [n for n in ns if n not in incomplete]
        if good and r.random() < 0.8:
            target = r.choice(good)
            lines = wrong + [by_name[target], "never asked"]
        else:
            target = None
            lines = wrong
        if default and r.random() < 0.6:
            first = [r.choice(["y", "yes"])]
            res = ses.call("select_dialog", first + lines)
        else:
            first = []
            res = ses.call("select_existing", folder, lines)
        if target is not None:
            if not res.ok:
                c.fail(f"choosing {by_name[target]!r} ({target!r}) ended with {res.brief()}", entered=lines, letters=letters)
            if [norm(p) for p in res.value] != [norm(p) for p in paths[target]]:
                c.fail(f"choosing {by_name[target]!r} ({target!r}) opened something else", opened=res.value, own=paths[target], entered=lines)
            if len(res.log) != len(first) + len(wrong) + 1:
                c.fail(f"{len(res.log)} lines were read, the answer was in line {len(first) + len(wrong) + 1}", entered=lines)
            c.event("chosen")
        else:
            if res.ok:
                c.fail("a database was opened although none was chosen", opened=res.value, entered=lines, letters=letters, incomplete=incomplete)
            if res.exc != "Exhausted" or len(res.log) != len(first) + len(lines) + 1:
                c.fail(f"after wrong letters the user was not asked again: {res.brief()}", entered=lines, letters=letters)
            c.event("asked again")
        c.event("wrong letters", len(wrong))
        c.judged((tuple(sorted(ns)), tuple(lines)), sample=f"{lines} among {sorted(ns)}")
    after = snapshot_tree(folder)
    if after != tree:
        c.fail(f"listing and choosing changed {differ(tree, after)[:4]}")
    if default and r.random() < 0.7:  # a new one through the start dialog
        nm = [x for x in names(r, 6) if x not in ns][0]
        good = [n for n in ns if n not in incomplete]
        pre = [r.choice(good)] if good and r.random() < 0.5 else []
        res = ses.call("select_dialog", [r.choice(["n", "no", "N", "", "x", "new"])] + pre + [nm])
        # a folder of the same spelling among the stray files may refuse the name
        if os.path.isfile(os.path.join(folder, nm)):
            return
        if not res.ok:
            c.fail(f"a new database {nm!r} through the start dialog: {res.brief()}", entered=pre + [nm])
        expect_paths(c, folder, nm, res.value, "a new database through the start dialog")
        check_empty(res.value, "a new database through the start dialog")
        bad = differ(tree, rest(snapshot_tree(folder), nm))
        if bad:
            c.fail(f"a new database through the start dialog changed {bad[:4]}")
        check_listing(c, ses, folder, ns + [nm])
        c.event("created through the start dialog")


SPECS = [
    Spec("C15", c15, 220, 2500, "histories of creations (new names, names in use, names some of whose files exist; directly, by single files and through the dialog) over related, wildcard and unusual names; whole-tree comparison; distinct (name, existing names)",
         floor={"created": 400, "refused, in use": 250, "partial databases made": 100}),
    Spec("C16", c16, 220, 2500, "names leading elsewhere (with decoys at the places they lead to) and ordinary ones, for create, open, delete and the dialog; every audited write and the whole tree; distinct (operation, name)",
         floor={"refused create": 200, "refused delete": 200, "refused open_": 80, "refused part": 80, "refused dialog": 50, "accepted create": 30}),
    Spec("C17", c17, 220, 2500, "histories of deletions and re-creations over related and wildcard names; whole-tree comparison; distinct (name, existing names)",
         floor={"deleted": 300, "deleted, name with wildcards": 60, "refused, not there": 200, "created again": 80}),
    Spec("C18", c18, 220, 2500, "folders with 0 to 55, now and then up to 1,155, databases, incomplete ones, stray files; the lists and the selection dialog with wrong letters; distinct (names, entered lines)",
         floor={"chosen": 300, "asked again": 80, "wrong letters": 400, "incomplete databases chosen": 60, "lists with more than 26": 20, "listed with no databases": 200}),
]

"""C23, C24: the storage functions and the indexes against plain dictionaries and sets."""
import datetime
import json
import os

from .. import gen, work
from ..core import Spec
from ..model import BadFile, parse_json, typed

EMPTY_INDEX = {"node_relationships": {}, "node_labels": [], "relationship_names": []}


def value(r, depth=0):
    x = r.random()
    if depth < 3 and x < 0.15:
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 3]))]
    if depth < 3 and x < 0.3:
        return {text(r): value(r, depth + 1) for _ in range(r.choice([0, 1, 3]))}
    return r.choice([
        None, True, False, 0, 1, -1, 2**63, -(2**70), 0.0, 1.5, -2.25, 1e300, 5e-324, 0.1 + 0.2, "", "a", "null", "12", "é", "\n", "\x00", '"', "\\", "😀", "\u2028",
        "\ud800", "x" * r.choice([10, 3000]), r.randint(0, 10**9), r.random(), text(r), 1.0, 10**25,
    ])


def text(r):
    return "".join(r.choice("abcXYZ019_ .:{}[]\"'\\/éß\t") for _ in range(r.randint(1, 8)))


def record(r, wn):
    if r.random() < 0.7:
        rels = [
            {
                "relationship_metadata": {"wn": r.randint(0, 10**6), "created_at": r.random() * 1e9, "updated_at": None},
                "relationship_name": r.choice(["REL", "", None]),
                "wn_from_node": wn,
                "wn_to_node": r.randint(0, 10**6),
                "properties": r.choice([None, {}, {text(r): value(r)}]),
            }
            for _ in range(r.choice([0, 1, 2]))
        ]
        return {
            "node_metadata": {"wn": wn, "created_at": r.random() * 1e9, "updated_at": None},
            "node_label": gen.label(r),
            "properties": {text(r): value(r) for _ in range(r.choice([0, 1, 4]))} or None,
            "relations": rels or None,
        }
    return value(r)


def unstorable(r):
    loop = []
    loop.append(loop)
    ring = {}
    ring["self"] = ring
    x = r.choice([{1, 2}, set(), object(), b"bytes", 1j, datetime.datetime(2020, 1, 1), loop, ring, frozenset({"a"}), range(3), Ellipsis, bytearray(b"x"), {("a", "b"): 1}])
    y = r.random()
    if y < 0.25:
        return x
    if y < 0.5:
        return {"node_label": "A", "properties": {"k": x}}
    if y < 0.75:
        return {"ok": 1, "deep": [1, {"a": [x]}]}
    return [1, 2, x]


def read(path, c, when):
    try:
        with open(path, "rb") as h:
            raw = h.read()
        return parse_json(raw, "the file"), raw
    except (BadFile, OSError) as e:
        c.fail(f"{when}: {e}")


# ------------------------------------------------------------------------------- C23
def c23(c):
    r = c.r
    ses = c.session()
    d = os.path.join(c.dir, "d")
    os.mkdir(d)
    path = os.path.join(d, "database.json")
    with open(path, "w") as h:
        h.write(r.choice(["{}", "{}", "{}\n", '{\n}', '{"7": {"a": 1}}']))
    model = json.loads(open(path).read())
    beside = os.path.join(d, "other.json")
    with open(beside, "w") as h:
        h.write('{"1": 1}')
    nxt = r.choice([0, 8, 100])
    for step in range(r.choice([8, 14, 24])):
        if r.random() < 0.12:
            ses.close()
            ses = c.session()
        x = r.random()
        before, raw0 = read(path, c, "before a step")
        if x < 0.42:  # new ones
            n = r.choice([0, 1, 1, 2, 5, 40] if step % 5 else [1, 300])
            keys = []
            for _ in range(n):
                nxt += 1
                k = str(nxt) if r.random() < 0.8 else text(r) + str(nxt)
                while k in model or k in keys:
                    k += "k"
                keys.append(k)
            r.shuffle(keys)
            items = {k: record(r, nxt) for k in keys}
            res = ses.call("add_db", path, items)
            if not res.ok:
                c.fail(f"adding {n} new records failed: {res.exc}: {res.msg}", items=items)
            model.update(items)
            c.event("batches added")
            c.event("records added", n)
            kind = "add"
        elif x < 0.62 and model:  # one or more are there already
            old = r.sample(sorted(model), min(len(model), r.choice([1, 1, 2])))
            fresh = []
            for _ in range(r.choice([0, 1, 3, 12, 12, 110, 270])):
                nxt += 1
                if str(nxt) not in model:
                    fresh.append(str(nxt))
            keys = old + fresh
            r.shuffle(keys)
            items = {k: (model[k] if k in model and r.random() < 0.3 else record(r, 1)) for k in keys}
            res = ses.call("add_db", path, items)
            where = "first" if keys[0] in model else "last" if keys[-1] in model else "middle"
            if res.ok:
                c.fail(f"records {old} were added although they are there already", items=items)
            now, raw1 = read(path, c, "after a refused batch")
            if typed(now) != typed(before):
                c.fail("a refused batch (numbers already present) changed the database", added=[k for k in now if k not in before], items=items, changed=[k for k in before if typed(before[k]) != typed(now.get(k))])
            c.event(f"duplicates refused, {where}")
            kind = "duplicate " + where
        elif x < 0.78:  # something that cannot be written
            keys = []
            for _ in range(r.choice([1, 2, 4, 9, 9, 130, 260])):
                nxt += 1
                if str(nxt) not in model or not keys:
                    keys.append(str(nxt) if str(nxt) not in model else f"n{nxt}")
            bad = r.choice(keys)
            items = {k: record(r, 1) for k in keys}
            items[bad] = unstorable(r)
            res = ses.call("add_db", path, items)
            if res.ok:
                now, _ = read(path, c, "after adding what cannot be stored")
                c.fail("a batch with a record that cannot be stored was accepted", record=items[bad], stored=now.get(bad))
            now, _ = read(path, c, f"after a batch with {items[bad]!r:.60}")
            if typed(now) != typed(before):
                c.fail("a batch that cannot be stored changed the database", lost=[k for k in before if k not in now], added=[k for k in now if k not in before], record=items[bad])
            c.event("unstorable refused")
            kind = f"unstorable {keys.index(bad)}/{len(keys)}"
        elif x < 0.9:
            sure = r.choice(["default", False, "default", False, None, 0, "", True]) if r.random() < 0.85 else True
            res = ses.call("wipe_db", path, sure)
            if sure is True:
                if not res.ok:
                    c.fail(f"wiping failed: {res.exc}: {res.msg}")
                model = {}
                nxt = r.choice([nxt, 0])  # the same numbers once more
                c.event("wiped")
            else:
                now, raw1 = read(path, c, "after an unconfirmed wipe")
                if raw1 != raw0 and typed(now) != typed(before):
                    c.fail(f"a wipe without confirmation (im_sure={sure}) changed the database", before=raw0[:300], after=raw1[:300])
                c.event("unconfirmed wipes")
            kind = f"wipe {sure}"
        else:
            kind = "load"
        now, _ = read(path, c, f"after {kind}")
        if typed(now) != typed(model):
            bad = [k for k in set(now) | set(model) if typed(now.get(k)) != typed(model.get(k)) or (k in now) != (k in model)]
            c.fail(f"after {kind} the file does not hold what was added", record=bad[0], stored=now.get(bad[0], "absent"), added=model.get(bad[0], "absent"))
        res = ses.call("load_db", path)
        if not res.ok:
            c.fail(f"loading after {kind} failed: {res.exc}: {res.msg}")
        if typed(res.value) != typed(model):
            bad = [k for k in set(res.value) | set(model) if typed(res.value.get(k)) != typed(model.get(k)) or (k in res.value) != (k in model)]
            c.fail(f"loading after {kind} does not return what was added", record=bad[0], loaded=res.value.get(bad[0], "absent"), added=model.get(bad[0], "absent"))
        if open(beside).read() != '{"1": 1}':
            c.fail(f"{kind} changed another file beside the database")
        c.peak("max_records", len(model))
        c.judged((step, kind, len(model), typed(sorted(model))[:200]), sample=f"{kind} with {len(model)} records")


# ------------------------------------------------------------------------------- C24
POOL = ["A", "B", "Person", "REL", "a", "é", "ß", "node_labels", "relationship_names", "node_relationships", "", " ", "1", "None", "x" * 200, "Ünïcode", "\"", "\\", "\n", "null", "[]"]


def norm_rels(m):
    return {k: set(v) for k, v in m.items() if v}


def c24(c):
    r = c.r
    ses = c.session()
    d = os.path.join(c.dir, "d")
    os.mkdir(d)
    path = os.path.join(d, "indexes.json")
    with open(path, "w") as h:
        h.write(json.dumps(EMPTY_INDEX, indent=r.choice([None, 4])))
    L, N, R = set(), set(), {}

    def compare(kind, now):
        for what, key, want in (("node labels", "node_labels", L), ("relationship names", "relationship_names", N)):
            got = now.get(key)
            if not isinstance(got, list) or len(got) != len(set(map(str, got))) or set(got) != want:
                c.fail(f"after {kind} the {what} index holds something else than what was added", missing=sorted(want - set(got or [])), extra=sorted(set(got or []) - want))
        rels = now.get("node_relationships")
        got = norm_rels(rels) if isinstance(rels, dict) else rels
        if got != norm_rels(R) or any(len(v) != len(set(v)) for v in rels.values()):
            c.fail(f"after {kind} the node-relationships index holds something else than what was added", index=rels, added={k: sorted(v) for k, v in R.items()})

    for step in range(r.choice([10, 18, 30])):
        if r.random() < 0.12:
            ses.close()
            ses = c.session()
        which = r.choice(["labels", "names", "noderels"])
        x = r.random()
        if x < 0.7:
            if which == "noderels":
                items = {}
                for _ in range(r.choice([0, 0, 1, 2, 5])):
                    k = str(r.randint(0, 12) if r.random() < 0.8 else r.randint(0, 10**12))
                    items[k] = set(r.sample(range(30), r.choice([0, 1, 2, 6]))) | ({r.randint(0, 10**12)} if r.random() < 0.3 else set())
                if R and r.random() < 0.3:
                    k = r.choice(sorted(R))
                    items[k] = set(list(R[k])[:2]) | {r.randint(0, 99)}
                res = ses.call("index_add", which, path, items)
                for k, v in items.items():
                    R.setdefault(k, set()).update(v)
            else:
                target = L if which == "labels" else N
                items = {r.choice(POOL) if r.random() < 0.6 else gen.ident(r) for _ in range(r.choice([0, 0, 1, 2, 4, 60]))}
                if target and r.random() < 0.3:
                    items |= set(r.sample(sorted(target), 1))
                res = ses.call("index_add", which, path, items)
                target |= items
            kind = f"adding {len(items)} to {which}"
            if not res.ok:
                c.fail(f"{kind} failed: {res.exc}: {res.msg}", items=items)
            c.event("empty additions" if not items else "additions")
        elif x < 0.85:
            sure = r.choice(["default", False, "default", False, None, 0, "", True, True])
            kind = f"wipe of {which}, im_sure={sure}"
            res = ses.call("index_wipe", which, path, sure)
            if sure is True:
                if not res.ok:
                    c.fail(f"{kind} failed: {res.exc}: {res.msg}")
                {"labels": L, "names": N, "noderels": R}[which].clear()
                c.event("wiped")
            else:
                c.event("unconfirmed wipes")
        else:
            kind = "loads"
        try:
            with open(path, "rb") as h:
                now = parse_json(h.read(), "the index file")
        except (BadFile, OSError) as e:
            c.fail(f"after {kind}: {e}")
        compare(kind, now)
        order = ["labels", "names", "noderels"]
        r.shuffle(order)
        for w in order:
            res = ses.call("index_load", w, path)
            if not res.ok:
                c.fail(f"loading {w} after {kind} failed: {res.exc}: {res.msg}")
            if w == "noderels":
                got = {k: set(v[1]) for k, v in res.value.items() if v[1]}
                if got != norm_rels(R):
                    c.fail(f"loading node relationships after {kind} gave something else than what was added", loaded=got, added=norm_rels(R))
            else:
                want = L if w == "labels" else N
                if set(res.value[1]) != want:
                    c.fail(f"loading {w} after {kind} gave something else than what was added", loaded=res.value, added=sorted(want))
        c.event("loads compared", 3)
        c.judged((step, kind, tuple(sorted(L))[:20], len(N), len(R)), sample=f"{kind}; {len(L)} labels, {len(N)} names, {len(R)} nodes")


SPECS = [
    Spec("C23", c23, 260, 3000, "histories of batches (new; some already present, first/middle/last; with a record that cannot be written, at any place), wipes and loads against a dictionary; distinct (step, kind, records)",
         floor={"batches added": 500, "duplicates refused, first": 50, "duplicates refused, middle": 50, "duplicates refused, last": 50, "unstorable refused": 200, "unconfirmed wipes": 100, "wiped": 40}),
    Spec("C24", c24, 260, 3000, "histories of additions (empty, repeated, overlapping), wipes and loads on the three indexes of one file against sets; distinct (step, kind, contents)",
         floor={"additions": 1000, "empty additions": 300, "wiped": 80, "unconfirmed wipes": 250, "loads compared": 5000}),
]

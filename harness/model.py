"""Reference model: what a query means for the stored graph, and how stored files are read.

Nothing here uses the code under test.
"""
import collections
import json
import os
from itertools import permutations

from .core import Violation


# ------------------------------------------------------------------------ reading files
class BadFile(Exception):
    pass


def _pairs(pairs):
    seen = {}
    for k, v in pairs:
        if k in seen:
            raise BadFile(f"key {k!r} twice in one object")
        seen[k] = v
    return seen


def _const(x):
    raise BadFile(f"{x} is not JSON")


def parse_json(raw, what):
    try:
        return json.loads(raw.decode("utf-8"), object_pairs_hook=_pairs, parse_constant=_const)
    except (ValueError, BadFile) as e:
        raise BadFile(f"{what} is not readable: {e}: {raw[:200]!r}")


class Rec:
    """A stored node."""

    __slots__ = ("wn", "label", "props", "rels", "created", "updated", "raw")

    def __init__(self, key, d):
        try:
            self.raw = d
            m = d["node_metadata"]
            self.wn = m["wn"]
            if not _isint(self.wn) or str(self.wn) != key:
                raise BadFile(f"record filed under {key!r} has number {self.wn!r}")
            self.created, self.updated = m["created_at"], m["updated_at"]
            self.label = d["node_label"]
            self.props = _props(d["properties"])
            self.rels = [RelRec(x) for x in (d["relations"] or [])]
        except (KeyError, TypeError, AttributeError) as e:
            raise BadFile(f"record {key!r} is malformed ({type(e).__name__} {e}): {d!r:.300}")


class RelRec:
    __slots__ = ("wn", "name", "frm", "to", "props", "created", "updated")

    def __init__(self, d):
        m = d["relationship_metadata"]
        self.wn, self.created, self.updated = m["wn"], m["created_at"], m["updated_at"]
        self.name = d["relationship_name"] or ""
        self.frm, self.to = d["wn_from_node"], d["wn_to_node"]
        self.props = _props(d["properties"])
        for x in (self.wn, self.frm, self.to):
            if not _isint(x):
                raise BadFile(f"{x!r} is not a wiggle number")


def _isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _props(p):
    if p is None:
        return {}
    if not isinstance(p, dict):
        raise BadFile(f"properties are {p!r:.100}")
    return p


class Snap:
    """The three files of a database at one moment."""

    def __init__(self, paths):
        self.raw = []
        for p in paths:
            try:
                with open(p, "rb") as h:
                    self.raw.append(h.read())
            except FileNotFoundError:
                self.raw.append(None)
        self.paths = paths

    def parse(self):
        """Raises BadFile when anything is unreadable."""
        for p, raw in zip(self.paths, self.raw):
            if raw is None:
                raise BadFile(f"{os.path.basename(p)} is missing")
        db = parse_json(self.raw[0], "database")
        if not isinstance(db, dict):
            raise BadFile(f"database is {db!r:.100}")
        self.db = db
        self.nodes = {}
        for k, d in db.items():
            rec = Rec(k, d)
            self.nodes[rec.wn] = rec
        ix = parse_json(self.raw[1], "indexes")
        try:
            self.labels = list(ix["node_labels"])
            self.names = list(ix["relationship_names"])
            self.noderels = {k: list(v) for k, v in ix["node_relationships"].items()}
        except (KeyError, TypeError, AttributeError) as e:
            raise BadFile(f"indexes are malformed ({type(e).__name__} {e}): {ix!r:.300}")
        try:
            self.wn = int(self.raw[2].decode("ascii"))
        except ValueError:
            raise BadFile(f"wiggle number is {self.raw[2]!r:.60}")
        return self

    def content(self):
        """Content of the three files with formatting taken out (unreadable ones as bytes)."""
        out = []
        for i, raw in enumerate(self.raw):
            if raw is None:
                out.append(None)
                continue
            try:
                if i < 2:
                    v = json.loads(raw.decode("utf-8"), object_pairs_hook=_pairs)
                    if i == 1 and isinstance(v, dict):
                        v = {
                            k: (sorted(x, key=repr) if isinstance(x, list) else {a: sorted(b, key=repr) for a, b in x.items()} if isinstance(x, dict) else x)
                            for k, x in v.items()
                        }
                    out.append(json.dumps(v, sort_keys=True))
                else:
                    out.append(str(int(raw.decode("ascii"))))
            except Exception:
                out.append(raw)
        return out

    def all_wns(self):
        for n in self.nodes.values():
            yield n.wn
            for x in n.rels:
                yield x.wn


def typed(v):
    """Text that is equal exactly when type and value are."""
    return json.dumps(v, sort_keys=True, ensure_ascii=True)


# ------------------------------------------------------------------------------ graphs
def _canon(nodes, edges):
    """nodes: [(label, props)], edges: [(i, j, name, props)], at most 3 nodes."""
    best = None
    for perm in permutations(range(len(nodes))):
        pos = {old: new for new, old in enumerate(perm)}
        ns = [f"{nodes[i][0]}|{typed(nodes[i][1])}" for i in perm]
        es = sorted(f"{pos[i]}>{pos[j]}:{name}|{typed(p)}" for i, j, name, p in edges)
        c = (ns, es)
        if best is None or c < best:
            best = c
    return json.dumps(best)


def expected_pattern(p):
    nodes = [(n.label, {k: v.value for k, v in n.props}) for n in p.nodes]
    edges = []
    for i, x in enumerate(p.rels):
        a, b = (i, i + 1) if x.right else (i + 1, i)
        edges.append((a, b, x.name, {k: v.value for k, v in x.props}))
    return _canon(nodes, edges)


def expected_graph(stmts):
    """Multiset of canonical components the MAKE statements describe."""
    return collections.Counter(
        expected_pattern(p) for s in stmts if s.clause == "MAKE" for p in s.patterns
    )


def stored_graph(nodes):
    """Multiset of canonical components of stored nodes ({wn: Rec}); Violation-free: oddities become text."""
    adj = {w: set() for w in nodes}
    edges = []
    odd = []
    for n in nodes.values():
        for x in n.rels:
            if x.frm != n.wn:
                odd.append(f"relationship {x.wn} is stored on node {n.wn} but starts from {x.frm}")
            if x.frm in adj and x.to in adj:
                adj[x.frm].add(x.to)
                adj[x.to].add(x.frm)
                edges.append((x.frm, x.to, x.name, x.props))
            else:
                odd.append(f"relationship {x.wn} goes {x.frm}->{x.to}, outside of what the query stored")
    out = collections.Counter()
    seen = set()
    for w in nodes:
        if w in seen:
            continue
        comp, todo = [], [w]
        seen.add(w)
        while todo:
            a = todo.pop()
            comp.append(a)
            for b in adj[a]:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        if len(comp) > 3:
            odd.append(f"{len(comp)} nodes are connected: {sorted(comp)}")
            continue
        comp.sort()
        pos = {w: i for i, w in enumerate(comp)}
        out[
            _canon(
                [(nodes[w].label, nodes[w].props) for w in comp],
                [(pos[f], pos[t], nm, p) for f, t, nm, p in edges if f in pos],
            )
        ] += 1
    return out, odd


def count_elements(stmts):
    n = m = 0
    for s in stmts:
        if s.clause == "MAKE":
            for p in s.patterns:
                n += len(p.nodes)
                m += len(p.rels)
    return n, m


def labels_names(stmts, clause="MAKE"):
    labels, names = set(), set()
    for s in stmts:
        if s.clause == clause:
            for p in s.patterns:
                labels |= {n.label for n in p.nodes}
                names |= {x.name for x in p.rels if x.name}
    return labels, names


def index_expected(nodes):
    labels = {n.label for n in nodes.values()}
    names = {x.name for n in nodes.values() for x in n.rels if x.name}
    noderels = {str(n.wn): sorted(x.wn for x in n.rels) for n in nodes.values() if n.rels}
    return labels, names, noderels


# ---------------------------------------------------------------------- shared monitors
def parse(snap, case, when):
    try:
        return snap.parse()
    except BadFile as e:
        raise Violation(f"{when}: {e}")


def check_indexes(snap, case, when):
    labels, names, noderels = index_expected(snap.nodes)
    if len(snap.labels) != len(set(map(str, snap.labels))) or set(snap.labels) != labels:
        raise Violation(f"{when}: node-label index disagrees with the stored nodes", index=sorted(map(str, snap.labels)), stored=sorted(labels))
    if len(snap.names) != len(set(map(str, snap.names))) or set(snap.names) != names:
        raise Violation(f"{when}: relationship-name index disagrees with the stored relationships", index=sorted(map(str, snap.names)), stored=sorted(names))
    got = {k: sorted(v, key=lambda x: (not isinstance(x, int), x if isinstance(x, int) else repr(x))) for k, v in snap.noderels.items() if v}
    if got != noderels:
        diff = {k: (got.get(k), noderels.get(k)) for k in set(got) | set(noderels) if got.get(k) != noderels.get(k)}
        raise Violation(f"{when}: node-relationship index disagrees with the stored relationships", index_vs_stored=diff)


def check_numbers(snap, case, when):
    wns = list(snap.all_wns())
    if len(wns) != len(set(wns)):
        dup = [w for w, c in collections.Counter(wns).items() if c > 1]
        raise Violation(f"{when}: wiggle numbers {dup[:5]} are used more than once")
    if wns and max(wns) >= snap.wn:
        raise Violation(f"{when}: next wiggle number {snap.wn} is not beyond {max(wns)}, which is in use")
    if wns and min(wns) < 0:
        raise Violation(f"{when}: negative wiggle number {min(wns)}")


def check_integrity(snap, case, when):
    for n in snap.nodes.values():
        for x in n.rels:
            if x.frm != n.wn:
                raise Violation(f"{when}: relationship {x.wn} from node {x.frm} is stored on node {n.wn}")
            if x.frm == x.to:
                raise Violation(f"{when}: relationship {x.wn} goes from node {x.frm} to itself")
            if x.to not in snap.nodes:
                raise Violation(f"{when}: relationship {x.wn} of node {n.wn} ends at {x.to}, which is not a node")


def check_append_only(before, after, case, when):
    """Every record of `before` is in `after`, unchanged."""
    for k, d in before.db.items():
        if k not in after.db:
            raise Violation(f"{when}: record {k} stored earlier is gone", record=d)
        if typed(after.db[k]) != typed(d):
            raise Violation(f"{when}: record {k} stored earlier was changed", before=d, after=after.db[k])


def check_unchanged(before, after, case, when, **detail):
    if before.raw != after.raw and before.content() != after.content():
        which = [n for n, a, b in zip(("database", "indexes", "wiggle number"), before.content(), after.content()) if a != b]
        raise Violation(f"{when}: {', '.join(which)} changed", before=before.raw, after=after.raw, **detail)


def delta(before, after):
    return {w: n for w, n in after.nodes.items() if w not in before.nodes}


def check_delta(before, after, stmts, case, when, **detail):
    """What was added is exactly the graph the MAKE statements describe."""
    want = expected_graph(stmts)
    got, odd = stored_graph(delta(before, after))
    if odd:
        raise Violation(f"{when}: {odd[0]}", **detail)
    if want != got:
        raise Violation(f"{when}: stored graph is not the one described", missing=list((want - got).elements())[:4], unexpected=list((got - want).elements())[:4], **detail)

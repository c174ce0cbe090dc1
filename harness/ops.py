"""Operations carried out by a session process (the side that runs the code under test).

Each function takes the Api as first argument; results travel back pickled. Only plain
values are returned, so that nothing of the code under test runs in the oracle's process.
"""
import builtins
import contextlib
import io
import json
import os
import random
import signal
import sys
import time
from pathlib import Path

from .boot import named

CPU_LIMIT = 40.0  # seconds of processor time for one operation; nothing legitimate comes near


class Hang(BaseException):
    """The operation used more processor time than CPU_LIMIT."""


class Exhausted(BaseException):
    """The code asked for more input than the scripted user has."""


def _on_alarm(signum, frame):
    raise Hang("processor time limit")


@contextlib.contextmanager
def limited(seconds=None):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds or CPU_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _mro(e):
    return [t.__name__ for t in type(e).__mro__]


def gpaths(api, paths):
    return api.GDBMSFilePath(
        database_file_path=Path(paths[0]),
        indexes_file_path=Path(paths[1]),
        wiggle_number_file_path=Path(paths[2]),
    )


def pathlist(g):
    return [str(g.database_file_path), str(g.indexes_file_path), str(g.wiggle_number_file_path)]


def guarded(api, fn):
    """Runs fn; returns a dict describing what happened."""
    out = io.StringIO()
    res = {"ok": False, "value": None, "exc": None, "msg": "", "mro": [], "hang": False}
    api.guard.trace = []
    api.guard.blocked = []
    t0, c0 = time.time(), time.process_time()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            with limited():
                res["value"] = fn()
        res["ok"] = True
    except Hang as e:
        res.update(exc="Hang", msg=str(e), mro=_mro(e), hang=True)
    except (Exception, SystemExit, KeyboardInterrupt, Exhausted) as e:
        try:
            msg = str(e)[:300]
        except Exception:
            msg = "<no message>"
        res.update(exc=type(e).__name__, msg=msg, mro=_mro(e))
        if len(msg) == 300:
            res["full"] = str(e)[:100000]
    except BaseException as e:
        if type(e).__name__ != "Escape":
            raise
        res.update(exc="Escape", msg=str(e)[:300], mro=_mro(e))
    res["t0"], res["t1"] = t0, time.time()
    res["cpu"] = time.process_time() - c0
    res["out"] = out.getvalue()
    res["writes"] = [w for w in api.guard.trace]
    res["blocked"] = list(api.guard.blocked)
    api.guard.trace = None
    return res


# ---------------------------------------------------------------------------- queries
def query(api, paths, text):
    g = gpaths(api, paths)
    return guarded(api, lambda: bool(api.query(text, g)))


def queries(api, paths, texts):
    return [query(api, paths, t) for t in texts]


# ---------------------------------------------------------------- database management
def create(api, name, folder):
    return guarded(
        api, lambda: pathlist(api.sel.get_new_gdbms_file_paths(name, Path(folder)))
    )


def create_part(api, which, name, folder):
    fn = {
        "db": api.sel.create_new_database,
        "indexes": api.sel.create_new_indexes_file,
        "wn": api.sel.create_new_wiggle_number_file,
    }[which]
    return guarded(api, lambda: str(fn(name, Path(folder))))


def open_(api, name, folder):
    f = Path(folder)
    return guarded(
        api,
        lambda: [
            str(api.sel.get_existing_db_file_path(name, f)),
            str(api.sel.get_existing_indexes_file_path(name, f)),
            str(api.sel.get_existing_wn_file_path(name, f)),
        ],
    )


def open_part(api, which, name, folder):
    fn = {
        "db": api.sel.get_existing_db_file_path,
        "indexes": api.sel.get_existing_indexes_file_path,
        "wn": api.sel.get_existing_wn_file_path,
    }[which]
    return guarded(api, lambda: str(fn(name, Path(folder))))


def delete(api, name, folder):
    return guarded(api, lambda: bool(api.sel.delete_gdbms(name, Path(folder)) or True))


def listing(api, folder):
    return guarded(api, lambda: list(api.sel.list_existing_dbms(path_to_dbms_dir=Path(folder))))


def listing_skips(api, skips, folder):
    return guarded(api, lambda: list(api.sel.list_existing_dbms(set(skips), Path(folder))))


def display(api, folder):
    return guarded(api, lambda: api.sel.get_and_display_available_dbms(Path(folder)))


@contextlib.contextmanager
def scripted_input(lines, log, probe=None):
    """Replaces input(): logs each prompt with the output since the last and feeds a line."""
    it = iter(lines)
    real = builtins.input

    def fake(prompt=""):
        entry = {"prompt": str(prompt), "out": sys.stdout.getvalue()}
        if probe:
            entry["probe"] = probe()
        log.append(entry)
        try:
            line = next(it)
        except StopIteration:
            raise Exhausted("no more input")
        if isinstance(line, BaseException):
            raise line
        return line

    builtins.input = fake
    try:
        yield
    finally:
        builtins.input = real


def select_existing(api, folder, lines):
    log = []

    def go():
        with scripted_input(lines, log):
            return pathlist(api.sel.get_existing_gdbms(Path(folder)))

    r = guarded(api, go)
    r["log"] = log
    return r


def create_dialog(api, folder, lines):
    log = []

    def go():
        with scripted_input(lines, log):
            return pathlist(api.sel.create_new_dbms(Path(folder)))

    r = guarded(api, go)
    r["log"] = log
    return r


def select_dialog(api, lines):
    log = []

    def go():
        with scripted_input(lines, log):
            return pathlist(api.sel.select_gdbms())

    r = guarded(api, go)
    r["log"] = log
    return r


def snapshot_tree(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, folder)] = h.read()
            except OSError:
                out[os.path.relpath(p, folder)] = b"<unreadable>"
    return out


def shell(api, folder, lines):
    """Runs the interactive shell with scripted lines; snapshots the database folder at every prompt."""
    log = []

    def probe():
        return snapshot_tree(folder)

    def go():
        start = named("wiggle_shell.wiggleshell", "start_wiggle_shell")
        with scripted_input(lines, log, probe):
            start()

    r = guarded(api, go)
    r["log"] = log
    r["end_probe"] = probe()
    return r


def shell_long(api, folder, lines):
    """The interactive shell over many lines; the value is how many were read."""
    log = []

    def go():
        start = named("wiggle_shell.wiggleshell", "start_wiggle_shell")
        with scripted_input(lines, Counted(log)):
            start()
        return log[0]

    r = guarded(api, go)
    if not r["ok"]:
        r["value"] = log[0] if log else 0
    return r


class Counted:
    """A log that only counts its entries."""

    def __init__(self, cell):
        self.cell = cell
        cell[:] = [0]

    def append(self, entry):
        self.cell[0] += 1


def resident(api):
    """What the process holds."""
    import ctypes
    import gc
    import threading

    class Info(ctypes.Structure):
        _fields_ = [(x, ctypes.c_size_t) for x in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]

    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Info
    gc.collect()
    m = libc.mallinfo2()
    return {
        "small": sys.getallocatedblocks(),  # objects of up to 512 bytes
        "large": m.uordblks + m.hblkhd,  # bytes, all others
        "descriptors": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
    }


# ------------------------------------------------------------------------ storage API
def load_db(api, path):
    return guarded(api, lambda: json.loads(json.dumps(api.database.load_database(Path(path)))))


def add_db(api, path, items):
    return guarded(api, lambda: bool(api.database.add_item_to_database(Path(path), items)))


def wipe_db(api, path, sure):
    args = (Path(path),) if sure == "default" else (Path(path), sure)
    return guarded(api, lambda: bool(api.database.wipe_database(*args)))


def _plain(v):
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset, list, tuple)):
        return (type(v).__name__, list(v))
    return v


def index_add(api, which, path, items):
    return guarded(api, lambda: bool(api.index_fn(which, "add_items_to")(Path(path), items)))


def index_load(api, which, path):
    return guarded(api, lambda: _plain(api.index_fn(which, "load")(Path(path))))


def index_wipe(api, which, path, sure):
    args = (Path(path),) if sure == "default" else (Path(path), sure)
    return guarded(api, lambda: bool(api.index_fn(which, "wipe")(*args)))


def get_wn(api, path):
    return guarded(api, lambda: api.number.get_current_wiggle_number(Path(path)))


def set_wn(api, path, n):
    return guarded(api, lambda: api.number.update_wiggle_number(Path(path), n))


# ------------------------------------------------------------------------- FIND model
def _find_node(n):
    if n is None:
        return None
    return {
        "label": n.node_label,
        "handle": n.node_handle,
        "yes": n.props_dict_yes,
        "no": n.props_dict_no,
        "rels": [
            {"name": x.rel_name, "handle": x.rel_handle, "yes": x.props_dict_yes, "no": x.props_dict_no}
            for x in n.relationships
        ],
    }


def find_pre(api, text, criteria=None):
    """The search derived from a FIND; criteria: {handle: (yes dict or None, no dict or None)}."""

    def go():
        parsed = named("wiggle_query_language.clauses.find", "parse_find_statement_from_query_string")(text)
        crit = None
        if criteria is not None:
            crit = named("models.wql", "ParsedCriteria")(
                raw_statement="CRITERIA",
                criteria_handle_props={
                    h: named("models.wql", "ParsedCriteriaYesNo")(props_dict_yes_match=y, props_dict_no_match=n)
                    for h, (y, n) in criteria.items()
                },
            )
        p = named("wiggle_query_language.clauses.find.transform.find_pre", "process_parsed_find")(parsed_find=parsed, parsed_criteria=crit)
        return {
            "nodes": [_find_node(p.left_node), _find_node(p.middle_node), _find_node(p.right_node)],
            "labels": sorted(p.node_labels),
            "names": sorted(p.relationship_names, key=str),
        }

    return guarded(api, go)


def find_pre_many(api, specs):
    return [find_pre(api, t, c) for t, c in specs]


# ------------------------------------------------------------------------ parsed form
PLACES = ("left_node", "left_middle_rel", "middle_node", "middle_right_rel", "right_node")


def _form_pattern(p):
    get_property_dict = named("wiggle_query_language.clauses.parsing_helpers.parse_properties", "get_property_dict")

    out = []
    for place in PLACES:
        whole = getattr(p, place)
        parts = {x: getattr(p, f"{place}_{x}") for x in ("handle", "label", "props")}
        if whole is None and not any(parts.values()):
            continue
        out.append([place, whole, parts["handle"] or "", parts["label"] or "", get_property_dict(parts["props"]) or {}])
    return {"elements": out, "nodes": int(p.number_of_nodes), "rels": int(p.number_of_relationships), "handles": sorted(p.pattern_handles)}


def parsed_form(api, text):
    """What parse_query_string makes of a query, in plain values."""

    def go():
        q = named("wiggle_shell.core.query.query", "parse_query_string")(text)
        out = {"make": None, "find": None, "report": None, "criteria": q.criteria_parsed is not None}
        if q.make_parsed is not None:
            out["make"] = [[m.raw_statement, m.clause.name, [_form_pattern(x) for x in m.parsed_pattern_list]] for m in q.make_parsed]
        if q.find_parsed is not None:
            f = q.find_parsed
            out["find"] = [f.raw_statement, f.clause.name, _form_pattern(f.parsed_pattern), sorted(f.parsed_pattern_handles)]
        if q.report_parsed is not None:
            out["report"] = [q.report_parsed.raw_statement, q.report_parsed.clause.name, q.report_parsed.extracted_report]
        return out

    return guarded(api, go)


# ------------------------------------------------------------------- model constructors
def build_node(api, wn, rels):
    """rels: [(own wn, from, to, name)]; returns what the model accepted."""

    def go():
        Node, Relationship, WiggleGraphMetalData = (named("models.wql", x) for x in ("Node", "Relationship", "WiggleGraphMetalData"))

        relations = [
            Relationship(
                relationship_metadata=WiggleGraphMetalData(wn=w),
                relationship_name=name,
                wn_from_node=f,
                wn_to_node=t,
                properties=None,
            )
            for w, f, t, name in rels
        ]
        n = Node(
            node_metadata=WiggleGraphMetalData(wn=wn),
            node_label="Label",
            properties=None,
            relations=relations or None,
        )
        return [n.wn, [[x.wn, x.wn_from_node, x.wn_to_node] for x in (n.relations or [])]]

    return guarded(api, go)


# ------------------------------------------------------------------------------ misc
def restrict(api, allowed):
    api.guard.allowed = [os.path.realpath(a) for a in allowed]
    return True


def become_nobody(api):
    """Gives up root; returns whether that worked."""
    try:
        os.setgroups([])
    except OSError:
        pass
    try:
        os.setgid(65534)
        os.setuid(65534)
        return True
    except OSError:
        return False


def chdir(api, folder):
    os.chdir(folder)
    return True


def umask(api, mask):
    os.umask(mask)
    return True


# ------------------------------------------------------------- with the preloaded shim
def _shim():
    import ctypes

    lib = ctypes.CDLL(None)
    lib.verif_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    lib.verif_count.restype = ctypes.c_long
    lib.verif_log.restype = ctypes.c_char_p
    lib.verif_clock.argtypes = [ctypes.c_double]
    lib.verif_pause.argtypes = [ctypes.c_int, ctypes.c_int]
    return lib


def fault(api, prefix, k, mode, op, *args):
    """The operation `op` with fault `mode` at the k-th file-system call on paths with this prefix."""
    lib = _shim()
    r = None
    lib.verif_arm(prefix.encode(), k, mode)
    try:
        r = globals()[op](api, *args)
    finally:
        n, fired, log = lib.verif_count(), lib.verif_fired(), lib.verif_log().decode()
        lib.verif_disarm()
    r["calls"], r["fired"], r["log"] = n, fired, log
    return r


def query_fault(api, paths, text, k, mode):
    return fault(api, os.path.dirname(paths[0]) + "/", k, mode, "query", paths, text)


def query_paused(api, paths, text, out, in_):
    """The query, held at every file-system call below the database's folder until the other side lets it go on."""
    lib = _shim()
    lib.verif_pause(out, in_)
    lib.verif_arm((os.path.dirname(paths[0]) + "/").encode(), 0, 8)
    try:
        r = query(api, paths, text)
    finally:
        n = lib.verif_count()
        lib.verif_disarm()
    r["calls"] = n
    return r


def _steps(api, steps, folder, out, gate=None):
    """Several operations on databases in that folder, one after the other; what each of them did."""
    paths, done = {}, []
    for what, *args in steps:
        if gate:
            gate()
        out.seek(0)
        out.truncate()
        ok, value, exc = True, None, None
        try:
            if what == "create":
                g = api.sel.get_new_gdbms_file_paths(args[0], Path(folder))
                paths[args[0]] = g
                value = pathlist(g)
            elif what == "open":
                paths[args[0]] = gpaths(api, args[1])
            elif what == "delete":
                api.sel.delete_gdbms(args[0], Path(folder))
            elif what == "list":
                value = list(api.sel.list_existing_dbms(path_to_dbms_dir=Path(folder)))
            elif what == "query":
                api.query(args[1], paths[args[0]])
            else:
                raise RuntimeError(what)
        except Hang:
            raise
        except BaseException as e:
            ok, exc = False, type(e).__name__
            value = str(e)[:200]
        done.append((what, ok, exc, value, "no results" in out.getvalue().lower() if what == "query" else None))
    return done


def sequence(api, steps, folder):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), limited():
        return _steps(api, steps, folder, out)


_FILE_EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.listdir", "os.scandir", "os.chdir", "os.chmod", "shutil.copymode", "os.truncate", "os.link", "os.symlink"}


def at_once(api, jobs, folder, seed):
    """As many threads as there are jobs, each doing its steps."""
    import threading

    local = threading.local()

    class PerThread(io.TextIOBase):
        def write(self, text):
            out = getattr(local, "out", None)
            return out.write(text) if out is not None else len(text)

    results = [None] * len(jobs)
    start = threading.Barrier(len(jobs))
    delay, going = random.Random(seed), [True]

    def hook(event, _):
        """Now and then a thread waits just before it uses the file system, so that others get ahead of it."""
        if going[0] and event in _FILE_EVENTS and getattr(local, "out", None) is not None and delay.random() < 0.1:
            time.sleep(delay.choice([0, 0, 0.0005, 0.003]))

    sys.addaudithook(hook)

    def run(k):
        local.out = io.StringIO()
        start.wait()
        try:
            results[k] = _steps(api, jobs[k], folder, local.out)
        except BaseException as e:
            results[k] = f"{type(e).__name__}: {e}"

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with contextlib.redirect_stdout(PerThread()), contextlib.redirect_stderr(io.StringIO()), limited():
            threads = [threading.Thread(target=run, args=(k,)) for k in range(len(jobs))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
    finally:
        going[0] = False
        sys.setswitchinterval(old)
    return results


def op_paused(api, prefix, out, in_, op, *args):
    """The operation, held at every file-system call on paths with this prefix until the other side lets it go on."""
    lib = _shim()
    lib.verif_pause(out, in_)
    lib.verif_arm(prefix.encode(), 0, 8)
    try:
        r = globals()[op](api, *args)
    finally:
        n = lib.verif_count()
        lib.verif_disarm()
    r["calls"] = n
    return r


def read_back(api, path):
    """Every stored record built into a node, and what the node says."""
    Node, load = named("models.wql", "Node"), named("wiggle_query_language.graph.database.database", "load_database")

    def go():
        out = {}
        for k, rec in load(Path(path)).items():
            n = Node(**rec)
            out[k] = {
                "wn": n.wn,
                "label": n.node_label,
                "props": n.properties,
                "rels": [[x.wn, x.relationship_name, x.wn_from_node, x.wn_to_node, x.properties] for x in n.relations or []],
                "names": n.node_relationship_names(),
                "dict": n.dict(),
                "again": Node(**n.dict()).dict(),
                "export": n.export_node(),
            }
        return out

    return guarded(api, go)


def copy_over(api, path, other):
    Node, load, add = (named("models.wql", "Node"), *(named("wiggle_query_language.graph.database.database", x) for x in ("load_database", "add_item_to_database")))

    def go():
        for rec in load(Path(path)).values():
            add(Path(other), Node(**rec).export_node())
        return True

    return guarded(api, go)


_BREAKS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}
_WHERE = ("/json/", "/pathlib", "/shutil.py", "/contextlib.py", "/tempfile.py", "<frozen os>", "<frozen codecs>", "/os.py", "/codecs.py")


def query_broken(api, paths, text, n, what, marks=False):
    """The query, broken off by an exception at the n-th step (line, call or return) of the code; n = 0: only counts.

    With marks: how many steps had been made at each write-like event, and for each line of the repository
    some of the steps at which it was reached.
    """
    from .boot import REPO

    exc = _BREAKS.get(what)
    count, fired, seen, at = 0, "", 0, []
    here, places = {}, {}

    def wanted(code):
        f = code.co_filename
        w = here.get(f)
        if w is None:
            w = here[f] = f.startswith(REPO + "/") or any(x in f for x in _WHERE)
        return w

    def step(frame, event, arg):
        nonlocal count, fired, seen
        if event == "exception":
            return step
        count += 1
        if marks and len(api.guard.trace) != seen:
            seen = len(api.guard.trace)
            at.append(count)
        if marks and frame.f_code.co_filename.startswith(REPO):
            p = places.setdefault(frame.f_code.co_filename, {}).setdefault((frame.f_lineno, event), [])
            if len(p) < 6:
                p.append(count)
            elif count % 7 == 0:
                p[count // 7 % 6] = count
        if count == n:
            fired = f"{event} {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name}"
            raise exc("broken off here")
        return step

    def enter(frame, event, arg):
        if wanted(frame.f_code):
            return step(frame, event, arg)

    g = gpaths(api, paths)

    def run():
        sys.settrace(enter)
        try:
            return bool(api.query(text, g))
        finally:
            sys.settrace(None)

    r = guarded(api, run)
    r["steps"], r["fired"], r["marks"], r["places"] = count, fired, at, [list(x.values()) for x in places.values()]
    return r


def clock_query(api, paths, text, offset, tz=None):
    lib = _shim()
    if tz:
        os.environ["TZ"] = tz
        time.tzset()
    lib.verif_clock(offset)
    return query(api, paths, text)


# --------------------------------------------------------------- state of the process
def process_state(api):
    """What a query must leave as it was in the process that runs it."""
    import decimal
    import gc
    import locale
    import logging
    import random
    import resource
    import tempfile
    import threading
    import warnings

    gc.collect()
    fds = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            fds[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    with open("/proc/self/status") as h:
        umask = [x.split()[1] for x in h if x.startswith("Umask:")]
    kids = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as h:
                kids += h.read().split()
        except OSError:
            pass
    return {
        "open files": sorted(fds.values()),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": umask,
        "threads": threading.active_count(),
        "child processes": kids,
        "signal handlers": {int(s): repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1, signal.SIGXFSZ)},
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "recursion limit": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL),
        "garbage collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()],
        "limit of digits": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(),
        "warning filters": [repr(x) for x in warnings.filters],
        "import path": list(sys.path),
        "random numbers": hash(random.getstate()),
        "tracing": [repr(sys.gettrace()), repr(sys.getprofile())],
        "hooks": [repr(sys.excepthook), repr(sys.displayhook), repr(builtins.open), repr(builtins.print), repr(builtins.__import__)],
        "decimal context": repr(decimal.getcontext()),
        "resource limits": [resource.getrlimit(x) for x in (resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_CPU)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "alarms": [signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_PROF)[0] > 0],
        "blocked signals": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "handlers of logging": [repr(x) for x in logging.getLogger().handlers] + [logging.getLogger().level, logging.root.manager.disable],
        "temporary folder": tempfile.tempdir,
        "process group": [os.getpgid(0), os.getsid(0)],
        "time zone": list(time.tzname),
    }


def query_limited(api, paths, text, limit, extra):
    """The query while files cannot grow beyond `extra` bytes, or only `extra` more files can be open."""
    import resource

    if limit == "fsize":
        what, n = resource.RLIMIT_FSIZE, extra
    else:
        what, n = resource.RLIMIT_NOFILE, max(int(x) for x in os.listdir("/proc/self/fd")) + extra
    old = resource.getrlimit(what)
    resource.setrlimit(what, (n, old[1]))
    try:
        return query(api, paths, text)
    finally:
        resource.setrlimit(what, old)

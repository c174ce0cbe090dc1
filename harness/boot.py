"""Loads the code under test from /repo so that every file it could write lies in a scratch folder.

project_root.get_project_root is pointed at the scratch folder before anything else of
the repository is imported: the default database folder, the log file and the test
folders are all derived from it.
"""
import importlib
import logging
import os
import sys
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")


class Missing(BaseException):
    """Something the monitors call is not there under its name (no exception the code under test could raise)."""


def named(module, name):
    """The function or class of that name: where it was, or wherever else in the repository it lives now."""
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        pass
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if f.startswith(REPO + os.sep) and callable(getattr(m, name, None)):
            return getattr(m, name)
    raise Missing(f"{module}.{name}")


class Home:
    """The functions of a module, looked up when they are used."""

    def __init__(self, module):
        self._module = module

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return named(self._module, name)


class Api:
    """The public functions of the repository the monitors call."""

    def __init__(self):
        b = "wiggle_query_language.graph.database."
        self.sel = Home("wiggle_shell.core.select_gdbms")
        self.database = Home(b + "database")
        self.index = {
            "labels": (b + "indexes.node_labels_index", "node_labels_index"),
            "names": (b + "indexes.relationship_names_index", "relationship_names_index"),
            "noderels": (b + "indexes.node_relationships_index", "node_relationships_index"),
        }
        self.number = Home("wiggle_query_language.graph.state.wiggle_number")

    def query(self, text, paths):
        return named("wiggle_shell.core.query.query", "query")(text, paths)

    def index_fn(self, which, verb):
        module, tail = self.index[which]
        return named(module, f"{verb}_{tail}")


def load(root: str) -> Api:
    sys.dont_write_bytecode = True
    os.makedirs(os.path.join(root, "wiggle_graph_logger"), exist_ok=True)
    for p in (os.path.join(REPO, "wiggle_shell"), REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    import project_root

    project_root.get_project_root = lambda: Path(root)
    api = Api()
    api.root = root
    importlib.import_module("wiggle_shell.core.query.query")
    logging.disable(logging.CRITICAL)
    importlib.import_module("wiggle_shell.core.select_gdbms")
    api.GDBMSFilePath = named("models.wigish", "GDBMSFilePath")
    return api


# ---------------------------------------------------------------- containment guard
class Escape(BaseException):
    """The code under test tried to write outside the scratch folder (blocked)."""


_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_PATH_EVENTS = {
    "os.remove": (0,),
    "os.rename": (0, 1),
    "os.mkdir": (0,),
    "os.rmdir": (0,),
    "os.chmod": (0,),
    "os.chown": (0,),
    "os.link": (0, 1),
    "os.symlink": (1,),
    "os.truncate": (0,),
    "os.utime": (0,),
    "shutil.rmtree": (0,),
    "shutil.move": (0, 1),
    "shutil.copyfile": (1,),
}
_DIR_FD = {
    "os.remove": {0: 1},
    "os.rmdir": {0: 1},
    "os.mkdir": {0: 2},
    "os.rename": {0: 2, 1: 3},
    "os.chmod": {0: 2},
}
_FORBIDDEN = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.kill")


class Guard:
    """Audit hook: records every write-like operation and blocks those outside `allowed`."""

    def __init__(self, allowed):
        self.allowed = [os.path.realpath(a) for a in allowed]
        self.trace = None  # list while tracing
        self.blocked = []
        self.enabled = True
        self.forbid_spawn = True
        self.count = 0
        sys.addaudithook(self._hook)

    def _inside(self, path):
        return any(path == a or path.startswith(a + os.sep) for a in self.allowed)

    def _check(self, event, path, dir_fd=-1):
        if isinstance(path, int):
            return
        try:
            p = os.fsdecode(path)
        except (TypeError, ValueError):
            return
        if p == "/dev/null":
            return
        if isinstance(dir_fd, int) and dir_fd >= 0 and not os.path.isabs(p):
            p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
        # remove, rename ... act on the last component itself, open follows it
        stripped = p.rstrip("/")
        head, tail = os.path.split(stripped)
        if event == "open" or tail in ("", ".", ".."):
            full = os.path.realpath(p)
        else:
            full = os.path.join(os.path.realpath(head or os.getcwd()), tail)
        self.count += 1
        if self.trace is not None:
            self.trace.append((event, full))
        if not self._inside(full):
            self.blocked.append((event, full))
            raise Escape(f"{event} {full}")

    def _hook(self, event, args):
        if not self.enabled:
            return
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None, None))[:3]
            w = isinstance(flags, int) and flags & _WRITE_FLAGS
            if isinstance(mode, str) and any(c in mode for c in "wax+"):
                w = True
            if w:
                self.enabled = False
                try:
                    self._check(event, path)
                finally:
                    self.enabled = True
        elif event in _PATH_EVENTS:
            self.enabled = False
            try:
                fds = _DIR_FD.get(event, {})
                for i in _PATH_EVENTS[event]:
                    if i < len(args):
                        k = fds.get(i)
                        fd = args[k] if k is not None and k < len(args) else -1
                        self._check(event, args[i], fd)
            finally:
                self.enabled = True
        elif event in _FORBIDDEN and self.forbid_spawn:
            self.blocked.append((event, str(args)[:200]))
            raise Escape(f"{event} {args!r:.200}")

#!/usr/bin/env python3
"""Development tool (no check uses it): turn a bug description into /verif/seeded/<id>/.

usage: plant.py SPEC.py [ID...]   SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits, demo)]
edits: list of (file, old, new); old must occur exactly once (or be a (text, n) pair: n-th occurrence).
demo: python source, with `work` (a scratch directory, pathlib.Path) and the helpers of PRELUDE.
Each bug is confirmed in a scratch copy: applies, 181 tests pass, demo 0 without / nonzero with.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
HERE = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))

PRELUDE = '''import json, os, sys, tempfile, io, contextlib
from pathlib import Path
sys.dont_write_bytecode = True
sys.path[:0] = [os.getcwd(), os.path.join(os.getcwd(), "wiggle_shell")]
scratch = tempfile.TemporaryDirectory()
work = Path(scratch.name).resolve()
from models.wigish import GDBMSFilePath
from wiggle_shell.core.query.query import query as run_query
from wiggle_shell.core.select_gdbms import get_new_gdbms_file_paths


def new(name="demo", folder=None):
    with contextlib.redirect_stdout(io.StringIO()):
        return get_new_gdbms_file_paths(name, folder or work)


def run(text, paths):
    """What was printed, or the exception."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            run_query(text, paths)
    except Exception as error:
        return error
    return out.getvalue()


def ok(text, paths):
    got = run(text, paths)
    assert not isinstance(got, Exception), f"{text} was rejected: {got!r}"
    return got


def refused(text, paths):
    got = run(text, paths)
    assert isinstance(got, Exception), f"{text} was accepted"
    return got


def db(paths):
    return json.loads(paths.database_file_path.read_text())


def idx(paths):
    return json.loads(paths.indexes_file_path.read_text())


def wn(paths):
    return int(paths.wiggle_number_file_path.read_text())


def files(paths):
    return [p.read_bytes() for p in (paths.database_file_path, paths.indexes_file_path, paths.wiggle_number_file_path)]


'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''

def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    want = set(sys.argv[2:])
    for bug in mod.BUGS:
        if want and bug["id"] not in want:
            continue
        out = f"{HERE}/seeded/{bug['id']}"
        top = tempfile.mkdtemp(prefix="plant.")
        try:
            tree = os.path.join(top, "repo")
            sh("cp", "-a", "/repo", tree)
            new = os.path.join(top, "out"); os.mkdir(new)
            with open(f"{new}/demo.py", "w") as f: f.write(PRELUDE + bug["demo"].strip() + "\n")
            with open(f"{new}/demo.sh", "w") as f: f.write(SH)
            os.chmod(f"{new}/demo.sh", 0o755)
            clean = sh("bash", f"{new}/demo.sh", cwd=tree)
            problem = None
            if clean.returncode: problem = "demo fails on the clean tree: " + clean.stderr[-600:]
            for path, old, repl in bug["edits"]:
                p = os.path.join(tree, path); s = open(p).read()
                n = 0
                if isinstance(old, tuple): old, n = old
                elif s.count(old) != 1: problem = problem or f"{path}: {s.count(old)} occurrences of {old!r}"
                parts = s.split(old)
                if len(parts) > n + 1:
                    s = old.join(parts[: n + 1]) + repl + old.join(parts[n + 1:])
                open(p, "w").write(s)
            diff = sh("git", "diff", cwd=tree).stdout
            with open(f"{new}/patch.diff", "w") as f: f.write(diff)
            if not problem:
                t = sh("env", f"PYTHONPATH={tree}", "PYTHONHASHSEED=0", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", cwd=tree)
                last = t.stdout.strip().splitlines()[-1:]
                if not str(last).startswith("['181 passed"): problem = f"tests: {last} " + " ".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))
            if not problem:
                d = sh("bash", f"{new}/demo.sh", cwd=tree)
                if d.returncode == 0: problem = "demo passes with the bug"
                elif "AssertionError" not in d.stderr: problem = "demo fails strangely: " + d.stderr[-800:]
            if problem:
                print("NOT PLANTED", bug["id"], problem); continue
            with open(f"{new}/meta.json", "w") as f:
                json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1); f.write("\n")
            if os.path.isdir(out): shutil.rmtree(out)
            shutil.copytree(new, out)
            print("planted", bug["id"], "|", d.stderr.strip().splitlines()[-1][:150])
        finally:
            shutil.rmtree(top)
main()

#!/usr/bin/env python3
"""Development tool: small systematic changes to the code; those that pass its tests are run against the checks.

usage: mutation_sweep.py list|tests|checks WORKDIR [--jobs N] [--scale S] [--only FILEPART]
  list    writes WORKDIR/mutants.json      tests  marks which pass the 181 tests
  checks  runs the checks over those, cheap ones first, until one catches it (WORKDIR/results.jsonl)
"""
import argparse, ast, difflib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("what"); ap.add_argument("work"); ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--scale", default="0.4"); ap.add_argument("--only", default=""); ap.add_argument("--limit", type=int, default=0)
a = ap.parse_args()
os.makedirs(a.work, exist_ok=True)
MUT = a.work + "/mutants.json"
PY = "/opt/venv/bin/python"


def files():
    out = subprocess.run(["git", "ls-files", "*.py"], cwd="/repo", capture_output=True, text=True).stdout.split()
    return [f for f in out if "test" not in f and "__init__" not in f and a.only in f]


def regex_edits(s):
    """Variants of the text of a regular expression."""
    out = []
    for pat, reps in ((r"\\s\*", ["", r"\\s+", " *"]), (r"\\s\+", [r"\\s*", " "]), (r"\\w\*", [r"\\w+"]), (r"\\w\+", [r"\\w*", r"\\w"]), (r"-\+", ["-", "-*"]), (r"\+\?", ["+"]), (r"\\b", [""]),
                      (r"\?(?=[-\[(<>{])", [""]), (r"(?<=[\])])\*", ["+", ""]), (r"(?<=[\])])\+", ["*", ""]), (r"\\d", [r"[1-9]"]), (r"@", [""]), (r"\\\.", [""]), (r"\\\"", [""]), (r"(?<!\?)<\?", ["<", ""]), (r">\?", [">"])):
        for m in re.finditer(pat, s):
            for rep in reps:
                t = s[: m.start()] + rep.replace("\\\\", "\\") + s[m.end():]
                if t != s:
                    out.append(t)
    return out


def mutants_of(path):
    src = open("/repo/" + path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, why):
        b, e = span(n)
        t = (raw[:b] + new.encode() + raw[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((n.lineno, why, t))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and getattr(getattr(n.func, "value", None), "id", "") == "graph_logger":
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n.body[0])}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.FunctionDef):
            for x in [n.returns] + [y.annotation for y in n.args.args]:
                if x is not None:
                    skip |= {id(z) for z in ast.walk(x)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(z) for z in ast.walk(n.annotation)}
    swaps = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    text = lambda n: ast.get_source_segment(src, n) or ""
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = f"{text(n.left)} {swaps[type(n.ops[0])]} {text(n.comparators[0])}"
            add(n, new, "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(text(v) for v in n.values) + ")", "bool op")
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "bool operand dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "not dropped")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"(not ({text(n.test)}))", "condition negated")
            add(n.test, f"(({text(n.test)}) or True)", "condition true")
            add(n.test, f"(({text(n.test)}) and False)", "condition false")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool constant")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int constant")
                add(n, str(n.value - 1) if n.value else "-1", "int constant")
            elif isinstance(n.value, str) and text(n)[:1] in "'\"rf" and len(n.value) < 60 and not text(n).startswith(('"""', "'''")):
                add(n, repr(n.value + "x"), "string constant")
        if isinstance(n, ast.BinOp):
            for o in ("+", "-"):
                add(n, f"{text(n.left)} {o} {text(n.right)}", "arithmetic") if type(n.op).__name__ != {"+": "Add", "-": "Sub"}[o] else None
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)):
            add(n, "pass", "statement dropped")
        if isinstance(n, ast.Continue):
            add(n, "break", "continue became break"); add(n, "pass", "continue dropped")
        if isinstance(n, ast.Break):
            add(n, "pass", "break dropped")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "return None", "return None")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "assignment dropped")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if not n.args and not n.keywords:
                add(n, text(n.func.value), f".{n.func.attr}() dropped")
            alt = {"strip": ["lstrip", "rstrip"], "lower": ["upper"], "upper": ["lower"], "add": ["discard"], "append": [], "union": ["intersection", "difference", "symmetric_difference"], "finditer": [], "findall": [], "issubset": ["issuperset"], "startswith": ["endswith"], "is_file": ["exists"], "is_dir": ["exists"], "isupper": ["isalpha"], "replace": []}
            for x in alt.get(n.func.attr, []):
                add(n.func, f"{text(n.func.value)}.{x}", f"{n.func.attr} became {x}")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "bool", "str", "int") and len(n.args) == 1 and not n.keywords:
            add(n, text(n.args[0]), f"{n.func.id}() dropped")
        if isinstance(n, ast.Call) and (n.args or n.keywords) and len(n.keywords) > 0:
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.value.id == "IGNORECASE":
                    add(k.value, "0", "IGNORECASE dropped")
        if isinstance(n, (ast.List, ast.Set, ast.Tuple)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            o, c = {"List": "[]", "Set": "{}", "Tuple": "()"}[type(n).__name__]
            for i in range(len(n.elts)):
                rest = ", ".join(text(v) for j, v in enumerate(n.elts) if j != i)
                add(n, o + rest + ("," if o == "(" else "") + c, "element dropped")
        if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(len(n.keys)):
                add(n, "{" + ", ".join(f"{text(k)}: {text(v)}" for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + "}", "entry dropped")
        if isinstance(n, ast.ListComp) and n.generators[0].ifs:
            g = n.generators[0]
            add(g.ifs[0], "True", "filter dropped")
    if "regex" in path or "patterns" in path:
        for n in ast.walk(tree):
            if id(n) in skip or not isinstance(n, (ast.Constant, ast.JoinedStr)):
                continue
            t = text(n)
            if not t or not re.match(r"r?f?r?[\"']", t):
                continue
            for new in regex_edits(t):
                add(n, new, "regex")
    seen, res = {src}, []
    for line, why, t in out:
        if t not in seen:
            seen.add(t)
            d = "".join(difflib.unified_diff(src.splitlines(True), t.splitlines(True), "a/" + path, "b/" + path))
            if d.count("\n") and not d.endswith("\n"):
                d += "\n"
            res.append({"file": path, "line": line, "why": why, "diff": d, "text": t})
    return res


def scratch():
    top = tempfile.mkdtemp(prefix="mut.")
    subprocess.run(["cp", "-a", "/repo", top + "/repo"], check=True)
    return top


def test(batch):
    top = scratch()
    try:
        for m in batch:
            p = top + "/repo/" + m["file"]
            orig = open(p).read()
            open(p, "w").write(m["text"])
            try:
                r = subprocess.run([PY, "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "no:warnings"], cwd=top + "/repo", env={**os.environ, "PYTHONPATH": top + "/repo"}, capture_output=True, text=True, timeout=60)
                m["passes"] = r.returncode == 0 and "181 passed" in r.stdout
            except subprocess.TimeoutExpired:
                m["passes"] = False
            open(p, "w").write(orig)
            subprocess.run(["git", "checkout", "-q", "."], cwd=top + "/repo")
            subprocess.run(["git", "clean", "-fdq"], cwd=top + "/repo")
    finally:
        shutil.rmtree(top, ignore_errors=True)


ORDER = "C14 C33 C13 C02 C24 C32 C09 C12 C10 C16 C17 C15 C18 C22 C08 C06 C05 C23 C07 C25 C30 C01 C26 C34".split()


def run_checks(m):
    top = scratch()
    try:
        repo, ver = top + "/repo", top + "/verif"
        os.mkdir(ver)
        subprocess.run(f"git -C /verif archive HEAD harness check known_findings.txt properties.jsonl MANIFEST.json | tar -x -C {ver}", shell=True, check=True)
        os.makedirs(ver + "/evidence"); os.makedirs(ver + "/replays")
        if subprocess.run(["patch", "-p1", "-s", "-f"], input=m["diff"], text=True, cwd=repo, capture_output=True).returncode:
            return  # made from an older state
        caught, odd = None, []
        for c in ORDER:
            try:
                r = subprocess.run(["./check", c, "--tier", "quick", "--seed", "1", "--scale", a.scale], cwd=ver, env={**os.environ, "VERIF_REPO": repo}, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + " timeout"); continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                caught = c
                break
            if r.returncode != 0:
                odd.append(f"{c} {r.returncode} {(r.stdout + r.stderr)[-150:]}")
        with open(a.work + "/results.jsonl", "a") as h:
            h.write(json.dumps({"file": m["file"], "line": m["line"], "why": m["why"], "diff": m["diff"], "caught": caught, "odd": odd}) + "\n")
    finally:
        shutil.rmtree(top, ignore_errors=True)


if a.what == "list":
    ms = [m for f in files() for m in mutants_of(f)]
    json.dump(ms, open(MUT, "w"))
    print(len(ms), "mutants")
elif a.what == "tests":
    ms = json.load(open(MUT))
    todo = [m for m in ms if "passes" not in m]
    size = max(1, min(20, len(todo) // a.jobs))
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(test, [todo[i : i + size] for i in range(0, len(todo), size)]))
    json.dump(ms, open(MUT, "w"))
    print(sum(m.get("passes", False) for m in ms), "of", len(ms), "pass the tests")
else:
    done = {json.loads(l)["diff"] for l in open(a.work + "/results.jsonl")} if os.path.exists(a.work + "/results.jsonl") else set()
    todo = [m for m in json.load(open(MUT)) if m.get("passes") and m["diff"] not in done]
    if a.limit:
        todo = todo[: a.limit]
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(run_checks, todo))

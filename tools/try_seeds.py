#!/usr/bin/env python3
"""Development tool: run checks against planted bugs in scratch copies.

usage: try_seeds.py [--all-checks] [--tier T] [--jobs N] [ID...]     prints which checks catch which bug
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
HERE = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--checks", default=""); ap.add_argument("--tier", default="quick")
ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--seed", default="1"); ap.add_argument("--scale", default="1.0")
ap.add_argument("--patch", help="try this patch (expecting quiet) instead of the seeded ones")
a = ap.parse_args()
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]

def one(bug):
    top = tempfile.mkdtemp(prefix="try.")
    try:
        repo, ver = top + "/repo", top + "/verif"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        os.mkdir(ver)
        for x in ("harness", "check", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            subprocess.run(["cp", "-a", f"{HERE}/" + x, ver], check=True)
        os.makedirs(ver + "/evidence"); os.makedirs(ver + "/replays")
        if a.patch:
            patch, own = a.patch, None
        else:
            patch, own = f"{HERE}/seeded/{bug}/patch.diff", json.load(open(f"{HERE}/seeded/{bug}/meta.json"))["property"]
        if bug != "clean": subprocess.run(["git", "apply", patch], cwd=repo, check=True)
        checks = a.checks.split(",") if a.checks else props if a.all_checks else [own]
        for c in checks:
            t = time.time()
            try:
                r = subprocess.run(["./check", c, "--tier", a.tier, "--seed", a.seed, "--scale", a.scale], cwd=ver, env={**os.environ, "VERIF_REPO": repo}, capture_output=True, text=True, timeout=1000)
                code, out = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                code, out = "timeout", ""
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            print(f"{bug:34} {c} {'own' if c == own else '   '} exit={code} {time.time()-t:5.0f}s {len(v)} violations", flush=True)
            if code not in (0, 1): print(out[-1500:], flush=True)
            if a.patch and code: print(out[:1500], flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)

ids = a.ids or sorted(os.listdir(f"{HERE}/seeded"))
if a.patch: ids = [os.path.basename(a.patch)]
with ThreadPoolExecutor(a.jobs) as ex:
    list(ex.map(one, ids))

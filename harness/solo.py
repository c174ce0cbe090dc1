"""Runs queries in a process of its own: python -m harness.solo < {"root","cwd","paths","texts"}."""
import json
import os
import sys


def main():
    d = json.load(sys.stdin)
    from . import boot, ops

    api = boot.load(d["root"])
    api.guard = boot.Guard([d["root"], *d["allowed"]])
    if d.get("cwd"):
        os.chdir(d["cwd"])
    if d.get("umask") is not None:
        os.umask(d["umask"])
    out = []
    for t in d["texts"]:
        r = ops.query(api, d["paths"], t)
        out.append({k: r[k] for k in ("ok", "value", "exc", "msg", "out", "hang")})
    sys.__stdout__.write(json.dumps(out) + "\n")


if __name__ == "__main__":
    main()

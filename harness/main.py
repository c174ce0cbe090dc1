"""Entry point: ./check Cxx [--tier T] [--seed N] [--case N ...]"""
import argparse
import importlib
import os
import pkgutil
import sys


def all_specs():
    from . import checks

    out = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module(f"harness.checks.{m.name}")
        for s in getattr(mod, "SPECS", []):
            s.prepare = getattr(mod, "prepare", None)
            out[s.prop] = s
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int, action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    specs = all_specs()
    if a.prop not in specs:
        print(f"unknown property {a.prop}; there are {' '.join(sorted(specs))}")
        return 2
    from .core import run

    spec = specs[a.prop]
    if a.scale != 1.0:
        spec.n = {k: max(1, int(v * a.scale)) for k, v in spec.n.items()}
    if spec.prepare:
        spec.prepare(sys.argv)
    return run(spec, a.tier, a.seed, only=a.case)


if __name__ == "__main__":
    sys.exit(main())

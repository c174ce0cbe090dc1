"""The interactive shell as a process of its own: python -m harness.shellmain ROOT."""
import sys


def main():
    from . import boot

    root = sys.argv[1]
    boot.load(root)
    import runpy

    sys.argv = ["wiggleshell.py"]
    sys.modules.pop("wiggle_shell.wiggleshell", None)
    runpy.run_module("wiggle_shell.wiggleshell", run_name="__main__")


if __name__ == "__main__":
    main()

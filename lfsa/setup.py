"""Checks that the tools the analysis needs are here, and analyses one configuration to see that they work."""
import sys
from . import build
from .common import program


def main():
    for t in (build.CLANG, build.LINK, build.OPT, "/usr/lib/llvm-18/bin/llvm-nm"):
        build.run([t, "--version"])
    p = program("single")
    print("lfsa: %d functions in configuration single" % len(p.mod.funcs))
    return 0 if p.mod.funcs else 1


if __name__ == "__main__":
    sys.exit(main())

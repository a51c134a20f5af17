#!/usr/bin/env python3
"""Checks that the tools are there and that the specification can be read.
The checks build everything else themselves, from /repo's working tree."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import build, catalog, tlc  # noqa: E402


def main():
    catalog.main()
    subprocess.run([build.CXX, "--version"], check=True,
                   stdout=subprocess.DEVNULL)
    mods = sorted(f for f in os.listdir(tlc.SPEC) if f.endswith(".tla"))
    r = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY"] + mods,
                       cwd=tlc.SPEC, capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout:
        print(r.stdout[-3000:], r.stderr[-3000:])
        return 1
    print(f"{len(mods)} modules of the specification can be read")
    return 0


if __name__ == "__main__":
    sys.exit(main())

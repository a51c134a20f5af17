#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

  check.py P01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE

exit 0: the property held on everything explored
exit 1: it does not, with a line  VIOLATION property=<id> replay=<path>
other:  no answer (the machinery failed)
"""
import argparse
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from vf import context, props, replay  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float, default=None,
                    help="seconds of random exploration, thorough only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay.run(a.replay)
        if a.property not in props.PROPS:
            print("no such property:", a.property)
            return 2
        c = context.Context(a.property, a.tier, a.seed, a.budget)
        return c.decide(props.PROPS[a.property])
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

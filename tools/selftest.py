#!/usr/bin/env python3
"""Is a trace that differs from what the library did rejected?  Records some
scenarios on the current tree, changes one observation at a time, and lets TLC
judge each changed trace on its own."""
import copy
import json
import os
import random
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import build, catalog, conform, scen, tlc  # noqa: E402
from vf.build import Unit  # noqa: E402
from vf.gen import Cap  # noqa: E402
from vf.props import ALL, typed_caps, typed_docs, typed_units  # noqa: E402


def changes(a, o):
    """(what, changed observation) for a call a observed as o"""
    def but(**kw):
        return {**copy.deepcopy(o), **kw}
    if o["st"] == "exc":
        yield "exception not thrown", but(st="ok")
        if o["msg"]:
            yield "message lost", but(msg=[120])
    else:
        if a["op"] != "new" or a["src"] != "conv":
            yield "exception thrown", but(st="exc")
        yield "valid", but(valid=1 - o["valid"])
        if o["msg"]:
            yield "message lost", but(msg=[])
    yield "crash", but(st="crash")
    if a["op"] not in ("conv", "split", "convlast", "convfields") and \
            a.get("src") != "conv":
        yield "eof", but(eof=1 - o["eof"])
        yield "line", but(line=o["line"] + 1)
        yield "position", but(pos=o["pos"] + 1)
    if a["op"] in ("get", "conv", "hdr", "raw", "split") and o["vals"]:
        yield "value lost", but(vals=o["vals"][:-1])
        yield "value repeated", but(vals=o["vals"] + o["vals"][-1:])
        v = copy.deepcopy(o["vals"])
        if isinstance(v[-1], list) and v[-1] and isinstance(v[-1][-1], int):
            v[-1][-1] ^= 1
            yield "value changed", but(vals=v)
        elif isinstance(v[-1], list):
            v[-1] = v[-1] + [97]
            yield "value changed", but(vals=v)
    if a["op"] == "loop" and o["x"]:
        yield "round lost", but(x=o["x"][:-1])
        yield "round repeated", but(x=o["x"] + o["x"][-1:])
    if a["op"] in ("fexists", "ignore") and o["x"]:
        yield "answer", but(x=[1 - o["x"][0]])
    if a["op"] == "chain":
        for k in ("has", "ran", "err"):
            x = copy.deepcopy(o["x"])
            x[-1][k] = 1 - x[-1][k]
            yield "chain: " + k, but(x=x)


def main():
    catalog.main()
    rng = random.Random(1)
    caps = typed_caps(["n", "qet", "qem2ie"])
    exe = build.build(typed_units(caps))
    scs = list(typed_docs("s", caps, weights=ALL, p_bad=0.2, p_mal=0.1)
               (rng, 60))
    recorded, crashes = scen.execute(exe, scs)
    assert not crashes
    assert not conform.validate(recorded).bad
    todo = []
    for s, obs in recorded:
        for k in range(len(obs)):
            a, o = json.loads(s.args[k] + "}"), json.loads(obs[k])
            for what, x in changes(a, o):
                todo.append((what, a["op"], s, obs[:k] + [json.dumps(x)], k))
    by = {}
    for x in todo:
        by.setdefault((x[1], x[0]), []).append(x)
    missed, n = [], 0
    for (op, what), xs in sorted(by.items()):
        for _, _, s, obs, k in rng.sample(xs, min(2, len(xs))):
            t = s.copy(s.id)
            t.args, t.lines = s.args[:k + 1], s.lines[:k + 1]
            try:
                bad = conform.validate([(t, obs)], workers=1).bad
            except tlc.TLCError:
                bad = True
            n += 1
            if not bad:
                missed.append((op, what, s.id, k))
                print("ACCEPTED", op, what, t.text(), obs[-1][:300])
    print(f"{n} changed observations of {len(by)} kinds, "
          f"{len(missed)} accepted")
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())

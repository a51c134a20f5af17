"""Conformance: executes scenarios on the library and validates the recorded
traces against the specification with TLC."""
import json
import os
import re
import tempfile

from . import scen, tlc

CFG = """SPECIFICATION TraceSpec
INVARIANT Conform
POSTCONDITION Complete
ALIAS Printed
CHECK_DEADLOCK FALSE
"""


TIMEOUT = (98, -14, -9)  # exits which say nothing about the library


class Outcome:
    def __init__(self):
        self.scenarios = 0
        self.calls = 0
        self.states = 0
        self.generated = 0
        self.bad = None      # (scenario, observations, index of the call)
        self.detail = ""


def validate(recorded, workers=None, timeout=800):
    """recorded: list of (scenario, observations); returns an Outcome"""
    o = Outcome()
    fd, path = tempfile.mkstemp(prefix="vf-trace-", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for s, obs in recorded:
                f.write(s.trace(obs) + "\n")
                o.calls += len(obs)
        o.scenarios = len(recorded)
        r = tlc.run("Trace", CFG, env={"TRACE": path}, workers=workers,
                    timeout=timeout)
        o.states, o.generated = r.states, r.generated
        if r.ok:
            return o
        if r.violated != "Conform":
            raise tlc.TLCError("trace validation: " + str(r.violated) + "\n" +
                               r.out[-3000:])
        t, l = int(r.last("t")), int(r.last("l"))
        s, obs = recorded[t - 1]
        o.bad = (s, obs, l)
        o.detail = r.trace[-1]
        return o
    finally:
        os.unlink(path)


def check(exe, scenarios, timeout=800):
    """executes, validates; a rejection is confirmed by a second run"""
    recorded, first = scen.execute(exe, scenarios)
    out = validate(recorded, timeout=timeout)
    if out.bad:
        s = out.bad[0]
        again, crashes = scen.execute(exe, [s])
        o2 = validate(again, workers=1)
        if not o2.bad:
            # only together with its predecessors?
            again, crashes = scen.execute(exe, scenarios)
            o2 = validate(again)
        if o2.bad:
            out.bad, out.detail = o2.bad, o2.detail
        elif any(rc in TIMEOUT for _, rc, _ in first):
            # nothing is concluded from a call that once was slow
            o2.calls += out.calls
            return o2
        else:
            # behaviour that depends on something else than the scenario
            out.detail += "\n(this does not happen every time)"
        out.detail += "\n".join(f"\ncrash in {i}: exit {rc}\n{err}"
                                for i, rc, err in crashes or first)
    return out


def check_threads(exe, scenarios):
    """the scenarios in several threads of one program"""
    recorded, err = scen.execute_threads(exe, scenarios)
    if recorded is None:
        return None
    out = validate(recorded)
    if out.bad:
        k = err.find("WARNING: ThreadSanitizer")
        out.detail += "\n" + err[max(k, 0):][:4000]
    return out


def title(bad):
    s, obs, l = bad
    return f"scenario {s.id} ({s.tag}) is rejected at call {l}"


def describe(bad, detail):
    """readable account of a rejected trace"""
    s, obs, l = bad
    def show(j):
        def conv(x):
            if isinstance(x, list) and x and all(isinstance(c, int) for c in x):
                return repr(bytes(c & 255 for c in x))[1:]
            if isinstance(x, list):
                return [conv(c) for c in x]
            if isinstance(x, dict):
                return {k: conv(v) for k, v in x.items()}
            return x
        return json.dumps(conv(j))
    lines = [f"scenario {s.id} ({s.tag}), rejected at call {l}"]
    for k, (a, o) in enumerate(zip(s.args + ['{"op":"end"'], obs), 1):
        lines.append(f"{'>>' if k == l else '  '} {k}. {show(json.loads(a + '}'))}"
                     f"\n       observed {show(json.loads(o))}")
        if k == l:
            break
    def bytes_to_text(m):
        try:
            b = bytes(int(x) for x in m.group(1).split(","))
            return "<<" + repr(b)[1:] + ">>"
        except ValueError:
            return m.group(0)
    lines.append("state of the specification after that call:")
    lines.append(re.sub(r"<<((?:\s*\d+,?\s*)+)>>", bytes_to_text, detail))
    return "\n".join(lines)

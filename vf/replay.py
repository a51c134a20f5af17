"""Executes the scenario of a violation again."""
import json

from . import build, conform, scen, setups


def run(path):
    with open(path) as f:
        d = json.load(f)
    if d["kind"] == "setup":
        diff = setups.decide(d["form"], [{"names": d["options"], "ok":
                                          d["expected"] == "accepted"}])[0]
        if diff:
            print(d["account"])
            print(f"VIOLATION property={d['property']} replay={path}")
            return 1
        print("the list is decided as specified now")
        return 0
    units = [build.Unit(**u) for u in d["units"]]
    threads = d["kind"] == "threads"
    try:
        exe = build.build(units, d["variant"], True if not threads else
                          "thread" if build.thread_sanitizer() else False)
    except build.BuildError as e:
        print(e)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    if d["kind"] == "compile":
        print("it compiles now")
        return 0
    if threads:
        o = conform.check_threads(exe, [scen.Scenario.load(x)
                                        for x in d["scenarios"]])
    else:
        o = conform.check(exe, [scen.Scenario.load(d["scenario"])])
    if o and o.bad:
        print(conform.describe(o.bad, o.detail))
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the scenario conforms now")
    return 0

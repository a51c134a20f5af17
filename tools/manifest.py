#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import props  # noqa: E402

MODELS = {
    "P01": "MCRows, MCGetline, MCReader", "P02": "MCSplit",
    "P03": "MCSplit, MCSplitter", "P04": "MCEncode", "P05": "MCReader",
    "P06": "MCReader", "P07": "MCParser", "P08": "MCModes",
    "P09": "MCParser, MCReader", "P10": "MCParser", "P11": "MCParser",
    "P12": "MCInt", "P13": "MCValues", "P14": "MCNumeral",
    "P15": "MCRestrict", "P16": "MCConvert", "P17": "MCChain",
    "P18": "MCLoop", "P19": "MCSystem", "P20": "MCSystem, MCConverter",
    "P21": "MCGetline, MCInt", "P22": "MCSetupSpec", "P23": "MCParser",
    "P24": "MCReport"}

NOTE = ("The specification is explored exhaustively by TLC within the constants "
        "given in the evidence; the library, built from the working tree with "
        "address and undefined behaviour sanitizers, is executed on every input "
        "of a bounded space and on seeded random ones, and TLC validates every "
        "recorded call against the specification. Beyond the bounds it is "
        "sampling. Trusted: TLC, the compiler, the harness which records what "
        "calls deliver.")
EXTRA = {
    "P14": " Nearest values are decided by exact rational arithmetic in the "
           "specification on the bits which the library delivers; infinities "
           "and not-a-numbers are out of scope.",
    "P22": " Which lists of options compile is found with clang on every list "
           "the specification enumerates.",
    "P23": " For rows with NUL only progress, bounds and the end of data are "
           "specified.",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": f"TLA+ specification checked by TLC ({MODELS[p]}); "
                     "executions of the library validated against it by TLC "
                     "(Trace)",
        "level": "model_checking",
        "level_note": NOTE + EXTRA.get(p, ""),
    } for p in ids if p in props.PROPS]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": checks,
         "not_applicable": [{"property": p, "reason": "check not built yet"}
                            for p in ids if p not in props.PROPS],
         "notes": "TLA+ with TLC. No hooks in /repo: the public API delivers "
                  "all that is observed. VERIF_SEED seeds every random choice."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Mutates the library, one place at a time, in scratch copies, and runs the
checks which are closest to the file until one reports a violation.

  mutate_code.py OUT [COUNT [SEED [WORKERS]]]

OUT receives a line of JSON for every mutant.  Mutants which no check reports
are equivalent, or show what the checks do not look at.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import Copy, WORK, copy_checks, inside  # noqa: E402

FILES = {
    "splitter.hpp": "P03 P05 P20 P04 P02 P24 P23 P06",
    "parser.hpp": "P09 P05 P17 P11 P19 P10 P24 P06 P18 P08 P01 P07 P23",
    "converter.hpp": "P24 P16 P20 P10 P17 P08",
    "extract.hpp": "P13 P12 P14 P16 P21",
    "restrictions.hpp": "P15",
    "common.hpp": "P01 P21 P23",
    "setup.hpp": "P22 P03 P02",
}
RULES = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<=", "<"), (r">=", ">"),
    (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r" \+ (\d)\b", r" + \1 + 1"), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r" = 0\b", " = 1"), (r" > 0\b", " > 1"),
    (r"\+\+(?=\w)", "--"), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"if \(!", "if ("), (r"while \(!", "while ("),
    (r"(?<=\w) > (?=\w)", " >= "), (r"(?<=\w) < (?=\w)", " <= "),
]


def mutants():
    for name in FILES:
        path = os.path.join("include/ss", name)
        lines = open(os.path.join("/repo", path)).read().split("\n")
        for k, line in enumerate(lines):
            code = line.split("//")[0]
            if not code.strip() or code.lstrip().startswith(
                    ("#", "template", "static_assert", "*")):
                continue
            for pattern, new in RULES:
                for m in re.finditer(pattern, code):
                    out = code[:m.start()] + m.expand(new) + code[m.end():]
                    yield path, k, line, out
            s = code.strip()
            if re.fullmatch(r"(\+\+)?[\w.>\-\[\]:<]+(\(.*\)| \+?-?= .*|\+\+)?;",
                            s) and not s.startswith(
                                ("return", "using", "break", "continue",
                                 "friend", "bool", "size_t", "std::string ",
                                 "std::vector", "char")):
                yield path, k, line, ""


def try_one(n, m):
    path, k, old, new = m
    rec = {"n": n, "file": path, "line": k + 1, "old": old.strip(),
           "new": new.strip()}
    with Copy(f"mut{n}") as c:
        p = os.path.join(c, path)
        lines = open(p).read().split("\n")
        assert lines[k] == old
        lines[k] = new
        open(p, "w").write("\n".join(lines))
        # the single header as well
        verif = os.path.join(WORK, f"mverif{n}")
        copy_checks(verif)
        try:
            base = os.path.basename(path)
            for prop in FILES[base].split():
                r = inside(c, f"VF_NOMODEL=1 nice -n 19 timeout 900 python3 "
                           f"{verif}/check.py {prop} --tier quick")
                if r.returncode == 1:
                    text = r.stdout
                    rec["result"] = "compile" if re.search(
                        r"does not compile|error:", text) else "killed"
                    rec["by"] = prop
                    return rec
                if r.returncode:
                    rec["result"] = f"exit {r.returncode}"
                    rec["err"] = (r.stdout + r.stderr)[-300:]
                    return rec
            rec["result"] = "alive"
            return rec
        finally:
            shutil.rmtree(verif, ignore_errors=True)


def main():
    out = sys.argv[1]
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    all_ = list(mutants())
    rng.shuffle(all_)
    print(len(all_), "mutants in all", flush=True)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex, \
            open(out, "a") as f:
        for rec in ex.map(lambda a: try_one(*a), enumerate(all_[:count])):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    main()

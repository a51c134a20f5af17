#!/usr/bin/env python3
"""Does the specification say anything?  Changes one place of it at a time, in
a copy, and runs a check: the change has to be noticed, by a law TLC checks on
the specification (M) or by executions of the library it no longer allows (C).

  mutate_spec.py [NAME...]
"""
import concurrent.futures
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mutate"

# name: (module, old, new, property)
MUTANTS = {
 "line-cr": ("Rows", "cr == lf /\\ nl > p /\\ d[nl - 1] = CR", "cr == FALSE", "P01"),
 "last-line-lost": ("Rows", "AtEnd(d, p) == p > Len(d)", "AtEnd(d, p) == p >= Len(d)", "P01"),
 "blank": ("Rows", "IF ln.text = <<>> THEN SkipBlank(d, ln.next, n + 1)",
           "IF ln.text = <<>> THEN SkipBlank(d, ln.next, n)", "P09"),
 "delim-skip": ("Split", "!.skip = Len(D) - 1", "!.skip = 0", "P02"),
 "trim-left-inside": ("Split", "IF c \\in S.tl THEN a\n", "IF c \\in S.tl \\cup S.tr THEN a\n", "P02"),
 "pend-lost": ("Split", "!.cur = Added(AddedAll(@, a.pend), c)", "!.cur = Added(@, c)", "P02"),
 "doubled-quote": ("Split", 'THEN [a EXCEPT !.m = "quoted", !.cur = Added(@, c)]\n                    ELSE [a EXCEPT !.m = "bad"]',
                   'THEN [a EXCEPT !.m = "quoted"]\n                    ELSE [a EXCEPT !.m = "bad"]', "P03"),
 "quote-behind-space": ("Split", 'IF c \\in S.q /\\ a.m = "closed"', "IF c \\in S.q", "P03"),
 "escape-end": ("Split", '[] a.m \\in {"pesc", "qesc"}  -> [err |-> "escape", f |-> <<>>]',
                '[] a.m = "qesc"  -> [err |-> "escape", f |-> <<>>]', "P03"),
 "eol-kept": ("Rows", "!.piece = @ \\o r.eol", "!.piece = Append(@, LF)", "P05"),
 "open-escape": ("Rows", "EscapeRun(S, s, Len(s)) % 2 = 1", "EscapeRun(S, s, Len(s)) > 0", "P05"),
 "limit": ("Rows", "r.joins >= S.lim", "r.joins > S.lim", "P06"),
 "limit-escaped-only": ("Rows", "!.joins = @ + 1", '!.joins = IF why = "quote" THEN @ + 1 ELSE @', "P06"),
 "eof-reads": ("Parser", "q   == MoveTo(p, row.next, p.line + row.lines)",
               "q   == MoveTo(p, row.next, p.line + 1)", "P09"),
 "error-sticks": ("Parser", "Cleared(p)       == [p EXCEPT !.valid = TRUE, !.why = NoFail]",
                  "Cleared(p)       == [p EXCEPT !.why = NoFail]", "P07"),
 "map-order": ("Convert", "ELSE fields[map[i]]]", "ELSE fields[map[Len(map) + 1 - i]]]", "P10"),
 "failed-use-maps": ("Parser", 'IF n.w # "" THEN HeaderFail(p, n.w, n.text)\n        ELSE IF fs = <<>> THEN HeaderFail(q, "nofields", <<>>)',
                     'IF n.w # "" THEN HeaderFail(p, n.w, n.text)\n        ELSE IF fs = <<>> THEN HeaderFail([q EXCEPT !.map = <<>>], "nofields", <<>>)', "P11"),
 "use-always-skips": ("Parser", "IF q.line = q.hline THEN SkipLine(m) ELSE m", "SkipLine(m)", "P10"),
 "int-limit": ("Values", "IF neg THEN t.min ELSE t.max", "t.max", "P12"),
 "minus-unsigned": ("Values", "neg == t.sg /\\ Negative(s)", "neg == Negative(s)", "P12"),
 "variant-last": ("Values", "ELSE FirstOf(ts, s, i + 1)", "ELSE IF i = 1 THEN None ELSE FirstOf(ts, s, i + 1)", "P13"),
 "optional-fails": ("Values", "IN  IF r.ok THEN Some(<<43>> \\o r.v) ELSE Some(<<45>>)",
                    "IN  IF r.ok THEN Some(<<43>> \\o r.v) ELSE None", "P13"),
 "float-tie": ("Values", "h < 0 \\/ (h = 0 /\\ inc)", "h < 0", "P14"),
 "float-empty": ("Values", "Len(ip) + Len(fp) > 0", "TRUE", "P14"),
 "gte": ("Values", '[] t.k = "gte" -> C(1) >= 0', '[] t.k = "gte" -> C(1) > 0', "P15"),
 "oor": ("Values", "C(1) < 0 \\/ C(2) > 0", "C(1) <= 0 \\/ C(2) > 0", "P15"),
 "columns": ("Convert", "IF map = <<>> /\\ Len(T) # Len(fields)", "IF map = <<>> /\\ Len(T) > Len(fields)", "P16"),
 "first-bad": ("Convert", "FirstBad(T, cells, conv, 1)", "FirstBad(T, cells, conv, IF Len(T) > 1 /\\ ~conv[2].ok THEN 2 ELSE 1)", "P24"),
 "chain-no": ("Parser", 'good == try /\\ c.ok /\\ a.cb # "no"', "good == try /\\ c.ok", "P17"),
 "chain-errors": ("Parser", "err |-> a.oe /\\ ~ok]", "err |-> a.oe /\\ ~good]", "P17"),
 "loop-eof": ("Parser", "IF n = 0 \\/ p.eof\n    THEN [p |-> p, o |-> [Obs EXCEPT !.x = rounds]]\n    ELSE LET g == GetNext(p, T)\n         IN", "IF n = 0\n    THEN [p |-> p, o |-> [Obs EXCEPT !.x = rounds]]\n    ELSE LET g == GetNext(p, T)\n         IN", "P18"),
 "loop-body-lost": ("Parser", "b == IF B = <<>> THEN IgnoreNext(g.p) ELSE GetNext(g.p, B)", "b == IF B = <<>> THEN g ELSE GetNext(g.p, B)", "P18"),
 "move-clears": ("System", 'DoMove(i)            == Live(i, "parser") /\\ Result(i, [p |-> inst[i],',
                 'DoMove(i)            == Live(i, "parser") /\\ Result(i, [p |-> Cleared(inst[i]),', "P19"),
 "assign-keeps-map": ("System", "![i] = inst[j], ![j] = Dead", "![i] = [inst[j] EXCEPT !.map = inst[i].map], ![j] = Dead", "P19"),
 "split-keeps-error": ("Converter", "[c EXCEPT !.last = s,", "[c EXCEPT !.last = IF line = <<>> THEN [s EXCEPT !.err = c.last.err] ELSE s,", "P20"),
 "ignore-joined": ("Parser", "MoveTo(p, LineAt(p.d, p.pos).next, p.line + 1)",
                   "IF p.S.ml THEN LET r == RowAt(p.S, p.D, p.d, p.pos) IN MoveTo(p, r.next, p.line + r.lines) ELSE MoveTo(p, LineAt(p.d, p.pos).next, p.line + 1)", "P09"),
 "setup-trim": ("SetupSpec", '/\\ Has1(L, "trim") => ~Has1(L, "left") /\\ ~Has1(L, "right")',
                '/\\ Has1(L, "trim") => ~Has1(L, "left")', "P22"),
 "setup-multi": ("SetupSpec", '=> Has1(L, "quote") \\/ Has1(L, "escape")', '=> Has1(L, "quote")', "P22"),
 "report-line": ("Parser", "ELSE [c.fail EXCEPT !.name = p.name, !.line = line]]",
                 "ELSE [c.fail EXCEPT !.name = p.name, !.line = line + 1]]", "P24"),
 "encode-no-escape": ("Encode", "\\/ c \\in S.e\n", "\\/ FALSE\n", "P04"),
 "header-multiline": ("Parser", "ELSE SplitRow([p.S EXCEPT !.ml = FALSE], p.D, p.hrow)",
                      "ELSE [SplitRow(p.S, p.D, p.hrow) EXCEPT !.err = IF @ = \"quote\" THEN \"\" ELSE @]", "P11"),
}


def one(name):
    mod, old, new, prop = MUTANTS[name]
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("spec", "vf", "harness", "check.py"):
        subprocess.run(["cp", "-a", os.path.join(ROOT, x), d], check=True)
    os.symlink(os.path.join(ROOT, "build"), os.path.join(d, "build"))
    try:
        path = os.path.join(d, "spec", mod + ".tla")
        with open(path) as f:
            s = f.read()
        if s.count(old) != 1:
            return name, prop, f"PLACE FOUND {s.count(old)} TIMES", ""
        with open(path, "w") as f:
            f.write(s.replace(old, new))
        said = []
        for what, env in (("M", "VF_NOCONF"), ("C", "VF_NOMODEL")):
            r = subprocess.run(["python3", "check.py", prop], cwd=d,
                               env={**os.environ, env: "1"},
                               capture_output=True, text=True)
            if "does not hold for the" in r.stderr:
                said.append("M: " + r.stderr.split("TLCError: ")[-1]
                            .split(" does not")[0])
            elif "VIOLATION" in r.stdout:
                said.append("C")
            elif r.returncode:
                said.append(what + ": error")
            print(name, what, r.returncode, r.stderr.strip()[-150:]
                  if r.returncode == 2 and not said else "", flush=True)
        return name, prop, "; ".join(said) or "NOT NOTICED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    names = sys.argv[1:] or list(MUTANTS)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        out = list(ex.map(one, names))
    for name, prop, said, _ in out:
        print(f"{name:22} {prop} {said}")
    return any("NOT NOTICED" in x[2] or "PLACE" in x[2] for x in out)


if __name__ == "__main__":
    sys.exit(main())

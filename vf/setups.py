"""Lists of setup options: which of them does the library accept?"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile

from . import build, catalog

# names as in SetupSpec.tla
OPTIONS = {
    "quote": "ss::quote<'\"'>", "quote1": "ss::quote<'\\''>",
    "escape": "ss::escape<'\\\\'>", "escape2": "ss::escape<'^', '\"'>",
    "trim": "ss::trim<' '>", "trim2": "ss::trim<'_', '\"'>",
    "left": "ss::trim_left<' '>", "left2": "ss::trim_left<'\\t', '\\\\'>",
    "right": "ss::trim_right<'_', ' '>", "right2": "ss::trim_right<'\\'', '^'>",
    "multi": "ss::multiline", "multi2": "ss::multiline_restricted<2>",
    "strerr": "ss::string_error", "throws": "ss::throw_on_error",
    "noempty": "ss::ignore_empty", "noheader": "ss::ignore_header",
    "alien": "long",
}
CHARS = {"quote": '"', "quote1": "'", "escape": "\\", "escape2": '^"',
         "trim": " ", "trim2": '_"', "left": " ", "left2": "\t\\",
         "right": "_ ", "right2": "'^"}


def text(names):
    return ", ".join(OPTIONS[n] for n in names)


class Listed(catalog.Setup):
    """a setup given by a list of options"""

    def __init__(self, name, names, nested=False):
        has = lambda *ns: "".join(CHARS[n] for n in names if n in ns)
        both = has("trim", "trim2")
        ml = 0 if "multi" in names else 2 if "multi2" in names else None
        super().__init__(
            name, has("quote", "quote1"), has("escape", "escape2"),
            both + has("left", "left2"), both + has("right", "right2"), ml,
            "noempty" in names, "noheader" in names, opts="listed")
        self.names, self.nested = list(names), nested
        self.em = "s" if "strerr" in names else \
            "t" if "throws" in names else "b"

    def cpp(self, em):
        assert em == self.em
        t = text(self.names)
        return f"ss::setup<{t}>" if self.nested else t

    def register(self):
        catalog.SETUPS[self.name] = self
        return self


# how a list is used: a line of a program
FORMS = {
    "setup": lambda k, t: f"template struct ss::setup<{t}>;",
    "nested": lambda k, t: f"template struct ss::setup<ss::setup<{t}>>;",
    "converter": lambda k, t:
        f"inline bool f{k}(ss::converter<{t}>& x) {{ return x.valid(); }}",
    "parser": lambda k, t:
        f"inline bool f{k}(ss::parser<{t}>& x) {{ return x.eof(); }}",
    "parser of setup": lambda k, t:
        f"inline bool f{k}(ss::parser<ss::setup<{t}>>& x) "
        "{ return x.eof(); }",
}
HEADER = {"setup": "setup", "nested": "setup", "converter": "converter",
          "parser": "parser", "parser of setup": "parser"}


class Compiler:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-setups-")
        self.runs = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, form, lists):
        """(exit status, indices of the lists named in error messages, text)"""
        self.runs += 1
        path = os.path.join(self.dir, f"b{self.runs}_{id(lists)}.cpp")
        head = [f"#include <ss/{HEADER[form]}.hpp>"]
        with open(path, "w") as f:
            f.write("\n".join(head + [FORMS[form](k, text(x))
                                      for k, x in enumerate(lists)]) + "\n")
        p = subprocess.run(
            [build.CXX, "-std=c++17", "-fsyntax-only", "-w",
             "-ferror-limit=0", "-ftemplate-backtrace-limit=0",
             "-fno-caret-diagnostics",
             "-I" + os.path.join(build.REPO, "include"), path],
            capture_output=True, text=True)
        named = {int(n) - 2 for n in re.findall(
            re.escape(path) + r":(\d+):", p.stderr)}
        return p.returncode, named, p.stderr

    def accepted(self, form, names):
        return self.run(form, [names])[0] == 0


def decide(form, lists):
    """lists: [{names, ok}] as the specification has them; returns what is
    different: (form, names, expected, text of the compiler)"""
    good = [x["names"] for x in lists if x["ok"]]
    bad = sorted((x["names"] for x in lists if not x["ok"]), key=len)
    c = Compiler()
    diff = []
    try:
        with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
            n = max(1, len(good) // build.JOBS)
            parts = [good[k:k + n] for k in range(0, len(good), n)]
            for part, (rc, named, err) in zip(
                    parts, ex.map(lambda p: c.run(form, p), parts)):
                if rc == 0:
                    continue
                for k in sorted(named):
                    if len(diff) < 5 and not c.accepted(form, part[k]):
                        diff.append((form, part[k], True, err[:1500]))
                if not named:
                    diff.append((form, [], True, err[:1500]))
            # what the first error of a list hides (templates are made once)
            # is compiled on its own
            rc, named, err = c.run(form, bad) if bad else (1, set(), "")
            left = [x for k, x in enumerate(bad) if k not in named]
            for x, ok in zip(left, ex.map(lambda x: c.accepted(form, x),
                                          left[:3000])):
                if ok:
                    diff.append((form, x, False, "accepted"))
        return diff, len(good), len(bad), len(left)
    finally:
        c.close()

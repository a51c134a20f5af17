"""Scenarios: sequences of calls, how they are executed by the harness and
recorded as traces for the specification."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import zlib

from . import build, catalog

BUFFER_NAME = b"CSV data buffer"


def hx(b):
    return b.hex() if b else "-"


def hxs(bs):
    return ",".join(hx(b) for b in bs) if bs else "~"


def jb(b):
    return "[" + ",".join(map(str, b)) + "]"


def jbs(bs):
    return "[" + ",".join(jb(b) for b in bs) + "]"


def listed(setup):
    """a setup that is not in the catalogue is given by its options"""
    s = catalog.SETUPS[setup]
    return {"opts": s.names} if hasattr(s, "names") else {}


class Scenario:
    """calls on objects; objects are numbered from 1 in order of creation"""

    def __init__(self, id, tag=""):
        self.id, self.tag = id, tag
        self.lines = []      # for the harness
        self.args = []       # for the specification, json without the end
        self.n = 0
        self.keys = set()    # setups needed
        self.em = {}         # error modes of the parsers
        self.files = 0       # number of the first file
        self.resources = False

    def _op(self, harness_, **kw):
        self.lines.append(harness_)
        parts = []
        for k, v in kw.items():
            if isinstance(v, bytes):
                v = jb(v)
            elif isinstance(v, list) and v and isinstance(v[0], bytes):
                v = jbs(v)
            else:
                v = json.dumps(v)
            parts.append(f'"{k}":{v}')
        self.args.append("{" + ",".join(parts))

    def new(self, setup, em, data=b"", src="buffer", delim=b","):
        self.n += 1
        self.keys.add((setup, em))
        name = BUFFER_NAME
        if src == "file":
            name = b"data" + bytes([97 + self.files + self.n - 1]) + b".csv"
        elif src == "missing":
            name = b"no/such/file"
        self.em[self.n] = em
        if src == "file" and len(data) < 60000 and \
                zlib.crc32(f"{self.id} {self.n}".encode()) % 3 == 0:
            # a file that can only be read once, in pieces
            src = "pipe"
        self._op(f"new {setup}/{em} {src} {hx(delim)} {hx(data)} "
                 f"{self.files + self.n - 1}", op="new", setup=setup, em=em, delim=delim, data=data,
                 name=name, src="ok" if src in ("buffer", "file", "pipe") else src,
                 i=self.n, **listed(setup))
        return self.n

    def conv_new(self, setup, em):
        self.n += 1
        self.keys.add((setup, em))
        self._op(f"new {setup}/{em} conv - - 0", op="new", setup=setup, em=em,
                 src="conv", i=self.n, **listed(setup))
        return self.n

    def get(self, i, tl, want=None):
        """want: the values known beforehand, as texts"""
        kw = {} if want is None else {"want": list(want)}
        self._op(f"get {i} {tl}", op="get", i=i, tl=tl, **kw)

    def loop(self, i, tl, n, style=0):
        self._op(f"loop {i} {tl} {n} {style}", op="loop", i=i, tl=tl, n=n,
                 style=style)

    def loopwith(self, i, tl, n, body=""):
        """body: a list of types to read in each round, "" to ignore a row"""
        self._op(f"loopwith {i} {tl} {n} {body or '-'}", op="loopwith", i=i,
                 tl=tl, n=n, body=body)

    def chain(self, i, name, variant=-1, results=None, oes=None):
        # the library has no chains where errors are thrown
        assert self.em[i] != "t"
        tls = catalog.CHAINS[name][1]
        n = len(tls)
        results = results if results is not None else [True] * n
        oes = oes if oes is not None else [True] * n
        cbs = []
        for k in range(n):
            kind = catalog.cb_kind(name, variant, k)
            cbs.append("none" if kind == "none" else "void" if kind[1] == "v"
                       else "yes" if results[k] else "no")
        self._op(f"chain {i} {name} {variant} "
                 f"{''.join('1' if r else '0' for r in results)} "
                 f"{''.join('1' if r else '0' for r in oes)}",
                 op="chain", i=i, tls=tls, cbs=cbs,
                 oes=[1 if r else 0 for r in oes])

    def ignore(self, i):
        self._op(f"ignore {i}", op="ignore", i=i)

    def raw(self, i):
        self._op(f"raw {i}", op="raw", i=i)

    def hdr(self, i):
        self._op(f"hdr {i}", op="hdr", i=i)

    def fexists(self, i, f):
        self._op(f"fexists {i} {hx(f)}", op="fexists", i=i, field=f)

    def use(self, i, fs):
        self._op(f"use {i} {hxs(fs)}", op="use", i=i, fields=list(fs))

    def drain(self, i, tl, n):
        """reads to the end, at most n + 1 times"""
        self._op(f"drain {i} {tl} {n + 1}", op="drain", i=i, tl=tl)

    def take(self, i, tl):
        """a read whose outcome is open, of one line"""
        self._op(f"take {i} {tl}", op="take", i=i, tl=tl)

    def query(self, i):
        self._op(f"query {i}", op="query", i=i)

    def move(self, i):
        self._op(f"move {i}", op="move", i=i)

    def swap(self, i, j):
        self._op(f"swap {i} {j}", op="swap", i=i, j=j)

    def assign(self, i, j):
        self._op(f"assign {i} {j}", op="assign", i=i, j=j)

    def delete(self, i):
        self._op(f"delete {i}", op="delete", i=i)

    def conv(self, i, tl, line, delim=b",", want=None):
        kw = {} if want is None else {"want": list(want)}
        self._op(f"conv {i} {tl} {hx(line)} {hx(delim)}", op="conv", i=i,
                 tl=tl, line=line, delim=delim, **kw)

    def split(self, i, line, delim=b",", want=None):
        kw = {} if want is None else {"want": list(want)}
        self._op(f"split {i} {hx(line)} {hx(delim)}", op="split", i=i,
                 line=line, delim=delim, **kw)

    def convlast(self, i, tl):
        self._op(f"convlast {i} {tl}", op="convlast", i=i, tl=tl)

    def convfields(self, i, tl, fields):
        self._op(f"convfields {i} {tl} {hxs(fields)}", op="convfields", i=i,
                 tl=tl, fields=list(fields))

    def copy(self, id):
        s = Scenario(id, self.tag)
        s.lines, s.args = list(self.lines), list(self.args)
        s.n, s.keys, s.resources = self.n, set(self.keys), self.resources
        s.em, s.files = dict(self.em), self.files
        return s

    def text(self):
        return "\n".join([f"scenario {self.id}"] + self.lines +
                         (["resources"] if self.resources else []) +
                         ["end"]) + "\n"

    def dump(self):
        return {"id": self.id, "tag": self.tag, "lines": self.lines,
                "args": self.args, "resources": self.resources}

    @staticmethod
    def load(d):
        s = Scenario(d["id"], d["tag"])
        s.lines, s.args = d["lines"], d["args"]
        s.resources = d["resources"]
        return s

    def calls(self):
        return len(self.lines) + (1 if self.resources else 0)

    def trace(self, obs):
        """the trace line, obs: json texts of the observations"""
        args = self.args + (['{"op":"end"'] if self.resources else [])
        return ('{"id":"%s","ops":[' % self.id +
                ",".join(a + ',"o":' + o + "}" for a, o in zip(args, obs)) +
                "]}")


CRASH = ('{"st":"crash","valid":0,"msg":[],"vals":[],"x":[],"eof":0,"line":0,'
         '"pos":0,"uq":0}')


class HarnessError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("LC_")}
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=97:"
                         "allocator_may_return_null=1:"
                         "max_allocation_size_mb=2000:symbolize=0")
    top = build.locales()
    if top:
        e["LOCPATH"], e["VF_LOCALE"] = top, build.FOREIGN
    e["UBSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:print_stacktrace=0"
    return e


def execute(exe, scenarios, timeout=600, max_crashes=2):
    """executes scenarios; returns (list of (scenario, observations), notes on
    crashes).  A call that crashes has observation CRASH and is the last of
    its scenario."""
    done, crashes = [], []
    todo = list(scenarios)
    cwd = tempfile.mkdtemp(prefix="vf-run-")
    try:
        while todo:
            path = os.path.join(cwd, "scenarios.txt")
            with open(path, "w") as f:
                for s in todo:
                    f.write(s.text())
            try:
                p = subprocess.run([exe, path], cwd=cwd, env=_env(),
                                   capture_output=True, timeout=timeout)
                rc = p.returncode
                out = p.stdout
                err = p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as e:
                rc, out, err = 98, e.stdout or b"", "timeout"
            seen = {}
            finished = False
            for line in out.decode(errors="replace").split("\n"):
                if line == "done":
                    finished = True
                    continue
                w = line.split(" ", 2)
                if len(w) == 3 and w[2].endswith("}"):
                    seen.setdefault(w[0], []).append(w[2])
            if rc == 0 and finished:
                for s in todo:
                    if len(seen.get(s.id, ())) != s.calls():
                        raise HarnessError("observations missing in " + s.id)
                    done.append((s, seen[s.id]))
                return done, crashes
            if rc in (2, 3):
                raise HarnessError(f"harness ends with {rc}: {err[-2000:]}")
            # the first scenario that is not complete is the one that crashed
            k = 0
            while k < len(todo) and \
                    len(seen.get(todo[k].id, ())) == todo[k].calls():
                done.append((todo[k], seen[todo[k].id]))
                k += 1
            if k == len(todo):
                # all calls were observed: destruction of the last objects
                k -= 1
                done.pop()
                obs = seen[todo[k].id][:-1] + [CRASH]
            else:
                obs = seen.get(todo[k].id, []) + [CRASH]
            crashes.append((todo[k].id, rc, err[-3000:]))
            done.append((todo[k], obs))
            todo = todo[k + 1:]
            if len(crashes) >= max_crashes:
                return done, crashes
        return done, crashes
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


THREADS = 4
RACE = 66                    # exit code when memory was shared


def execute_threads(exe, scenarios, timeout=600):
    """executes the scenarios in several threads of one program; the last
    of the traces has a further call, whose first number says whether they had
    memory in common.
    Returns None for the traces if nothing can be said."""
    cwd = tempfile.mkdtemp(prefix="vf-run-")
    try:
        path = os.path.join(cwd, "scenarios.txt")
        with open(path, "w") as f:
            for s in scenarios:
                f.write(s.text())
        env = _env()
        # files do not order the threads
        env["TSAN_OPTIONS"] = (f"io_sync=0:exitcode={RACE}:halt_on_error=0:"
                               "report_signal_unsafe=0:history_size=4")
        for _ in range(4):
            try:
                p = subprocess.run([exe, path, str(THREADS)], cwd=cwd,
                                   env=env, capture_output=True,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                return None, "timeout"
            err = p.stderr.decode(errors="replace")
            # the sanitizer itself could not start
            if "FATAL: ThreadSanitizer" not in err:
                break
        else:
            return None, err
        if p.returncode in (2, 3):
            raise HarnessError(f"harness ends with {p.returncode}: "
                               f"{err[-2000:]}")
        if p.returncode in (98, -signal.SIGALRM, -signal.SIGKILL):
            return None, err
        seen, finished = {}, False
        for line in p.stdout.decode(errors="replace").split("\n"):
            finished = finished or line == "done"
            w = line.split(" ", 2)
            if len(w) == 3 and w[2].endswith("}"):
                seen.setdefault(w[0], []).append(w[2])
        if not finished or p.returncode not in (0, RACE):
            joined = scenarios[0].copy("threads")
            return [(joined, [CRASH])], err
        done = []
        for s in scenarios:
            if len(seen.get(s.id, ())) != s.calls():
                raise HarnessError("observations missing in " + s.id)
            done.append((s, seen[s.id]))
        shared = p.returncode == RACE and "data race" in err or \
            "heap-use-after-free" in err
        s, obs = done.pop()
        joined = s.copy(s.id)
        joined.resources = True
        done.append((joined, obs + [
            '{"st":"ok","valid":1,"msg":[],"vals":[],"x":[%d,0],"eof":0,'
            '"line":0,"pos":0,"uq":0}' % shared]))
        return done, err
    finally:
        shutil.rmtree(cwd, ignore_errors=True)

"""Runs TLC and reads what it says."""
import os
import re
import shutil
import subprocess
import tempfile
import time

from .catalog import ROOT

SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:" \
       "/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC did not give an answer"""


class Result:
    def __init__(self):
        self.ok = False
        self.violated = None      # name of the violated property
        self.states = 0           # distinct states
        self.generated = 0        # states generated (transitions taken)
        self.trace = []           # text of the states of a counterexample
        self.out = ""
        self.wall = 0.0

    def last(self, var):
        """text of a variable in the last state of the counterexample"""
        if not self.trace:
            return None
        m = re.search(r"^/\\ %s = (.*?)(?=^/\\ |\Z)" % re.escape(var),
                      self.trace[-1], re.S | re.M)
        return m.group(1).strip() if m else None


def run(module, cfg, env=None, workers=None, heap="8g", timeout=800,
        extra=(), simulate=None, deadlock=False):
    """module: name in spec/, cfg: text of the configuration"""
    res = Result()
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfgp = os.path.join(tmp, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
               "-config", cfgp, "-metadir", os.path.join(tmp, "meta"),
               "-workers", str(workers or os.cpu_count() or 4),
               "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += simulate
        cmd += list(extra)
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise TLCError(f"TLC on {module}: no answer in {timeout} s")
        res.wall = time.time() - t
        res.out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct", p.stdout)
        if m:
            res.generated, res.states = int(m[-1][0]), int(m[-1][1])
        if p.returncode == 0 and "No error has been found" in p.stdout:
            res.ok = True
            return res
        m = re.search(r"Error: (?:Invariant|Action property|Temporal property)"
                      r"?\s*(\S+) (?:is|was) violated", p.stdout)
        v = m.group(1) if m else None
        if v is None and "Temporal properties were violated" in p.stdout:
            v = "temporal"
        if v is None and re.search(r"POSTCONDITION|PostCondition|Post-condition",
                                   p.stdout) and "violated" in p.stdout:
            v = "postcondition"
        if v is None and simulate and p.returncode == 0:
            res.ok = True
            return res
        if v is None:
            raise TLCError(f"TLC on {module} ends with {p.returncode}:\n" +
                           res.out[-4000:])
        res.violated = v
        res.trace = re.findall(r"^State \d+: .*?\n(.*?)(?=^State \d+: |^\d+ states |^Error|^The number|\Z)",
                               p.stdout, re.S | re.M)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

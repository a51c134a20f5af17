"""One run of one check: what it did, what it found, its evidence."""
import itertools
import json
import os
import random
import shutil
import tempfile
import time

from . import build, catalog, conform, scen, tlc
from .catalog import ROOT

EVIDENCE = os.path.join(ROOT, "evidence")
CHUNK = 120_000            # calls validated in one run of TLC


class Violation(Exception):
    def __init__(self, what, data):
        self.what, self.data = what, data


class Context:
    def __init__(self, pid, tier, seed, budget=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.budget = budget if budget is not None else \
            float(os.environ.get("VF_BUDGET", "560"))
        self.t0 = time.time()
        catalog.main()
        self.models = []       # what TLC explored of the specification
        self.families = {}     # what was executed and validated
        self.samples = []
        self.states = self.transitions = self.traces = self.calls = 0
        self.extra = {}
        self.pending = []      # random families, explored further at the end

    def rng(self, name):
        return random.Random(f"{self.seed}/{self.pid}/{name}")

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough or quick)

    def some(self, xs):
        """all of them, the third in the quick tier"""
        return xs[2:3] if self.quick else tuple(xs)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------
    def model(self, module, constants=None, invariants=(), properties=(),
              spec="Spec", constraint=None, symmetry=None, view=None,
              check="", workers=None, timeout=800):
        """checks the specification itself"""
        if os.environ.get("VF_NOMODEL"):
            return
        cfg = [f"SPECIFICATION {spec}"]
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-")
                       else f"CONSTANT {k} {v}")
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {i}" for i in properties]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append("CHECK_DEADLOCK FALSE")
        r = tlc.run(module, "\n".join(cfg) + "\n", workers=workers,
                    timeout=timeout)
        if not r.ok:
            # the specification does not depend on the code
            raise tlc.TLCError(f"{module}: {r.violated} does not hold for the "
                               f"specification\n{r.out[-4000:]}")
        if r.states == 0:
            raise tlc.TLCError(f"{module}: nothing explored")
        self.states += r.states
        self.transitions += r.generated
        self.models.append({
            "module": module, "constants": {k: str(v)[:300] for k, v in
                                            (constants or {}).items()},
            "holds": list(invariants) + list(properties),
            "states": r.states, "transitions": r.generated,
            "wall_s": round(r.wall, 1)})
        self.log(f"model {module}: {r.states} states")

    def generate(self, module, constants, invariants=("Show",), tag="DOC",
                 simulate=None, spec="Spec", view=None, **kw):
        """what the invariant Show of a module prints; explores the module
        exhaustively, or (simulate: number, depth) some of its behaviours"""
        cfg = [f"SPECIFICATION {spec}"]
        for k, v in constants.items():
            cfg.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-")
                       else f"CONSTANT {k} {v}")
        cfg += [f"INVARIANT {i}" for i in invariants]
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append("CHECK_DEADLOCK FALSE")
        sim = None
        if simulate:
            num, depth = simulate
            sim = ["-simulate", f"num={num}", "-depth", str(depth), "-seed",
                   str(self.rng(module + str(constants)).getrandbits(31))]
        if sim:
            kw["workers"] = 1
        r = tlc.run(module, "\n".join(cfg) + "\n", simulate=sim, **kw)
        if not r.ok:
            raise tlc.TLCError(f"{module}: {r.violated} does not hold for the "
                               f"specification\n{r.out[-4000:]}")
        out, mark = [], f'"{tag} '
        for x in r.out.split("\n"):
            if x.startswith(mark):
                out.append(json.loads(json.loads(x)[len(tag) + 1:]))
        if not out:
            raise tlc.TLCError(f"{module}: nothing generated")
        self.states += r.states
        self.transitions += r.generated
        self.models.append({
            "module": module, "constants": {k: str(v)[:300] for k, v in
                                            constants.items()},
            "holds": [i for i in invariants if i != "Show"],
            "generated": len(out), "simulated": bool(sim),
            "states": r.states, "transitions": r.generated,
            "wall_s": round(r.wall, 1)})
        self.log(f"generated by {module}: {len(out)}")
        return out

    def tour(self, family, units, menu, calls, pairs=False, walks=None,
             limit=None, variant="headers"):
        """sequences of calls generated from the specification (MCTour).
        menu: pairs of scenarios, one which creates the objects and one which
        holds each call there is.  Every call is made once in every state that
        is reached within so many calls (pairs: after every call), or
        (walks: number) some behaviours of that length are taken."""
        d = tempfile.mkdtemp(prefix="vf-menu-")
        try:
            path = os.path.join(d, "menu")
            with open(path, "w") as f:
                for new, each in menu:
                    f.write('{"new":[%s],"calls":[%s]}\n' % (
                        ",".join(a + "}" for a in new.args),
                        ",".join(a + "}" for a in each.args)))
            if walks:
                got = self.generate("MCTour", {"MaxCalls": calls}, (),
                                    spec="SpecWalk", tag="TOUR",
                                    simulate=(walks, calls + 2),
                                    env={"MENU": path})
            else:
                got = self.generate("MCTour", {"MaxCalls": calls}, (),
                                    spec="SpecTour", tag="TOUR",
                                    view="ViewLast" if pairs else "View",
                                    workers=1, env={"MENU": path})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        todo = sorted({(x["start"], tuple(x["calls"])) for x in got})
        # what goes on is not needed by itself
        todo = [a for a, b in zip(todo, todo[1:] + [(0, ())])
                if a[0] != b[0] or b[1][:len(a[1])] != a[1]]
        if limit and len(todo) > limit:
            todo = sorted(self.rng(family).sample(todo, limit))

        def scenarios():
            for k, (start, seq) in enumerate(todo):
                new, each = menu[start - 1]
                sc = new.copy(f"T{k}")
                for x in seq:
                    sc.lines.append(each.lines[x - 1])
                    sc.args.append(each.args[x - 1])
                yield sc
        self.conform(family, units, scenarios(), variant)

    def evaluate(self, module, values):
        """what the specification says about values: the module reads them
        from the file IN and writes its answers to the file OUT"""
        d = tempfile.mkdtemp(prefix="vf-eval-")
        try:
            env = {"IN": os.path.join(d, "in"), "OUT": os.path.join(d, "out")}
            with open(env["IN"], "w") as f:
                f.writelines(json.dumps({"v": v}) + "\n" for v in values)
            tlc.run(module, "", env=env, workers=1)
            with open(env["OUT"]) as f:
                out = [json.loads(x) for x in f]
            assert len(out) == len(values)
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------------
    def build(self, units, variant="headers"):
        try:
            return build.build(units, variant)
        except build.BuildError as e:
            # a program which uses the library in a documented way
            raise Violation("does not compile", {
                "kind": "compile", "variant": variant, "error": str(e),
                "units": [u.args() for u in units]})

    def same_text(self):
        """is ssp.hpp what its generator makes of the headers?"""
        d = tempfile.mkdtemp(prefix="vf-gen-")
        try:
            build.variant_flags("generated", d)
            with open(os.path.join(d, "generated_ssp.hpp"), "rb") as f, \
                    open(os.path.join(build.REPO, "ssp.hpp"), "rb") as g:
                return f.read() == g.read()
        except build.BuildError:
            return False
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def conform(self, family, units, scenarios, variant="headers"):
        """executes the scenarios on the library, validates the traces"""
        if os.environ.get("VF_NOCONF"):
            return
        exe = self.build(units, variant)
        self._conform(family, exe, units, scenarios, variant)

    def _conform(self, family, exe, units, scenarios, variant):
        f = self.families.setdefault(family, {
            "variant": variant, "scenarios": 0, "calls": 0, "states": 0})
        it = iter(scenarios)
        while True:
            chunk, calls = [], 0
            for s in it:
                chunk.append(s)
                calls += s.calls()
                if calls >= CHUNK:
                    break
            if not chunk:
                return
            o = conform.check(exe, chunk)
            if len(self.samples) < 6 and (
                    not self.samples or self.samples[-1]["family"] != family):
                s = chunk[len(chunk) // 2]
                self.samples.append({"family": family, "scenario":
                                     s.text().split("\n")[:12]})
            f["scenarios"] += o.scenarios
            f["calls"] += o.calls
            f["states"] += o.states
            self.traces += o.scenarios
            self.calls += o.calls
            self.states += o.states
            self.transitions += o.generated
            if o.bad:
                s, obs, l = o.bad
                raise Violation(f"{family}: " + conform.title(o.bad), {
                    "kind": "trace", "variant": variant, "family": family,
                    "units": [u.args() for u in units],
                    "scenario": s.dump(), "call": l, "observed": obs[:l],
                    "account": conform.describe(o.bad, o.detail)})
            self.log(f"{family}: {f['scenarios']} scenarios, "
                     f"{f['calls']} calls conform")

    def explore(self, family, units, make, quick, variant="headers"):
        """random scenarios: make(rng, n) gives n of them.  The thorough tier
        goes on with new ones as long as there is time."""
        if os.environ.get("VF_NOCONF"):
            return
        exe = self.build(units, variant)
        self._conform(family, exe, units,
                      make(self.rng(family), quick), variant)
        if not self.quick:
            self.pending.append((family, exe, units, make, quick, variant))

    def threads(self, family, units, make, quick, variant="headers"):
        """random scenarios in several threads of one program, each with
        objects of its own"""
        if os.environ.get("VF_NOCONF"):
            return
        tsan = build.thread_sanitizer()
        try:
            exe = build.build(units, variant, "thread" if tsan else False)
        except build.BuildError as e:
            raise Violation("does not compile", {
                "kind": "compile", "variant": variant, "error": str(e),
                "units": [u.args() for u in units]})
        f = self.families.setdefault(family, {
            "variant": variant, "scenarios": 0, "calls": 0, "states": 0,
            "threads": scen.THREADS, "race_detector": tsan})
        rng = self.rng(family)
        for k in range(self.n(1, 12)):
            todo = list(make(rng, quick))
            o = conform.check_threads(exe, todo)
            if o is None:
                self.log(f"{family}: no time")
                continue
            f["scenarios"] += o.scenarios
            f["calls"] += o.calls
            f["states"] += o.states
            self.traces += o.scenarios
            self.calls += o.calls
            self.states += o.states
            self.transitions += o.generated
            if o.bad:
                s, obs, l = o.bad
                raise Violation(f"{family}: " + conform.title(o.bad), {
                    "kind": "threads", "variant": variant, "family": family,
                    "units": [u.args() for u in units],
                    "scenarios": [s.dump() for s in todo],
                    "account": conform.describe(o.bad, o.detail)})
        self.log(f"{family}: {f['scenarios']} scenarios, "
                 f"{f['calls']} calls conform")

    def more(self):
        for k in itertools.count(1):
            for family, exe, units, make, quick, variant in self.pending:
                if time.time() - self.t0 > self.budget:
                    return
                self._conform(family, exe, units,
                              make(self.rng(f"{family}/{k}"), 4 * quick),
                              variant)
            if not self.pending:
                return

    # ------------------------------------------------------------------
    def decide(self, prop):
        level = "model_checking"
        v = None
        try:
            prop(self)
            if not self.quick:
                self.more()
        except Violation as e:
            v = e
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "calls_validated": self.calls,
               "samples": self.samples or ["none"],
               "specification_models": self.models,
               "families": self.families}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "assumptions": [
                  "the sanitizers and the C++ compiler work",
                  "TLC evaluates the specification correctly",
                  "the harness reports what the calls deliver"],
              "wall_s": round(time.time() - self.t0, 1),
              "violations": 1 if v else 0}
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if v is None:
            self.log(f"{self.pid} holds: {self.traces} traces, "
                     f"{self.calls} calls, {self.states} states")
            return 0
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + ".json")
        v.data["property"] = self.pid
        v.data["what"] = v.what
        with open(path, "w") as f:
            json.dump(v.data, f, indent=1)
        print(v.data.get("account") or v.data.get("error") or v.what)
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1

#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them, in scratch copies.

  plant.py confirm ID...            patch applies, builds, passes the tests;
                                    the demonstration tells the trees apart
  plant.py run ID [PROPERTY...]     runs checks (default: its own property)
                                    with the patch applied
The copy is bound over /repo in a mount namespace of its own.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
WORK = "/tmp/plant"


def inside(copy, cmd, **kw):
    return subprocess.run(
        ["unshare", "-Urm", "bash", "-c",
         f"mount --bind {copy} /repo && cd /repo && {cmd}"],
        capture_output=True, text=True, **kw)


def copy_checks(to):
    """/verif without what it builds"""
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(ROOT, to, symlinks=True, ignore=shutil.ignore_patterns(
        "build", ".git", "seeded", "__pycache__"))


class Copy:
    def __init__(self, name, patch=None):
        self.dir = os.path.join(WORK, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(WORK, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", self.dir], check=True)
        if patch:
            subprocess.run(["git", "-C", self.dir, "apply", patch], check=True)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def confirm(id):
    d = os.path.join(SEEDED, id)
    demo = os.path.join(WORK, "demo-" + id)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
        "*.diff", "*.patch", "meta.json"))
    meta = json.load(open(os.path.join(d, "meta.json")))
    for k in ("property", "needs", "what_it_breaks"):
        assert meta[k], k
    try:
        with Copy("clean-" + id) as c:
            r = inside(c, f"bash {demo}/demo.sh")
            if r.returncode:
                return id, "demo fails on the unchanged tree\n" + r.stdout + r.stderr
        with Copy("patched-" + id, os.path.join(d, "patch.diff")) as c:
            out = os.path.join(c, "_build", "o.json")
            r = inside(c, f"bash /opt/vp/test.sh {out}")
            if r.returncode:
                return id, "does not build\n" + r.stdout[-1500:] + r.stderr[-500:]
            res = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = base["stable"]
            lost = sorted(set(base) - set(res["passed"]))
            if lost:
                return id, "tests fail: " + "; ".join(lost)[:600]
            r = inside(c, f"bash {demo}/demo.sh")
            if r.returncode == 0:
                return id, "demo passes with the patch\n" + r.stdout
            return id, "ok: " + (r.stdout + r.stderr)[-300:].strip()
    finally:
        shutil.rmtree(demo, ignore_errors=True)


def run(id, props):
    d = os.path.join(SEEDED, id)
    props = props or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    with Copy("run-" + id, os.path.join(d, "patch.diff")) as c:
        verif = os.path.join(WORK, "verif-" + id)
        copy_checks(verif)
        try:
            for p in props:
                r = inside(c, f"VF_NOMODEL=1 python3 {verif}/check.py {p} "
                           "--tier quick")
                v = [x for x in r.stdout.split("\n") if "VIOLATION" in x]
                t = [x for x in r.stdout.split("\n") if x.startswith("scenario")]
                print(id, p, r.returncode, v[:1], t[:1],
                      r.stderr[-300:] if r.returncode == 2 else "", flush=True)
        finally:
            shutil.rmtree(verif, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
            for id, text in ex.map(confirm, sys.argv[2:] or
                                   sorted(os.listdir(SEEDED))):
                print(id, text, flush=True)
    else:
        run(sys.argv[2], sys.argv[3:])

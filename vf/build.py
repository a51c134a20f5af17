"""Builds the conformance harness from the current working tree of /repo."""
import concurrent.futures
import hashlib
import os
import shutil
import subprocess
import tempfile

from . import catalog

ROOT = catalog.ROOT
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
JOBS = os.cpu_count() or 4

FOREIGN = "de_DE.UTF-8"
CXX = "clang++"
FLAGS = ["-std=c++17", "-O0", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS",
         "-fsanitize=address",
         # those of the undefined group that ASan does not find as well
         "-fsanitize=signed-integer-overflow,shift,bounds,pointer-overflow,"
         "bool,enum,return,unreachable,float-cast-overflow,"
         "integer-divide-by-zero", "-fno-sanitize-recover=all",
         "-fno-omit-frame-pointer",
         # what is not initialised is the same garbage every time
         "-ftrivial-auto-var-init=pattern"]


class BuildError(Exception):
    """the library does not compile with the harness"""


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_headers():
    d = os.path.join(REPO, "include", "ss")
    return [os.path.join(d, n) for n in sorted(os.listdir(d))] + \
        [os.path.join(REPO, "ssp.hpp")]


def harness_files():
    d = os.path.join(ROOT, "harness")
    return [os.path.join(d, n) for n in sorted(os.listdir(d))
            if n.endswith((".hpp", ".cpp"))]


class Unit:
    """one setup in one error mode, with the groups of lists compiled in"""

    def __init__(self, setup, em, groups, parser=True, converter=False,
                 loops=(), chains=(), listed=None):
        if listed:
            from . import setups
            setups.Listed(setup, *listed).register()
        self.setup, self.em = setup, em
        self.groups = tuple(groups)
        self.loops = tuple(loops)
        self.chains = tuple(chains)
        self.parser, self.converter = parser, converter

    @property
    def key(self):
        return f"{self.setup}/{self.em}"

    def args(self):
        x = catalog.SETUPS[self.setup]
        listed = [x.names, x.nested] if hasattr(x, "names") else None
        return {"listed": listed, "setup": self.setup, "em": self.em, "groups": self.groups,
                "parser": self.parser, "converter": self.converter,
                "loops": self.loops, "chains": self.chains}

    def source(self):
        lists = " ".join(f"VF_LISTS_{g}(X)" for g in self.groups)
        loops = " ".join(f"VF_LISTS_{g}(X)" for g in self.loops)
        cs = "VF_CHAINS_chain(X)" if "chain" in self.chains else ""
        pr = "VF_CHAINS_str(X)" if "probe" in self.chains else ""
        return "\n".join([
            "#define VF_PARSER" if self.parser else "",
            "#define VF_CONVERTER" if self.converter else "",
            f"#define VF_LISTS(X) {lists}", f"#define VF_LOOPS(X) {loops}",
            f"#define VF_PROBES(X) {pr}", f"#define VF_CHAINS(X) {cs}",
            '#include "runner.hpp"',
            f'VF_REGISTER("{self.key}"' +
            "".join(", " + o for o in
                    [catalog.SETUPS[self.setup].cpp(self.em)] if o) + ")",
        ]) + "\n"


# build variants of the library: extra flags, made in a directory
def variant_flags(variant, out):
    inc = ["-I" + os.path.join(REPO, "include")]
    if variant == "headers":
        return inc
    if variant == "plainfloat":
        return inc + ["-DSSP_DISABLE_FAST_FLOAT"]
    if variant == "portable":
        # the reader for systems without getline
        return inc + ["-U__unix__", "-U__unix", "-Uunix"]
    if variant == "single":
        return ["-DVF_SINGLE=\"%s\"" % os.path.join(REPO, "ssp.hpp")]
    if variant == "generated":
        path = os.path.join(out, "generated_ssp.hpp")
        script = os.path.join(REPO, "script", "single_header_generator.py")
        r = subprocess.run(["python3", "-B", script], capture_output=True,
                           cwd=REPO, text=True)
        if r.returncode != 0:
            raise BuildError("single header generator fails:\n" + r.stderr)
        catalog.write_if_changed(path, r.stdout)
        return ["-DVF_SINGLE=\"%s\"" % path]
    raise ValueError(variant)


def _run(cmd, log):
    with open(log, "w") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT).returncode


def locales():
    """a directory with a locale whose decimal point is not a point, if one
    can be made here"""
    top = os.path.join(BUILD, "locales")
    if not os.path.isdir(os.path.join(top, FOREIGN)):
        tmp = f"{top}.{os.getpid()}"
        os.makedirs(tmp, exist_ok=True)
        try:
            subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8",
                            os.path.join(tmp, FOREIGN)], capture_output=True,
                           timeout=60)
            if os.path.isdir(os.path.join(tmp, FOREIGN)):
                os.rename(tmp, top)
        except (OSError, subprocess.TimeoutExpired):
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return top if os.path.isdir(os.path.join(top, FOREIGN)) else None


def thread_sanitizer():
    """does it work here?"""
    d = tempfile.mkdtemp(prefix="vf-tsan-")
    try:
        src, exe = os.path.join(d, "a.cpp"), os.path.join(d, "a")
        with open(src, "w") as f:
            f.write("#include <thread>\nint n, m;\nint main() {\n"
                    "std::thread t([] { ++n; });\n++m;\nt.join();\n}\n")
        for _ in range(3):
            r = subprocess.run([CXX, "-pthread", "-fsanitize=thread", src,
                                "-o", exe], capture_output=True, timeout=120)
            if r.returncode == 0:
                r = subprocess.run([exe], capture_output=True, timeout=120)
            if r.returncode != 0:
                return False
        return True
    except (OSError, subprocess.TimeoutExpired):
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prune():
    """keeps the build directory small"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)
              if d.startswith("h-")]
    except OSError:
        return
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[2:]:
        shutil.rmtree(d, ignore_errors=True)


def build(units, variant="headers", sanitize=True):
    """compiles and links a harness, returns the path of the program.
    sanitize: True, False or "thread" """
    catalog.main()
    flags = [f for f in FLAGS if sanitize is True or not f.startswith("-fsan")]
    if sanitize == "thread":
        flags = flags + ["-fsanitize=thread"]
    top = os.path.join(BUILD, "h-" + _digest(repo_headers()))
    out = os.path.join(top, variant)
    os.makedirs(out, exist_ok=True)
    os.utime(top)
    prune()
    vflags = variant_flags(variant, out)
    cmd = [CXX] + flags + ["-I" + os.path.join(ROOT, "harness")] + vflags
    hdrs = [p for p in harness_files() if p.endswith(".hpp")]
    if variant == "generated":
        hdrs = hdrs + [os.path.join(out, "generated_ssp.hpp")]
    hdig = _digest(hdrs, " ".join(cmd))
    todo, objs = [], []
    for u in units:
        src = u.source()
        name = u.key.replace("/", "_") + "_" + \
            hashlib.sha256((src + hdig).encode()).hexdigest()[:12]
        obj = os.path.join(out, name + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            path = os.path.join(out, name + ".cpp")
            with open(path, "w") as f:
                f.write(src)
            todo.append((path, obj))
    main = os.path.join(ROOT, "harness", "main.cpp")
    mobj = os.path.join(out, "main_" + _digest([main], hdig) + ".o")
    if not os.path.exists(mobj):
        todo.append((main, mobj))

    def compile_one(job):
        src, obj = job
        tmp = obj + ".tmp"
        rc = _run(cmd + ["-c", src, "-o", tmp], obj + ".log")
        if rc == 0:
            os.replace(tmp, obj)
        return rc, src, obj

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for rc, src, obj in ex.map(compile_one, todo):
            if rc != 0:
                with open(obj + ".log") as f:
                    raise BuildError(f"{src} does not compile:\n" +
                                     f.read()[:3000])
    exe = os.path.join(out, "run_" + hashlib.sha256(
        " ".join(objs + [mobj]).encode()).hexdigest()[:12])
    if not os.path.exists(exe):
        rc = _run([CXX, "-pthread"] + flags + objs +
                  [mobj, "-o", exe + ".tmp"],
                  exe + ".log")
        if rc != 0:
            with open(exe + ".log") as f:
                raise BuildError("link:\n" + f.read()[:3000])
        os.replace(exe + ".tmp", exe)
    return exe

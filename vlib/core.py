"""Shared machinery: scratch directories, building, running TLC, evidence, verdicts."""
import atexit
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
LIBSRC = ["array", "graph", "utils"] + ["nodes/" + n for n in (
    "collections", "constants", "flow", "indexing", "manipulation", "mathematical", "numbers", "quadratic_model", "testing")]


class CheckError(Exception):
    """the check itself could not do its work (exit 2)"""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def lib_sources():
    """every C++ source of the library in the tree as it is now"""
    root = os.path.join(REPO, "dwave/optimization/src")
    out = []
    for dp, _, fs in os.walk(root):
        out += [os.path.join(dp, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def build_cpp(mains, flags=("-O1",), tag="b"):
    """compiles the library once and links each harness main against it; returns {main: binary}"""
    d = sub("build-" + tag)
    inc = ["-I" + os.path.join(REPO, "dwave/optimization/include"), "-I" + os.path.join(REPO, "dwave/optimization/src")]
    # assert() stays off as in the project's own release build
    base = ["g++", "-std=c++20", "-w", "-DNDEBUG"] + list(flags) + inc
    jobs = [(s, os.path.join(d, "lib_%d.o" % i)) for i, s in enumerate(lib_sources())]
    hs = [(os.path.join(VERIF, "harness", m + ".cpp"), os.path.join(d, m + ".o")) for m in mains]

    def one(j):
        r = subprocess.run(base + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        return j, r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        # biggest files first
        todo = sorted(jobs + hs, key=lambda j: -os.path.getsize(j[0]))
        for j, r in ex.map(one, todo):
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (j[0], r.stderr[-3000:]))
    out = {}
    for m, (_, o) in zip(mains, hs):
        b = os.path.join(d, m)
        r = subprocess.run(["g++"] + list(flags) + [o] + [j[1] for j in jobs] + ["-o", b, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (m, r.stderr[-3000:]))
        out[m] = b
    return out


# ---------------------------------------------------------------------------------------------
def tlc(module, cfg, files=None, workers=JOBS, heap="6g", name=None, extra=(), timeout=800, props=()):
    """runs TLC in a scratch copy of the specs; returns (returncode, output, dict(distinct, generated, depth))"""
    d = sub("tlc-" + (name or module))
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for k, v in (files or {}).items():
        with open(os.path.join(d, k), "w") as fh:
            fh.write(v)
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, *props, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-deadlock",
           "-nowarning", "-metadir", os.path.join(d, "states"), "-config", "run.cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    out = r.stdout + r.stderr
    st = {"distinct": 0, "generated": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["generated"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m[-1])
    shutil.rmtree(os.path.join(d, "states"), True)
    return r.returncode, out, st


class Verdict:
    """collects what one check run covered and found"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []             # (text, replay data)
        self.known = []
        self.level = "model_checking"
        self.assumptions = []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        self.viol.append((what, data))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.viol:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], ev["wall_s"]))
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (what, data) in enumerate(self.viol[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, i))
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "what": what, "data": data}, fh, indent=1)
            print("# " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

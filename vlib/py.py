"""Runs Python-level scenarios on the built package and validates the recorded behaviour with TLC."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess

from . import core, engine

VENV = "/opt/dwo-venv/bin"
CFG = """SPECIFICATION TraceSpec
CONSTANT Prop = "%s"
INVARIANT Conforms
INVARIANT Sound
"""


_built = None


def build():
    """builds and installs the package from the working tree into a scratch directory, once"""
    global _built
    if _built is None: _built = _build()
    return _built


def _build():
    d = core.sub("pybuild")
    b, i = os.path.join(d, "b"), os.path.join(d, "i")
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "DESTDIR")}
    env.update(PATH=VENV + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1",
               PIP_NO_INDEX="1", LANG="C.UTF-8")
    cmds = [["meson", "setup", b, core.REPO, "--wrap-mode=nodownload", "--prefix=" + i, "-Dbuildtype=release", "-Dpython.platlibdir=" + i,
             "-Dpython.purelibdir=" + i, "-Dpython.bytecompile=-1", "-Dwerror=false", "-Doptimization=0"],
            ["ninja", "-C", b], ["meson", "install", "-C", b, "--no-rebuild", "--quiet"]]
    for c in cmds:
        r = subprocess.run(c, capture_output=True, text=True, env=env, cwd=d)
        if r.returncode:
            raise core.CheckError("%s failed:\n%s" % (" ".join(c[:2]), (r.stdout + r.stderr)[-3000:]))
    shutil.rmtree(b, True)
    return i


def execute(inst, scns, tag="x"):
    """returns {id: record}"""
    d = core.sub("py-" + tag)
    n = max(1, min(core.JOBS, len(scns)))
    chunks = [scns[k::n] for k in range(n)]
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=inst, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d)

    def run(k):
        a, b = os.path.join(d, "in%d.txt" % k), os.path.join(d, "out%d.txt" % k)
        with open(a, "w") as fh:
            for s in chunks[k]: fh.write(json.dumps(s.json()) + "\n")
        r = subprocess.run([VENV + "/python", os.path.join(core.VERIF, "harness", "pydrv.py"), a, b], capture_output=True, text=True, env=env, cwd=d)
        if r.returncode:
            raise core.CheckError("driver exit %d: %s" % (r.returncode, r.stderr[-3000:]))
        res = {}
        with open(b) as fh:
            for line in fh:
                rec = json.loads(line)
                res[rec["id"]] = rec
        os.remove(a)
        os.remove(b)
        return res

    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(run, range(n)): out.update(r)
    crashed = any(r["sig"] for r in out.values())
    for s in scns:
        if s.id not in out and not crashed:
            raise core.CheckError("no output for scenario %d" % s.id)
    return out


def merge(s, rec):
    steps = []
    for st, ob in zip(s.steps, rec["steps"]):
        m = dict(st)
        m.update(ob)
        m["e"] = st["e"]
        m.pop("msg", None)
        m.pop("kw", None)
        steps.append(m)
    if rec["sig"]: steps.append({"e": "crash", "exc": ""})
    elif len(rec["steps"]) != len(s.steps):
        raise core.CheckError("scenario %d: %d steps recorded, %d expected" % (s.id, len(rec["steps"]), len(s.steps)))
    return {"id": s.id, "S": s.S, "steps": steps}


def run(v, prop, inst, scns, name="py", module="PyTrace", cfg=None, batch=1000):
    """executes and validates; records coverage and (confirmed) violations in the verdict v"""
    byid = {s.id: s for s in scns}
    for k in range(0, len(scns), batch):
        part = scns[k:k + batch]
        res = execute(inst, part, tag=name)
        for s in part:        # out of time: on a busy machine a second run decides
            if s.id in res and res[s.id]["sig"] == 14: res.update(execute(inst, [s], tag=name + "-re"))
        if any(r["sig"] == 9 for r in res.values()):
            raise core.CheckError("a scenario was killed")      # out of memory: no evidence
        recs = [merge(s, res[s.id]) for s in part if s.id in res]
        rej, st = engine.validate(prop, recs, name=name, module=module, cfg=cfg or CFG % prop)
        v.add(states=st["distinct"], transitions=st["distinct"] - len(recs), traces_validated_against_impl=len(recs))
        if recs:
            v.sample({"events": [c["e"] + ":" + c["nd"]["op"] if c["e"] == "new" else c.get("name", c["e"]) for c in recs[0]["steps"]][:12], "S": recs[0]["S"]})
        seen = set()
        for sid, step, ev, errs in rej:
            if sid in seen: continue
            seen.add(sid)
            s = byid[sid]
            if len(v.viol) < 2:
                for _ in range(3):
                    again = execute(inst, [s], tag=name + "-re")
                    rej2, _ = engine.validate(prop, [merge(s, again[sid])], name=name + "-re", module=module, cfg=cfg or CFG % prop)
                    if rej2: break
                else:
                    errs += " (did not repeat in three more runs: undefined behaviour?)"
            v.violation("scenario %d, step %d (%s): %s" % (sid, step, ev, errs),
                        {"scenario": s.json(), "observed": [x for x in recs if x["id"] == sid][0]["steps"][max(0, step - 1):step], "step": step, "event": ev,
                         "errors": errs})
        if len(v.viol) >= 20: return

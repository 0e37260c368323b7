"""Runs engine scenarios on the real library and validates the recorded traces with TLC."""
import concurrent.futures as cf
import json
import os
import re
import subprocess

from . import core

CFG = """SPECIFICATION TraceSpec
CONSTANT Prop = "%s"
INVARIANT Conforms
"""


def execute(binary, scns, tag="x", env=None, cpu=None):
    """returns {id: ("ok", record) | ("crash", signal, partial)}"""
    d = core.sub("exec-" + tag)
    n = max(1, min(core.JOBS, len(scns)))
    chunks = [scns[i::n] for i in range(n)]

    def run(k):
        a, b = os.path.join(d, "in%d.txt" % k), os.path.join(d, "out%d.txt" % k)
        with open(a, "w") as fh:
            for s in chunks[k]:
                fh.write(s.text())
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([binary, a, b], capture_output=True, text=True, env=e)
        if r.returncode:
            raise core.CheckError("executor exit %d: %s" % (r.returncode, r.stderr[-2000:]))
        res = {}
        with open(b) as fh:
            for line in fh:
                if line.startswith("!"):
                    m = re.match(r"!(-?\d+) (\d+) (.*)", line, re.S)
                    res[int(m[1])] = ("crash", int(m[2]), m[3].strip())
                else:
                    rec = json.loads(line)
                    res[rec["id"]] = ("ok", rec)
        os.remove(a)
        os.remove(b)
        return res

    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(run, range(n)):
            out.update(r)
    crashed = any(r[0] == "crash" for r in out.values())
    for s in scns:
        if s.id not in out and not crashed:
            raise core.CheckError("no output for scenario %d" % s.id)
    return out


def partial_record(txt):
    """what a crashed run had written: cut back to the last complete step"""
    i = txt.rfind("},{\"e\":")
    for cut in [txt + "]}", txt.rstrip(",") + "]}"] + ([txt[:i + 1] + "]}"] if i > 0 else []):
        try:
            return json.loads(cut)
        except ValueError:
            pass
    j = txt.find("\"steps\":[")
    if j > 0:
        try:
            return json.loads(txt[:j] + "\"steps\":[]}")
        except ValueError:
            pass
    return None


STEP_DEFAULT = {"exc": "", "sl": []}


def merge(s, res):
    """input scenario + observation -> trace record for EngineTrace"""
    crash = res[0] == "crash"
    rec = partial_record(res[2]) if crash else res[1]
    nodes = [dict(nd) for nd in s.nodes]
    if rec is None:
        rec = {"nodes": [], "excs": [], "steps": []}
    excs = rec.get("excs", [])
    for i, e in enumerate(excs):
        if e:
            nodes[i] = {"op": "Dead", "p": [], "tol": 0}
    steps = []
    obs = rec["steps"][s.header_steps():]
    for st, ob in zip(s.steps, obs):
        m = dict(STEP_DEFAULT)
        m.update(st)
        m.update(ob)
        m["e"] = st["e"]
        if "src" in m: m["src"] = [x for x in m["src"] if nodes[x]["op"] != "Dead"]
        steps.append(m)
    if crash:
        steps.append({"e": "crash", "s": 0, "exc": "", "sl": [[0, [{} for _ in nodes]]]})
    elif len(obs) != len(s.steps):
        raise core.CheckError("scenario %d: %d steps recorded, %d expected" % (s.id, len(obs), len(s.steps)))
    live = lambda i: i >= 0 and nodes[i]["op"] != "Dead"
    return {"id": s.id, "S": s.S, "nodes": nodes, "stat": rec.get("nodes") or [{}], "obj": s.obj if live(s.obj) else -1,
            "cons": [c for c in s.cons if live(c)], "steps": steps}


REJ = re.compile(r'<<"REJECT", (-?\d+), (\d+), "([a-z]+)", (.*?)>>\s*$', re.M)


def rejects(out):
    flat = re.sub(r"\s*\n\s+", " ", out)
    return [(int(a), int(b), c, d) for a, b, c, d in re.findall(r'<< ?"REJECT", (-?\d+), (\d+), "([a-z]+)", (\{.*?\}) ?>>', flat)]


EVAL = re.compile(r"Error: .*?(evaluat|Attempted|overflow|Overflow|integer)", re.S)


def validate(prop, recs, name="trace", module="EngineTrace", cfg=None, heap="6g", files=None):
    """TLC on a batch of traces; returns (list of rejections, stats).  A trace whose observations
    the specification cannot even evaluate (numbers or shapes outside its universe) is rejected too."""
    txt = "".join(json.dumps(r, separators=(",", ":")) + "\n" for r in recs)
    fl = {"trace.ndjson": txt}
    fl.update(files or {})
    rc, out, st = core.tlc(module, cfg or CFG % prop, fl, name=name, heap=heap, extra=["-continue"])
    rej = rejects(out)
    if rc == 0 and not rej:
        want = sum(len(r["steps"]) + 1 for r in recs)
        if st["distinct"] != want:
            raise core.CheckError("TLC visited %d states, the traces have %d\n%s" % (st["distinct"], want, out[-2000:]))
    elif not rej:
        if not EVAL.search(out):
            raise core.CheckError("TLC failed (exit %d):\n%s" % (rc, out[:3000] + "\n...\n" + out[-3000:]))
        if len(recs) == 1:
            m = re.search(r"Error: (.{0,400})", out, re.S)
            return [(recs[0]["id"], 0, "tlc", "{<<\"not explained by the specification: %s\", -1>>}" %
                     re.sub(r"[\s\"]+", " ", m[1]))], st
        h = len(recs) // 2
        for part in (recs[:h], recs[h:]):
            rej, st2 = validate(prop, part, name, module, cfg, heap, files)
            if rej: break
        if not rej:
            raise core.CheckError("TLC failed on a batch but not on its halves:\n" + out[-3000:])
    return rej, st


def run(v, prop, binary, scns, name="trace", module="EngineTrace", cfg=None, batch=1500, confirm=True, known=None):
    """executes and validates; records coverage and (confirmed) violations in the verdict v"""
    byid = {s.id: s for s in scns}
    for k in range(0, len(scns), batch):
        part = scns[k:k + batch]
        res = execute(binary, part, tag=name)
        for s in part:        # out of time: on a busy machine a second run decides
            if s.id in res and res[s.id][0] == "crash" and res[s.id][1] == 14: res.update(execute(binary, [s], tag=name + "-re"))
        recs = [merge(s, res[s.id]) for s in part if s.id in res]
        rej, st = validate(prop, recs, name=name, module=module, cfg=cfg)
        v.add(states=st["distinct"], transitions=st["distinct"] - len(recs), traces_validated_against_impl=len(recs))
        if recs:
            r = recs[0]
            v.sample({"ops": [nd["op"] for nd in r["nodes"]], "S": r["S"], "steps": len(r["steps"]),
                      "first_steps": [s["e"] for s in r["steps"][:6]]})
        seen = set()
        for sid, step, ev, errs in rej:
            if sid in seen:
                continue
            seen.add(sid)
            s = byid[sid]
            if res[s.id][0] == "crash" and res[s.id][1] == 9:
                raise core.CheckError("scenario %d was killed" % sid)      # out of memory: no evidence
            if confirm and len(v.viol) < 2:
                for _ in range(3):
                    again = execute(binary, [s], tag=name + "-re")
                    rej2, _ = validate(prop, [merge(s, again[sid])], name=name + "-re", module=module, cfg=cfg)
                    if rej2: break
                else:
                    errs += " (did not repeat in three more runs: undefined behaviour?)"
            v.violation("scenario %d, step %d (%s): %s" % (sid, step, ev, errs), {"scenario": s.text(), "step": step, "event": ev, "errors": errs})
        if len(v.viol) >= 20:
            return

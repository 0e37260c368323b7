"""The registry: what each property's check runs, per tier."""
import os
import random
import re

from . import core, engine, genscn, mcconstruct, mcengine, mcmodel, py, pyscen, scen, utilscn

# property -> flags of the executor
FLAGS = {"C01": "V", "C02": "VD", "C03": "VD", "C04": "VS", "C05": "VRS", "C06": "V", "C07": "V", "C14": "VE", "C15": "VA",
         "C18": "V"}
# property -> [(family, quick count, thorough count)]
PLAN = {
    "C01": [("mixed", 1400, 12000), ("focused", 1400, 12000), ("deep", 80, 1500), ("large", 300, 6000)],
    "C02": [("mixed", 1000, 10000), ("focused", 1000, 10000), ("moves", 700, 8000), ("deep", 60, 1500), ("large", 300, 6000)],
    "C03": [("mixed", 1000, 10000), ("focused", 1000, 10000), ("moves", 600, 8000), ("deep", 60, 1500), ("large", 300, 6000)],
    "C04": [("mixed", 1400, 12000), ("focused", 1400, 12000), ("deep", 80, 1500), ("large", 300, 6000)],
    "C05": [("mixed", 900, 7000), ("focused", 700, 6000), ("deep", 60, 800), ("large", 200, 3000)],
    "C06": [("moves", 2500, 25000), ("mixed", 500, 6000)],
    "C07": [("states", 5000, 60000)],
    "C14": [("objective", 2500, 20000)],
    "C15": [("slots", 2000, 16000)],
    "C18": [("qm", 2500, 20000)],
}


# Python level: property -> [(family, quick count, thorough count)]
PYPLAN = {
    "C07": [("states", 1200, 12000)],
    "C08": [("expr", 2500, 25000)],
    "C09": [("index", 1700, 30000)],
    "C10": [("bookkeeping", 2500, 25000)],
    "C11": [("removal", 2500, 25000)],
    "C12": [("slots", 2500, 25000)],
    "C13": [("files", 2000, 20000)],
    "C14": [("objective", 1200, 12000)],
    "C16": [("gens", 6000, 60000)],
    "C17": [("wild", 2000, 20000), ("foreign", 1000, 10000)],
    "C18": [("qm", 1200, 12000)],
    "C20": [("identity", 2300, 25000), ("expr", 200, 4000), ("index", 150, 3000)],
}


MODULE = {"C16": {"module": "GenTrace", "cfg": "SPECIFICATION TraceSpec\nCONSTANT Prop = \"%s\"\nINVARIANT Conforms\n" % "C16"}}


def engine_part(v):
    """histories of the C++ engine"""
    prop = v.prop
    b = core.build_cpp(["exec"])["exec"]
    v.assumptions += ["values are observed on a 1/S grid (S in 1,4,8); rounding below it is not judged",
                      "one propagation per commit/revert cycle, as Graph::propose does"]
    if prop in mcengine.QUICK: mcengine.check(v, b, FLAGS[prop])
    if prop == "C07":
        scns, st = mcengine.assignments(v.tier == "quick")
        v.add(states=st["distinct"], transitions=len(scns))
        v.cov["exhaustive_assignments"] = len(scns)
        engine.run(v, prop, b, scns, name=prop + "-mc", batch=20000)
    if v.viol: return
    ops = v.cov.setdefault("node_types", {})
    for k, (fam, q, t) in enumerate(PLAN[prop]):
        n = q if v.tier == "quick" else t
        base = v.seed * 1000003 + k * 200000003
        step = 1500
        for lo in range(0, n, step):
            scns = [getattr(scen, fam)(base + i, i, FLAGS[prop]) for i in range(lo, min(n, lo + step))]
            for s in scns:
                for nd in s.nodes: ops[nd["op"]] = ops.get(nd["op"], 0) + 1
            engine.run(v, prop, b, scns, name="%s-%s" % (prop, fam))
            if v.viol: return


def python_part(v):
    """histories of the Python package"""
    prop = v.prop
    inst = py.build()
    v.assumptions += ["the Python package is compiled without optimization by the check"]
    ops = v.cov.setdefault("symbol_types", {})
    mcmodel.check(v, inst)
    if v.viol: return
    mcconstruct.check(v, inst)
    if v.viol: return
    for k, (fam, q, t) in enumerate(PYPLAN[prop]):
        n = q if v.tier == "quick" else t
        base = v.seed * 1000003 + (k + 10) * 200000003
        step = 6000 if prop == "C16" else 1000
        for lo in range(0, n, step):
            scns = [getattr(genscn if fam == "gens" else pyscen, fam)(base + i, i) for i in range(lo, min(n, lo + step))]
            for s in scns:
                for st in s.steps:
                    op = st["nd"]["op"] if st["e"] == "new" else st["name"] if st["e"] == "gen" else None
                    if op: ops[op] = ops.get(op, 0) + 1
            py.run(v, prop, inst, scns, name="%s-%s" % (prop, fam), batch=step, **MODULE.get(prop, {}))
            if v.viol: return


def findings():
    with open(os.path.join(core.VERIF, "known", "findings.txt")) as fh:
        return re.findall(r"^known: property=(\S+) (\S+) (.*)$", fh.read(), re.M)


def mixed_index():
    s = pyscen.PyScn(random.Random(1), 0)
    a, x = s.integer((2, 3, 4), 0, 5), s.integer((2,), 0, 3)
    s.add("GetItem", [a, x], s.meta[a], idx=[[0, 0, 0, 0], [1, pyscen.NONE, pyscen.NONE, pyscen.NONE], [2, 0, 0, 0]], f="", bare=0, npint=0)
    return s, 3, "shape"       # the step that is rejected, and why


def route_length():
    s = genscn.GenScn(0, 1)
    n = 5
    a = {"dem": [0] + [1] * n, "nv": 3, "cap": n, "dist": [[1] * (n + 1) for _ in range(n + 1)], "open": [0] * (n + 1), "close": [50] * (n + 1), "svc": [0] * (n + 1)}
    s.call(random.Random(1), "capacitated_vehicle_routing_with_time_windows", a, [[[0, 1, 2, 3], [4], []]])
    return s, 1, "feasible"


KNOWN = {"C09": [("mixed-index", mixed_index)], "C16": [("route-length", route_length)]}


def known_part(v):
    """recorded findings: each is one fixed history; the rest of the space is judged by the other parts"""
    listed = {k: t for p, k, t in findings() if p == v.prop}
    for key, make in KNOWN.get(v.prop, ()):
        s, at, why = make()
        res = py.execute(py.build(), [s], tag="known")
        rej, _ = engine.validate(v.prop, [py.merge(s, res[s.id])], name="known", **MODULE.get(v.prop, {"module": "PyTrace", "cfg": py.CFG % v.prop}))
        if not rej: continue
        if key in listed and all(step == at and errs.count("<<") == 1 and why in errs for _, step, _, errs in rej):
            v.known.append("%s %s" % (key, listed[key]))
        else:
            v.violation("%s: %s" % (key, rej[0]), {"scenario": s.json()})


def both(v):
    if v.prop in PLAN: engine_part(v)
    if v.prop in PYPLAN and not v.viol: python_part(v)
    if v.prop in KNOWN and not v.viol: known_part(v)


CHECKS = {p: both for p in sorted(set(PLAN) | set(PYPLAN))}


def utilities(v):
    b = core.build_cpp(["util"])["util"]
    v.assumptions += ["iterators are driven only over memories whose element order is their address order"]
    base = v.seed * 1000003 + 30 * 200000003
    n = 6000 if v.tier == "quick" else 60000
    for lo in range(0, n, 2000):
        utilscn.check(v, b, lo, min(n, lo + 2000), base)
        if v.viol: return


CHECKS["C19"] = utilities

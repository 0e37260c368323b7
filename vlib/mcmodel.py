"""Small instances of PyModel: every call in every state of a model with a few symbols."""
import random

from . import mc, py
from .gen import NONE
from .pyscen import PyScn

INVS = ["TypeInv", "FeasibleInv"]
PROPS = ["FrozenProp", "RemoveProp", "OtherSlotsProp", "LookProp", "ResizeProp", "UnlockProp"]


def nd(op, p=(), **kw):
    r = {"op": op, "p": list(p), "tol": 0, "f": "cls"}
    if op in ("Integer", "Binary", "Constant", "Set", "List"): r["f"] = ""
    if op in ("All", "Any", "Max", "Min", "Prod", "Sum"): r.update(hi=0, init=0)
    r.update(kw)
    return r


def integer(lb, ub, sh=()): return nd("Integer", sh=list(sh), lb=lb, ub=ub)
def binary(sh=()): return nd("Binary", sh=list(sh), lb=0, ub=1)
def const(v, sh=()): return nd("Constant", sh=list(sh), v=list(v))
def coll(kind, n): return nd(kind, n=n, mn=n if kind == "List" else 0, mx=n)


def m(node, ar=0):
    """an entry of the menu of constructions"""
    node = dict(node)
    node.pop("p")
    return {"ar": ar, "nd": node}


def inst(acts, prefix=(), menu=(), nmax=0, smax=0, lmax=0, cmax=0, slots0=0, flags="", length=60, S=1):
    return {"S": S, "acts": acts.split(), "prefix": list(prefix), "menu": list(menu), "nmax": nmax, "smax": smax, "lmax": lmax, "cmax": cmax, "slots0": slots0,
            "flags": flags, "length": length}


X, Y = binary(), integer(0, 1)


def locking(nmax=3):
    """symbols of a few kinds and nested locks"""
    return inst("new iadd lock min con remove drop hold", [X], [m(binary()), m(nd("Not"), 1), m(nd("NaryAdd"), 1)], nmax=nmax, lmax=2, cmax=1, flags="DP", length=40)


def growing(nmax=4):
    return inst("new iadd lock", [X], [m(nd("Not"), 1), m(nd("Add"), 2), m(integer(0, 1))], nmax=nmax, lmax=1, flags="DP", length=40)


def removing(nmax=4):
    return inst("new min con remove drop hold", [X], [m(nd("Not"), 1), m(nd("And"), 2)], nmax=nmax, cmax=1, flags="DPX", length=40)


def outputs():
    """the outputs of a disjoint decision"""
    return inst("new min remove drop hold lock", [nd("DisjointLists", n=2, k=1), nd("DisjointList", [0], n=2, j=0)], [m(nd("Size"), 1), m(nd("Negative"), 1)], nmax=4, lmax=1, flags="DPX", length=40)


def slots(smax=1, lmax=2):
    return inst("lock resize clear initialize set reset read has", [X, Y, nd("Add", [0, 1])], smax=smax, lmax=lmax, flags="")


def two():
    """two states of a smaller model"""
    return inst("lock resize clear initialize set reset read has", [X, nd("Not", [0])], smax=2, lmax=1)


def chain():
    return inst("lock set reset read has initialize", [X, nd("Not", [0]), nd("Not", [1]), nd("And", [1, 2])], lmax=1, slots0=1)


def collection():
    return inst("lock set reset read has", [coll("Set", 2), coll("List", 2), nd("Sum", [0]), const([3, 5], (2,)), nd("AdvancedIndexing", [3, 1], idx=[[2, 0, 0, 0]])], lmax=1, slots0=1)


def lists():
    return inst("lock set reset read has", [nd("DisjointLists", n=2, k=2), nd("DisjointList", [0], n=2, j=0), nd("DisjointList", [0], n=2, j=1), nd("Size", [1])], lmax=1, slots0=1)


def feasible():
    return inst("con lock set initialize feas", [X, Y, nd("Or", [0, 1]), nd("Not", [0]), nd("LessEqual", [0, 1]), const([1])], cmax=2, lmax=1, slots0=1, flags="D", S=2)


def goals():
    return inst("min con lock set initialize feas read", [X, binary(), nd("Or", [0, 1]), nd("Not", [0]), nd("Add", [0, 1])], cmax=2, lmax=1, slots0=1, flags="D")


def files(smax=1):
    return inst("set read lock resize file min con", [X, Y, nd("Not", [0]), nd("Add", [0, 1])], smax=smax, lmax=1, cmax=1, flags="D", length=30)


def identity(nmax=4):
    return inst("new eq views", [X], [m(nd("Not"), 1), m(const([1])), m(const([0])), m(nd("Add"), 2)], nmax=nmax, length=60)


def scenarios(ins, name):
    es, st = mc.explore("MCModel", ins, INVS, PROPS, name)
    r = random.Random(7)
    out = []
    for path in mc.walks(es, es[0][0], ins["length"]):
        s = PyScn(random.Random(0), len(out), ins["S"], ins["flags"], True)
        for k, n in enumerate(ins["prefix"]): s.steps.append({"e": "new", "i": k, "nd": dict(n), "hold": 1})
        if ins["slots0"]: s.steps.append({"e": "resize", "n": ins["slots0"]})
        for _, e, _ in path:
            c = dict(e)
            if c["e"] == "new": c["hold"] = 1
            elif c["e"] == "lock": c["cm"] = r.choice([0, 1])
            elif c["e"] == "unlock": c["th"] = r.choice([0, 0, 1])
            elif c["e"] == "set":
                c["sh"] = ins["prefix"][c["d"]].get("sh", [])
                c["f"] = r.choice(["", "", "np", "float", "ro", "frac", "narrow"])
            elif c["e"] == "file":
                c.update(nohdr=r.choice([0, 0, 1]), again=int(c["load"] == "" and not c["only"] and c["how"] != "states" and r.random() < .4),
                         ops={str(k): n["op"] for k, n in enumerate(ins["prefix"])})
                if c["load"] == "states": c["nodes"], c["pre"] = ins["prefix"], r.choice([0, 1, 2])
            s.steps.append(c)
        out.append(s)
    return out, st, len(es)


QUICK = {
    "C10": ["locking()", "growing()"],
    "C11": ["removing(3)", "outputs()"],
    "C12": ["slots(2)", "chain()", "collection()", "lists()"],
    "C13": ["files()"],
    "C14": ["feasible()"],
    "C20": ["identity()"],
}
THOROUGH = dict(QUICK, C10=["locking()", "growing()", "outputs()"], C11=["removing(3)", "outputs()", "locking()"],
                C12=QUICK["C12"] + ["two()"], C14=["feasible()", "goals()"])


def check(v, build):
    done = v.cov.setdefault("exhaustive_instances", [])
    for name in (QUICK if v.tier == "quick" else THOROUGH).get(v.prop, ()):
        scns, st, n = scenarios(eval(name), v.prop)
        v.add(states=st["distinct"], transitions=n)
        done.append({"instance": name, "model_states": st["distinct"], "model_transitions": n, "walks": len(scns), "calls": sum(len(s.steps) for s in scns)})
        py.run(v, v.prop, build, scns, name=v.prop + "-mc", batch=4000)
        if v.viol: return

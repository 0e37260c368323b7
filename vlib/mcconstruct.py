"""Every construction from the operands of small instances, as scenarios of the package."""
import json
import random
import re

from . import core, py
from .gen import NONE, Meta
from .mcmodel import binary, coll, const, integer, nd
from .pyscen import PyScn, deviates, evaluate

CFG = "SPECIFICATION Spec\nINVARIANTS Valued Emit\n"
NODE = re.compile(r'^"NODE (.*)"$', re.M)


def inst(kinds, prefix, dims=2, wide=0, imin=-2, imax=2):
    return {"S": 2, "kinds": kinds.split(), "prefix": prefix, "dims": dims, "wide": wide, "imin": imin, "imax": imax}


def c(v, sh=()): return const([2 * x for x in v], sh)


SMALL = [c([2]), c([-1], (1,)), c([1, -2], (2,)), integer(0, 1, (2,)), binary(), c([1, 2, 3, 4], (2, 2)), binary((1, 2)), coll("Set", 2), nd("Size", [7])]
MORE = SMALL + [coll("List", 2), c([], (0,)), c([3], (1, 1)), integer(1, 2)]


def elementwise(): return inst("unary reduce psum binary", MORE)
def nary(): return inst("nary", [c([2]), binary(), c([1, -2], (2,)), integer(0, 1, (2,)), coll("List", 2), c([1, 2, 3, 4], (2, 2)), coll("Set", 2)])
def where(): return inst("where", SMALL)
def shaping(): return inst("reshape", MORE)
def joining(): return inst("concat permutation", [c([1, 2], (2,)), binary((2,)), c([1, 2, 3, 4], (2, 2)), binary((1, 2)), binary(), coll("List", 2), coll("Set", 2), c([5, 6], (2, 1))])
def slicing(): return inst("basic", [c([0, 1, 2], (3,)), coll("Set", 2), binary((2,)), coll("List", 3), c([], (0,))], dims=1, wide=1, imin=-4, imax=4)
def slicing2(): return inst("basic", [c(range(6), (2, 3)), binary((2, 2))], dims=2, wide=0)
def slicing3(): return inst("basic", [c(range(12), (2, 3, 2))], dims=3, wide=0, imin=-1, imax=1)
def advanced(): return inst("advanced", [c(range(4), (2, 2)), c([3, 5], (2,)), c([0]), c([1, 0, 1], (3,)), coll("List", 2), coll("Set", 2), binary(), integer(-1, 1), c(range(8), (2, 2, 2)), c([1, 0], (2,))], dims=3)
def items(): return inst("item", [c(range(6), (2, 3)), c([3, 5], (2,)), c([1]), c([1, 0], (2,)), coll("List", 2), binary()], dims=2)
def items3(): return inst("item", [c(range(12), (2, 3, 2)), c([1, 0], (2,)), binary()], dims=3)


def view(p, sh, *idx):
    """a slice of the p-th symbol, of shape sh; not contiguous in general"""
    return nd("BasicIndexing", [p], idx=[[0, i, 0, 0] if isinstance(i, int) else [1] + [NONE if x is None else x for x in i] for i in idx], npint=0, bare=0, view=list(sh))


ALL = (None, None, None)
STRIDED = [c(range(8), (2, 4)), view(0, (2, 2), ALL, (None, None, 2)), binary((4,)), view(2, (2,), (1, None, 2)), c([1, -2, 3, 5], (2, 2)), view(0, (2,), ALL, 1)]
def strided(): return inst("unary reduce psum binary", STRIDED[:5])
def strided_nary(): return inst("nary where", STRIDED)
def strided_moves(): return inst("concat reshape basic", STRIDED[:4] + [c([1, 2], (1, 2)), view(0, (1, 2), (1, None, None), (1, None, 2))], imin=-1, imax=1)
def strided_index(): return inst("advanced item", [c(range(8), (2, 4)), view(0, (2, 2), ALL, (None, None, 2)), binary((4,)), view(2, (2,), (1, None, 2)), c([1, 0], (2,))], dims=2)
CUBE = [c(range(24), (2, 3, 4)), view(0, (2, 3, 2), ALL, ALL, (None, None, 2)), view(0, (2, 4), ALL, 1, ALL), view(0, (3, 2), 1, ALL, (1, None, 2)), view(0, (2, 2, 4), ALL, (None, None, 2), ALL)]
def cube(): return inst("unary reduce psum concat", CUBE)


def explore(ins, name):
    rc, out, st = core.tlc("MCConstruct", CFG, {"instance.json": json.dumps(ins)}, name="mc-" + name)
    if rc: raise core.CheckError("TLC on MCConstruct/%s (exit %d):\n%s" % (name, rc, "\n".join(l for l in out.split("\n") if not l.startswith('"NODE'))[-3000:]))
    nodes = [json.loads(t.replace('\\"', '"').replace("\\\\", "\\")) for t in NODE.findall(out)]
    nodes.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return nodes, st


def shapes(prefix):
    out = []
    for n in prefix: out.append((-1,) if n["op"] == "Set" else (n["n"],) if n["op"] == "List" else () if n["op"] == "Size" else tuple(n["view"] if "view" in n else n["sh"]))
    return out


def scenarios(ins, name, per=24):
    nodes, st = explore(ins, name)
    sh = shapes(ins["prefix"])
    # the recorded finding of C09 is judged elsewhere
    nodes = [(n, j) for n, j in nodes if not (n["op"] == "GetItem" and deviates(sh[n["p"][0]], n["idx"]))]
    r = random.Random(3)
    out = []
    counts = {"ok": 0, "no": 0, "any": 0}
    for lo in range(0, len(nodes), per):
        s = PyScn(random.Random(lo), len(out), ins["S"], "")
        for k, n in enumerate(ins["prefix"]):
            s.nodes.append(dict(n)); s.meta.append(Meta((), 0, 0, True))
            s.steps.append({"e": "new", "i": k, "nd": dict(n), "hold": 1})
        for n, j in nodes[lo:lo + per]:
            counts[j] += 1
            n = dict(n)
            i = len(s.nodes)
            if n["op"] in ("BasicIndexing", "AdvancedIndexing"): n["f"] = "cls"; n["npint"] = n["bare"] = 0
            elif n["op"] == "GetItem": n["f"] = ""; n["bare"] = r.choice([0, 1]); n["npint"] = r.choice([0, 0, 1])
            else: n["f"] = "cls"
            if n["op"] == "Size" and sh[n["p"][0]][:1] != (-1,): pass
            s.nodes.append(n); s.meta.append(Meta((), 0, 0, True))
            s.steps.append({"e": "new", "i": i, "nd": n, "hold": 1})
        evaluate(s, 2)
        out.append(s)
    return out, st, counts


QUICK = {
    "C08": ["elementwise()", "nary()", "where()", "strided()", "strided_nary()", "cube()"],
    "C09": ["shaping()", "joining()", "slicing()", "slicing2()", "advanced()", "items()", "strided_moves()", "strided_index()"],
    "C17": ["elementwise()", "advanced()", "items()"],
}
THOROUGH = dict(QUICK, C09=QUICK["C09"] + ["slicing3()", "items3()"],
                C17=["elementwise()", "nary()", "where()", "shaping()", "joining()", "slicing()", "slicing2()", "advanced()", "items()", "items3()"])


def check(v, build):
    done = v.cov.setdefault("exhaustive_constructions", [])
    for name in (QUICK if v.tier == "quick" else THOROUGH).get(v.prop, ()):
        scns, st, counts = scenarios(eval(name), v.prop)
        v.add(states=st["distinct"])
        done.append({"instance": name, "supported": counts["ok"], "refused": counts["no"], "undetermined": counts["any"]})
        py.run(v, v.prop, build, scns, name=v.prop + "-mc", batch=2000)
        if v.viol: return

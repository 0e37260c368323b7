"""Small instances of Engine: a few decisions of every kind and symbols that use them."""
import random

from . import core, engine, mc
from .gen import NONE, Meta, Scn

INVS = ["DomainInv", "ConsistentInv", "CleanInv", "FrameInv", "ShapeInv"]
PROPS = ["IsolationProp", "AtomicProp", "RevertProp"]
M = Meta((), 0, 0, True)


class Inst(Scn):
    """a scenario without steps: the graph of an instance"""

    def __init__(self, slots=1, S=1):
        super().__init__(random.Random(0), 0, S, "V")
        self.slots = slots

    def op(self, op, *p, **kw): return self.add(op, p, M, **kw)
    def red(self, op, p, init=NONE): return self.add(op, [p], M, hi=int(init != NONE), init=0 if init == NONE else init)
    def const(self, sh, v): return self.constant(tuple(sh), list(v))
    def sl(self, a, *idx): return self.add("BasicIndexing", [a], M, idx=[[0, i, 0, 0] if isinstance(i, int) else [1] + [NONE if x is None else x for x in i] for i in idx])
    def adv(self, a, *idx): return self.add("AdvancedIndexing", [a] + [i for i in idx if i is not None], M, idx=[[1, NONE, NONE, NONE] if i is None else [2, 0, 0, 0] for i in idx])


ALL = (None, None, None)


def integers(slots=1):
    s = Inst(slots)
    x = s.integer((2,), -1, 1)
    c = s.const((2,), [1, -2])
    s.op("Add", x, c); s.op("Subtract", c, x); m = s.op("Multiply", x, x); s.op("Negative", x); s.op("Absolute", x); s.op("Square", x)
    s.op("Maximum", x, c); s.op("Minimum", x, m); s.op("Modulus", x, s.const((), [2])); s.op("Equal", x, c); s.op("LessEqual", x, c)
    for r in ("Sum", "Prod", "Min", "Max"): s.red(r, x)
    s.red("Sum", m); s.op("NaryAdd", x, c, x); s.op("NaryMultiply", x, m, x); s.op("NaryMaximum", x, c); s.op("NaryMinimum", x, m, c)
    s.sl(x, (1, None, None)); s.sl(x, 0); s.sl(x, (None, None, 2))
    return s


def binaries(slots=1):
    s = Inst(slots)
    x = s.binary((3,))
    c = s.const((3,), [1, 0, 1])
    s.op("And", x, c); s.op("Or", x, c); s.op("Xor", x, c); n = s.op("Not", x); s.op("Logical", x)
    s.red("All", x); s.red("Any", x); s.red("All", n); s.red("Any", n); s.red("Prod", x); s.red("Sum", x); s.red("Max", x); s.red("Min", x)
    r = s.add("Reshape", [x], M, sh=[3, 1])
    s.op("Where", s.sl(x, 0), x, c); s.op("Where", x, c, n)
    s.add("Concatenate", [x, n], M, ax=0); s.sl(x, (None, None, 2)); s.add("PartialSum", [r], M, ax=0); s.add("PartialSum", [r], M, ax=1)
    return s


def matrix(slots=1):
    s = Inst(slots)
    x = s.binary((2, 2))
    s.add("PartialSum", [x], M, ax=0); s.add("PartialSum", [x], M, ax=1)
    f = s.add("Reshape", [x], M, sh=[4])
    s.sl(x, (None, None, None), 1); s.sl(x, 1, ALL); s.sl(x, (None, None, None), (1, None, None)); s.sl(f, (1, None, 2))
    s.add("Concatenate", [x, x], M, ax=1)
    a, b = s.sl(x, 0, ALL), s.sl(x, (None, None, None), 0)
    t = s.const((2, 2), [1, 2, 3, 4])
    s.adv(t, a, b); s.adv(t, a, None); s.adv(t, None, b); s.adv(x, a, b)
    s.red("Prod", s.sl(x, (None, None, None), 1)); s.op("Add", s.sl(x, (None, None, None), 1), a); s.op("Multiply", x, s.sl(x, 0, 0))
    return s


def sets(n=3, mn=0, slots=1):
    s = Inst(slots)
    x = s.coll("Set", n, mn, n)
    s.op("Size", x); s.red("Sum", x); s.red("Prod", x); s.red("Max", x, -1); s.red("Min", x, n); s.red("All", x); s.red("Any", x)
    t = s.sl(x, (1, None, None)); s.op("Size", t); s.sl(x, (None, -1, None)); s.sl(x, (-2, None, None)); s.sl(x, (None, 2, None)); s.sl(x, (None, None, 2)); s.sl(x, (1, None, 2)); s.sl(x, (-2, -1, None))
    c = s.const((n,), [3 * i + 1 for i in range(n)])
    a = s.adv(c, x); s.red("Sum", a)
    d = s.const((n, 2), range(2 * n)); s.adv(d, x, None); s.adv(d, x, s.op("Minimum", x, s.const((), [1])))
    s.op("Add", x, s.const((), [2])); s.op("Multiply", a, s.const((1,), [-1])); s.op("Negative", t); s.op("LessEqual", x, s.const((1,), [1]))
    s.sl(s.adv(d, x, None), (1, None, None), ALL)
    return s


def lists(n=3, mn=None, slots=1):
    s = Inst(slots)
    mn = n if mn is None else mn
    x = s.coll("List", n, mn, n)
    c = s.const((n, n), [(i * 7 + j * 3) % 5 for i in range(n) for j in range(n)])
    v = s.const((n,), [i * i for i in range(n)])
    a = s.adv(v, x); s.red("Sum", a)
    s.adv(c, x, None); s.adv(c, x, x)
    if mn == n:
        s.adv(c, None, x); s.op("Permutation", c, x); s.op("Permutation", v, x)
        t = s.adv(c, s.sl(x, (None, -1, None)), s.sl(x, (1, None, None))); s.red("Sum", t)
        s.op("Modulus", x, s.const((), [2])); s.add("Concatenate", [x, a], M, ax=0)
    s.sl(x, (1, None, None)); s.sl(x, (None, None, 2)); s.sl(x, (None, -1, None)); s.red("Prod", x); s.red("Max", x, -1)
    if mn == n: s.op("Equal", x, a)
    return s


def bitsets(n=3, k=2, slots=1):
    s = Inst(slots)
    d, o = s.disjoint("DisjointBitSets", n, k)
    for x in o: s.red("Sum", x); s.red("Any", x); s.sl(x, (None, None, 2))
    s.op("NaryAdd", *o); s.op("Or", o[0], o[1]); s.add("Concatenate", o, M, ax=0)
    return s


def disjoint_lists(n=3, k=2, slots=1):
    s = Inst(slots)
    d, o = s.disjoint("DisjointLists", n, k)
    v = s.const((n,), [2 * i + 1 for i in range(n)])
    for x in o:
        a = s.adv(v, x); s.red("Sum", a); s.op("Size", x); s.sl(x, (1, None, None)); s.sl(x, (None, -1, None)); s.red("Prod", x); s.red("Max", x, -1)
    return s


def dynamic(rows=2, slots=1):
    s = Inst(slots)
    x = s.dyn((), 0, 1, True, 0, NONE, rows)
    for r, i in (("Sum", 1), ("Prod", 2), ("Max", 0), ("Min", 5), ("All", NONE), ("Any", NONE)): s.red(r, x, i)
    s.op("Size", x); s.op("Not", x); s.op("Add", x, s.const((), [1])); s.sl(x, (1, None, None)); s.sl(x, (None, -1, None)); s.sl(x, (-1, None, None))
    s.adv(s.const((2, 2), [4, 3, 2, 1]), x, None); s.adv(s.const((2,), [5, 6]), x); s.op("Logical", s.op("Subtract", x, s.const((), [1])))
    return s


def rows(n=2, slots=1):
    s = Inst(slots)
    x = s.dyn((2,), 0, 1, True, 0, NONE, n)
    s.sl(x, ALL, 1); s.sl(x, (1, None, None), ALL); s.sl(x, (None, -1, None), (1, None, None)); s.op("Size", x); s.red("Sum", x); s.red("Max", x, 0); s.op("Negative", x)
    s.adv(s.const((2, 2, 2), range(8)), s.sl(x, ALL, 0), None, None); s.adv(x, None, s.const((2,), [1, 0])); s.adv(s.const((2, 2), [1, 2, 3, 4]), s.sl(x, ALL, 0), s.sl(x, ALL, 1))
    return s


def mixed(slots=1):
    s = Inst(slots)
    i = s.integer((), 0, 1)
    x = s.coll("Set", 2, 0, 2)
    c = s.const((2, 2), [1, 5, 2, 7])
    s.op("Add", x, i); s.op("Multiply", i, x); s.op("Where", i, x, x); w = s.op("Where", i, x, s.sl(x, (1, None, None))); s.op("Size", w); s.red("Sum", w)
    s.adv(c, i, None); s.op("Maximum", x, i); s.op("NaryMaximum", i, s.red("Sum", x), i); s.op("LessEqual", x, i)
    return s


def quadratic(slots=1):
    s = Inst(slots)
    x = s.integer((3,), -1, 1)
    lin, quad = [1, -2, 3], [[0, 1, 2], [1, 2, -3], [2, 2, 4]]
    calls = [[0, u, 0, b] for u, b in enumerate(lin)] + [[3, u, v, b] for u, v, b in quad]
    s.op("QuadraticModel", x, lin=lin, quad=quad, calls=calls)
    s.op("QuadraticModel", s.sl(x, (None, None, 2)), lin=[1, 1], quad=[[0, 1, -2]], calls=[[1, 0, 0, 1], [1, 1, 0, 1], [2, 1, 0, -2]])
    s.op("QuadraticModel", s.op("Add", x, s.const((3,), [0, 1, 2])), lin=[0, 0, 0], quad=[[0, 0, 1], [0, 2, 1]], calls=[[2, 0, 0, 1], [3, 2, 0, 1]])
    return s


def products(slots=1):
    """products of integers whose quotients are no binary fractions, and what compares them"""
    s = Inst(slots)
    x = s.integer((2,), 0, 2)
    a = s.adv(s.const((3,), [3, 7, 9]), x)
    p = s.red("Prod", a); s.op("Equal", p, s.const((), [63])); s.op("LessEqual", p, s.const((), [27])); s.op("Modulus", s.red("Prod", a, 5), s.const((), [9]))
    u, w = s.sl(a, 0), s.sl(a, 1)
    r = s.op("NaryMultiply", u, w, p); s.op("Equal", r, s.op("Multiply", p, p)); s.op("Maximum", r, p)
    s.red("Prod", s.op("Subtract", a, s.const((2,), [3, 0])))
    return s


def objective(slots=1):
    s = Inst(slots)
    x = s.binary((2,))
    y = s.integer((), 0, 2)
    t = s.op("Add", s.red("Sum", x), y)
    s.obj = s.op("Multiply", t, y)
    s.cons = [s.op("LessEqual", t, s.const((), [2])), s.red("Any", x), s.op("Equal", s.sl(x, 0), s.sl(x, 1))]
    return s


def pair(slots=2):
    """two states of a small model"""
    s = Inst(slots)
    x = s.binary((1,))
    s.op("Not", x); s.red("Sum", x); s.op("Add", x, s.const((1,), [3]))
    return s


def shared(slots=2):
    """two decisions, one of them without a common descendant"""
    s = Inst(slots)
    x, y = s.binary((1,)), s.coll("Set", 1, 0, 1)
    s.op("Not", x); s.op("Size", y); s.op("Add", y, x); s.red("Sum", y)
    return s


def scenarios(inst, length, name):
    """all transitions of the instance as scenarios"""
    es, st = mc.explore("MCEngine", {"nodes": inst.nodes, "S": inst.S, "slots": inst.slots}, INVS, PROPS, name)
    start = es[0][0]          # the initial state is the first to be expanded
    out = []
    for path in mc.walks(es, start, length):
        s = Scn(inst.rng, len(out), inst.S, inst.flags)
        s.nodes, s.meta, s.obj, s.cons = inst.nodes, inst.meta, inst.obj, inst.cons
        moved = {}
        for a, e, b in path:
            k = e["s"]
            if e["e"] == "init":
                s.steps.append({"e": "init", "s": k, "dec": [{"d": d, "mode": 2 if inst.nodes[d]["op"].startswith("Disjoint") else 1, "v": v} for d, v in e["dec"]]})
                moved[k] = set()
            elif e["e"] == "mv":
                s.steps.append({"e": "mv", "s": k, "m": e["m"]}); moved[k].add(e["m"]["d"])
            elif e["e"] == "prop": s.steps.append({"e": "prop", "s": k, "src": sorted(moved[k])})
            elif e["e"] in ("com", "rev"): s.steps.append({"e": e["e"], "s": k}); moved[k] = set()
            elif e["e"] == "propose": s.steps.append({"e": "propose", "s": k, "acc": e["acc"], "src": sorted(moved[k])}); moved[k] = set()
            elif e["e"] == "copy": s.steps.append({"e": "copy", "s": k, "t": e["t"]}); moved[e["t"]] = set()
            elif e["e"] == "drop": s.steps.append({"e": "drop", "s": k})
        out.append(s)
    return out, st, len(es)


# property -> [instances], quick / thorough
QUICK = {
    "C01": ["integers()", "products()", "binaries()", "sets()", "lists()", "rows()", "mixed()", "dynamic(3)", "disjoint_lists(2,2)", "bitsets(2,2)"],
    "C02": ["integers()", "sets()", "lists()", "rows()", "mixed()", "dynamic(3)", "disjoint_lists(2,2)", "bitsets(2,2)"],
    "C03": ["integers()", "sets()", "lists()", "rows()", "mixed()", "dynamic(3)", "disjoint_lists(2,2)"],
    "C04": ["integers()", "products()", "binaries()", "sets()", "rows()", "mixed()"],
    "C05": ["sets()", "matrix()", "rows()"],
    "C06": ["integers()", "binaries()", "sets()", "lists()", "bitsets(2,3)", "disjoint_lists(2,3)", "disjoint_lists(3,2)"],
    "C14": ["objective()"],
    "C15": ["pair()", "mixed()"],
    "C18": ["quadratic()"],
}
EVERY = ["integers()", "products()", "binaries()", "matrix()", "sets(2)", "sets()", "sets(3,1)", "lists()", "lists(3,1)", "lists(2,0)", "bitsets(3,2)", "bitsets(2,3)", "dynamic(3)", "dynamic(4)",
         "rows()", "mixed()", "disjoint_lists(2,2)", "disjoint_lists(2,3)", "disjoint_lists(3,2)", "quadratic()"]
THOROUGH = dict({p: EVERY for p in QUICK}, C14=["objective()"], C15=["pair()", "mixed()", "shared()", "lists()"], C18=["quadratic()"])

STATES = [("Integer", dict(sh=[2], lb=-1, ub=1), 1), ("Integer", dict(sh=[1], lb=1, ub=3), 2), ("Integer", dict(sh=[], lb=0, ub=2), 4), ("Integer", dict(sh=[2, 1], lb=0, ub=0), 2),
          ("Binary", dict(sh=[2], lb=0, ub=1), 2), ("Binary", dict(sh=[2, 2], lb=0, ub=1), 1),
          ("List", dict(n=3, mn=3, mx=3), 1), ("List", dict(n=2, mn=2, mx=2), 2), ("List", dict(n=3, mn=1, mx=2), 1), ("Set", dict(n=3, mn=0, mx=3), 1), ("Set", dict(n=2, mn=0, mx=2), 2),
          ("Set", dict(n=3, mn=1, mx=2), 1), ("Set", dict(n=3, mn=2, mx=2), 1), ("DisjointBitSets", dict(n=2, k=2), 1), ("DisjointLists", dict(n=2, k=2), 1), ("DisjointLists", dict(n=2, k=1), 1)]


def states(quick):
    """all assignments to small decisions: [(decision, S, [contents])], stats"""
    out, tot = [], {"distinct": 0, "generated": 0}
    for i, (op, kw, S) in enumerate(STATES):
        if quick and i in (5,): continue
        nd = dict({"op": op, "p": [], "tol": 0}, **kw)
        es, st = mc.explore("MCStates", {"nodes": [nd], "S": S}, ["StoredInv"], [], "states")
        for k in tot: tot[k] += st[k]
        out.append((nd, S, [e["c"] for _, e, _ in es]))
    return out, tot


def assignments(quick):
    """... as scenarios of the C++ engine"""
    sets, tot = states(quick)
    out = []
    for nd, S, cs in sets:
        for c in cs:
            s = Scn(None, len(out), S, "V")
            if nd["op"].startswith("Disjoint"):
                s.rng = random.Random(0)
                s.disjoint(nd["op"], nd["n"], nd["k"])
            else:
                s.nodes, s.meta = [nd], [M]
            s.steps = [{"e": "init", "s": 0, "dec": [{"d": 0, "mode": 2 if nd["op"].startswith("Disjoint") else m, "v": c}]} for m in (1,)]
            out.append(s)
    return out, tot


def check(v, binary, flags):
    insts = (QUICK if v.tier == "quick" else THOROUGH)[v.prop]
    done = v.cov.setdefault("exhaustive_instances", [])
    for name in insts:
        scns, st, n = scenarios(eval(name), 60, v.prop)
        for s in scns: s.flags = flags
        v.add(states=st["distinct"], transitions=n)
        done.append({"instance": name, "model_states": st["distinct"], "model_transitions": n, "walks": len(scns), "calls": sum(len(s.steps) for s in scns)})
        engine.run(v, v.prop, binary, scns, name=v.prop + "-mc")
        if v.viol: return

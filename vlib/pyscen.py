"""Families of scenarios for the Python package (each is a function of a seed)."""
import random

from .gen import DECOPS, NONE, History, Meta, prod
from .pygen import PyGen, PyScn
from .scen import invalid

OPKINDS = ["un", "bin", "nary", "red", "psum", "where"]
IXKINDS = ["basic", "adv", "item", "perm", "reshape", "concat", "size", "same"]
ALLKINDS = ["un"] * 8 + ["bin"] * 18 + ["nary"] * 6 + ["red"] * 9 + ["psum"] * 4 + ["where"] * 5 + ["size"] * 3 + ["reshape"] * 3 + ["concat"] * 5 + ["perm"] * 3 + \
    ["basic"] * 8 + ["adv"] * 8 + ["item"] * 8 + ["qm"] * 3 + ["const"] * 5
SINGLEKINDS = [k for k in ALLKINDS if k not in ("item", "perm")]


def decs(s):
    return [i for i, nd in enumerate(s.nodes) if nd["op"] in DECOPS]


def grow(s, g, kinds, want, cap=40):
    made = 0
    for _ in range(want * 6):
        if made >= want or len(s.nodes) > cap: break
        if g.op(s.rng.choice(kinds)) is not None: made += 1


def assign(s, h, slot, part=1.0):
    for d in decs(s):
        if s.rng.random() < part:
            s.set(d, slot, h.clone(h.explicit(d)))


def evaluate(s, times):
    """lock, set decisions, read everything"""
    r = s.rng
    h = History(s)
    s.lock()
    n = r.choice([1, 1, 2, 3])
    s.resize(n)
    for _ in range(times):
        k = r.randrange(n)
        assign(s, h, k, r.choice([1, 1, .5]))
        s.readall(k)
    s.unlock()


def _start(seed, sid, flags="", Ss=(1, 1, 1, 4, 8), nd=(1, 1, 2, 2, 3), single=False, large=0.):
    rng = random.Random(seed)
    s = PyScn(rng, sid, rng.choice(Ss), flags, single or "D" in flags)
    g = PyGen(s, large=rng.choice([11, 12, 17, 20, 33]) if rng.random() < large else 0)
    for _ in range(rng.choice(nd)): g.decision()
    return rng, s, g


def _expr(seed, sid, kinds):
    rng, s, g = _start(seed, sid, large=.03)
    k = kinds[seed % len(kinds)]
    ks = [k] * 4 + kinds + ["const"]
    if rng.random() < .4: grow(s, g, ["basic", "basic", "item"], rng.choice([1, 2]))     # operands that are not contiguous
    if rng.random() < .3: ks += ["bin", "adv", "basic", "where", "red"]
    for _ in range(rng.choice([1, 1, 2])):
        grow(s, g, ks, rng.choice([3, 5, 8]))
        evaluate(s, rng.choice([1, 2, 3]))
    return s


def expr(seed, sid):
    """C08: operators"""
    return _expr(seed, sid, OPKINDS)


def index(seed, sid):
    """C09: indexing and manipulation"""
    return _expr(seed, sid, IXKINDS)


def qm(seed, sid):
    """C18: quadratic models as Python gives them"""
    rng = random.Random(seed)
    s = PyScn(rng, sid, rng.choice([1, 1, 4]))
    g = PyGen(s)
    g.n = rng.choice([1, 2, 3, 4, 5])
    n = g.n
    xs = []
    for _ in range(rng.choice([1, 2, 3])):
        c = rng.random()
        if c < .35: xs.append(s.integer((n,), *rng.choice([(0, 3), (-2, 2), (0, 1)])))
        elif c < .7: xs.append(s.binary((n,)))
        elif c < .8: xs.append(s.coll("List", n, n, n))
        elif c < .9: xs += s.disjoint("DisjointBitSets", n, 2)[1]
        else: xs.append(s.constant((n,), g.const_values(n, rng.choice(["bool", "small"]))))
    if rng.random() < .4:
        b = s.binary((n,))
        xs.append(s.add("Not", [b], Meta((n,), 0, s.S, True)))
    for _ in range(rng.choice([2, 3, 4])):
        g.qm_on(rng.choice(xs), n, rng.random() < .12)
    s.do("views")
    evaluate(s, rng.choice([2, 4]))
    return s


# ---- construction: what is accepted, what is refused ----
def wild(seed, sid):
    """C17 (and C08, C09): constructions from operands that mostly do not fit"""
    rng, s, g = _start(seed, sid, ["", "D", "DP"][seed % 3], Ss=(1,), nd=(2, 3, 4))
    r = rng
    for _ in range(r.randint(2, 4)):
        sh = r.choice([(), (1,), (2,), (3,), (2, 2), (2, 3), (3, 2), (1, 3), (3, 3), (3, 3, 3), (2, 0), (0,), (2, 2, 2)])
        c = r.random()
        if c < .5: s.constant(sh, [r.choice([r.randint(-2, 4), r.randint(0, 2)]) for _ in range(prod(sh))])
        elif c < .8: s.integer(sh, *r.choice([(0, 2), (-2, 2), (1, 3), (0, 3), (-3, -1), (0, 0), (0, 1)]))
        else: s.binary(sh)
    base = [i for i in s.arrays(lambda m: max(abs(m.lo), abs(m.hi)) <= 5 and m.maxsize <= 12)]
    if not base:
        base = [s.binary((2,))]
    # some operands of a functional kind, so that bounds propagate
    for _ in range(r.randint(0, 2)):
        i = r.choice(base)
        m = s.meta[i]
        k = r.choice(["Negative", "Absolute", "Not", "BasicIndexing", "Size"])
        if k == "BasicIndexing" and m.shape:
            j = s.add(k, [i], Meta(m.shape, m.lo, m.hi, m.integral, rmin=m.rmin, rmax=m.rmax), idx=[[1, NONE, NONE, NONE] for _ in m.shape])
        elif k == "Size": j = s.add(k, [i], Meta((), 0, m.maxsize, True))
        elif k != "BasicIndexing":
            j = s.add(k, [i], Meta(m.shape, *{"Negative": (-m.hi, -m.lo), "Absolute": (0, 5), "Not": (0, 1)}[k], True, rmin=m.rmin, rmax=m.rmax))
        else: continue
        base.append(j)
    ro, sound = False, decs(s)
    for _ in range(r.choice([6, 9, 12])):
        if r.random() < .08:
            if ro: s.unlock()
            else: s.lock()
            ro = not ro
        wild_op(s, r, base)
        if r.random() < .06: s.do(r.choice(["min", "con"]), n=r.choice(base + [-1]))
    if ro: s.unlock()
    h = History(s)
    s.lock()
    s.resize(1)
    for d in sound: s.set(d, 0, h.clone(h.explicit(d)))
    s.readall(0)
    s.unlock()
    return s


U = Meta((), -1000, 1000, False, True, leaf=True)


def wild_idx(r, sh, np_, item):
    """an index expression for an array of shape sh using np_ index arrays"""
    n = len(sh) + r.choice([0, 0, 0, 0, -1, 1])
    idx = []
    for k in range(max(n, 1)):
        d = sh[k] if k < len(sh) else 2
        d = 3 if d < 0 else d
        c = r.random()
        if c < .35: idx.append([0, r.choice([0, d - 1, -d, r.randint(-d, d), d, -d - 1]), 0, 0])
        elif c < .7: idx.append([1, NONE, NONE, NONE])
        elif c < .9 or not item: idx.append([1, r.choice([NONE, 0, 1, -1]), r.choice([NONE, 2, -1, d]), r.choice([NONE, 1, 2, 0 if r.random() < .3 else 1, -1 if r.random() < .3 else 1])])
        else: idx.append([3, r.randrange(5), 0, 0] if r.random() < .15 else [1, NONE, NONE, NONE])
    for k in r.sample(range(len(idx)), min(np_, len(idx))): idx[k] = [2, 0, 0, 0]
    return idx


def deviates(sh, idx):
    """the recorded finding of C09: an integer separated from the index arrays by a slice"""
    full = idx + [[1, NONE, NONE, NONE]] * (len(sh) - len(idx))
    if not any(x[0] == 2 for x in full): return False
    fancy = [k for k, x in enumerate(full) if x[0] in (0, 2)]
    tog = fancy == list(range(fancy[0], fancy[-1] + 1))
    red = [x for x in full if x[0] != 0]
    ra = [k for k, x in enumerate(red) if x[0] == 2]
    return not tog and ra == list(range(ra[0], ra[-1] + 1)) and ra[0] > 0


def wild_op(s, r, base):
    pick = lambda: r.choice(base)
    a, b, c = pick(), pick(), pick()
    m = s.meta[a]
    if r.random() < .5:
        same = [i for i in base if s.meta[i].shape == m.shape]
        b = r.choice(same)
        if r.random() < .7: c = r.choice(same)
    k = r.choice(["un", "bin", "bin", "div", "sqrt", "nary", "red", "psum", "where", "reshape", "concat", "perm", "basic", "adv", "item", "item", "item", "item", "qm", "dec", "dec", "iadd"])
    if s.flags and k == "item": k = "basic"
    if k == "un": s.add(r.choice(["Absolute", "Negative", "Square", "Logical", "Not"]), [a], U)
    elif k == "sqrt": s.add("SquareRoot", [a], U)
    elif k == "bin": s.add(r.choice(["Add", "Subtract", "Multiply", "Equal", "LessEqual", "And", "Or", "Xor", "Maximum", "Minimum", "Modulus"]), [a, b], U)
    elif k == "div": s.add("Divide", [a, b], U)
    elif k == "nary":
        s.add(r.choice(["NaryAdd", "NaryMultiply", "NaryMaximum", "NaryMinimum"]), [a, b, c][:r.choice([0, 1, 2, 3, 3])], U, f="cls")
    elif k == "red": s.add(r.choice(["Max", "Min", "Sum", "All", "Any", "Prod"]), [a], U)
    elif k == "psum": s.add("PartialSum", [a], U, ax=r.choice([0, 1, 2, 3, -1]))
    elif k == "where": s.add("Where", [a, b, c], U)
    elif k == "reshape":
        n = 1 if m.dyn else m.size
        s.add("Reshape", [a], U, sh=list(r.choice([(n,), (1, n), (n + 1,), (2, 2), (n, 1), ()])))
    elif k == "concat": s.add("Concatenate", [a, b, c][:r.choice([1, 2, 2, 3])], U, ax=r.choice([0, 0, 1, 2, -1 if r.random() < .3 else 0]), f=r.choice(["cls", "cls", "fnlist"]) if False else "cls")
    elif k == "perm": s.add("Permutation", [a, b], U, f="cls")
    elif k == "basic": s.add("BasicIndexing", [a], U, idx=wild_idx(r, m.shape, 0, False), f="cls")
    elif k == "adv":
        n = r.choice([1, 1, 2, 3])
        idx = wild_idx(r, m.shape, n, False)
        ps = [b, r.choice([b, c]), r.choice([b, c])][:sum(x[0] == 2 for x in idx)]
        s.add("AdvancedIndexing", [a] + ps, U, idx=idx, f="cls")
    elif k == "item":
        n = r.choice([0, 0, 1, 1, 2])
        idx = wild_idx(r, m.shape, n, True)
        if deviates(m.shape, idx): return
        ps = [b, r.choice([b, c])][:sum(x[0] == 2 for x in idx)]
        s.add("GetItem", [a] + ps, U, idx=idx, f="", bare=int(r.random() < .5), npint=0)
    elif k == "qm":
        n = 1 if m.dyn else max(1, m.size)
        g = PyGen(s)
        if abs(m.lo) <= 5 and abs(m.hi) <= 5 and s.nodes[a]["op"] != "Dead": g.qm_on(a, n, len(m.shape) == 1 and not m.dyn and r.random() < .5)
    elif k == "dec":
        c = r.randrange(5)
        if c == 0: s.add("Integer", [], U, sh=list(r.choice([(2,), (2, -1), (), (-1,)])), lb=r.choice([NONE, 0, 3, -2, 5]), ub=r.choice([NONE, 2, 3, -1, 0]), f="")
        elif c == 1: s.add("Binary", [], U, sh=list(r.choice([(2,), (2, -1), (-2, 2)])), lb=0, ub=1, f="")
        elif c == 2:
            n = r.choice([-1, 0, 2, 3]); s.add("List", [], U, n=n, mn=n, mx=n, f="")
        elif c == 3:
            n = r.choice([-1, 0, 2, 3]); s.add("Set", [], U, n=n, mn=r.choice([0, 1, 2, -1, 4]), mx=r.choice([0, 2, 3, 4]), f="")
        else: s.add(r.choice(["DisjointBitSets", "DisjointLists"]), [], U, n=r.choice([-1, 2, 3]), k=r.choice([-1, 1, 2]), f="cls")
    elif not s.flags: s.add("Same", [a], s.meta[a], f="pow")


def foreign(seed, sid):
    """C17: symbols of two models"""
    rng, s, g = _start(seed, sid, "DP", Ss=(1,), nd=(2, 3))
    n = rng.choice([2, 3])
    a = s.integer((n,), 1, n - 1 if n > 2 else 1)
    b = s.binary((n,))
    x = s.integer((), 0, 1)
    c = s.constant((n, n), list(range(n * n)))
    l = s.coll("List", n, n, n)
    other = [dict(s.nodes[a], f=""), dict(s.nodes[b], f=""), dict(s.nodes[x], f=""), dict(s.nodes[c], f=""), dict(s.nodes[l], f="")]
    one = s.add("Any", [b], Meta((), 0, 1, True))
    for _ in range(rng.choice([4, 6])):
        k = rng.choice(["+", "-", "*", "<=", "==", "%", "/", "and", "max", "nadd", "nadd0", "nmin", "cat", "where1", "where2", "where3", "iadd", "iaddn",
                        "imuln", "get", "get", "min", "con", "perm"])
        s1, o1 = rng.choice([a, b]), rng.choice([0, 1])
        if k == "/": o1 = 0
        if k in ("min", "con"): o1 = 2
        if k == "get": s1, o1 = (a, 2) if n > 2 else (a, 2)
        if k == "perm": s1, o1 = c, 4
        s.do("foreign", k=k, a=s1, b=o1, nodes=other)
        if k in ("iaddn", "imuln"):
            # the n-ary symbol that was made for the attempt
            s.nodes.append({"op": "NaryAdd" if k == "iaddn" else "NaryMultiply", "p": [s1], "tol": 0, "f": "foreign"})
            s.meta.append(U)
            return s
        if rng.random() < .5: g.op("un")
    s.do("views")
    evaluate(s, 1)
    return s


# ---- the model under construction ----
class Life:
    """random calls on a model; mirrors which symbols exist"""

    def __init__(self, s, g, kinds):
        self.s, self.g, self.kinds, self.r = s, g, kinds, s.rng
        self.gone, self.held = set(), None
        self.obj, self.cons = -1, []
        self.dropped = set()
        self.inplace = {}

    def alive(self):
        return [i for i, nd in enumerate(self.s.nodes) if nd["op"] != "Dead" and i not in self.gone]

    def preds(self, i):
        return self.s.nodes[i]["p"] + self.inplace.get(i, [])

    def needed(self):
        nodes = self.s.nodes
        keep = {i for i in self.alive() if nodes[i]["op"] in DECOPS or nodes[i]["op"] in ("DisjointBitSet", "DisjointList")}
        todo = [i for i in self.alive() if i not in self.dropped or i == self.obj or i in self.cons]
        while todo:
            i = todo.pop()
            if i in keep and nodes[i]["op"] not in ("DisjointBitSet", "DisjointList"):
                continue
            keep.add(i)
            todo += [p for p in self.preds(i) if p not in keep]
        return keep

    def new(self):
        # refused when locked
        self.g.op(self.r.choice(self.kinds))

    def usable(self):
        return [i for i in self.alive() if self.s.nodes[i]["op"] not in ("DisjointBitSets", "DisjointLists")]

    def objective(self):
        s, r = self.s, self.r
        c = [i for i in self.usable() if not (s.nodes[i]["op"] == "Dead")]
        one = [i for i in c if s.meta[i].size == 1]
        i = r.choice(one) if one and r.random() < .8 else r.choice(c) if c else -1
        if r.random() < .05: i = -1
        s.do("min", n=i)
        if i >= 0 and s.meta[i].size == 1 and not s.locked: self.obj = i

    def constraint(self):
        s, r = self.s, self.r
        c = [i for i in self.usable()]
        log = [i for i in c if s.meta[i].size == 1 and s.nodes[i]["op"] in ("And", "Or", "Xor", "Equal", "LessEqual", "Logical", "Not", "All", "Any", "Binary")]
        i = r.choice(log) if log and r.random() < .75 else r.choice(c) if c else -1
        dec = [j for j in log if s.nodes[j]["op"] == "Binary"]
        if dec and r.random() < .3: i = r.choice(dec)
        elif not s.locked and r.random() < .1:
            i = s.binary(r.choice([(), (1,)]))
            log = log + [i]
        if r.random() < .05: i = -1
        elif not s.locked and r.random() < .12:
            i = self.fraction()
        s.do("con", n=i)
        if i in log and not s.locked: self.cons.append(i)
        return i

    def fraction(self):
        """a symbol whose values are between 0 and 1, but not 0 and 1 only"""
        s, r = self.s, self.r
        S = s.S
        c = s.constant((), [r.choice([S // 2, S // 4 or 1, 3 * S // 4])])
        if r.random() < .3: return c
        b = s.binary(())
        k = r.choice(["Multiply", "Minimum", "Maximum", "NaryMultiply", "Modulus", "Where"])
        m = Meta((), 0, S, S == 1)
        if k == "Where": return s.add(k, [b, c, b], m, f="cls")
        return s.add(k, [b, c], m, f="cls")

    def remove(self):
        s = self.s
        s.do("remove")
        if not s.locked:
            keep = self.needed()
            for i in self.alive():
                if i not in keep:
                    self.gone.add(i)
                    s.meta[i].leaf = True

    def drop(self):
        c = [i for i in self.alive() if i not in self.dropped]
        if len(c) < 2: return
        i = self.r.choice(c)
        self.s.do("drop", n=i)
        self.dropped.add(i)

    def hold(self):
        c = [i for i in self.alive() if i in self.dropped]
        if not c: return
        i = self.r.choice(c)
        self.s.do("hold", n=i)
        self.dropped.discard(i)

    def iadd(self):
        s, r = self.s, self.r
        k = r.choice("+*")
        op = "NaryAdd" if k == "+" else "NaryMultiply"
        c = [i for i in self.usable() if s.nodes[i]["op"] == op and i not in self.dropped]
        if not c or r.random() < .25: c = [i for i in self.usable() if i not in self.dropped and not s.meta[i].dyn]
        if not c: return
        a = r.choice(c)
        b = r.choice([i for i in self.usable() if s.meta[i].shape == s.meta[a].shape] if r.random() < .85 else self.usable())
        j = len(s.nodes)
        ok = not s.locked and s.meta[a].shape == s.meta[b].shape and not s.meta[a].dyn
        inpl = ok and s.nodes[a]["op"] == op and not self.depends(b, a)
        s.do("iadd", n=a, b=b, k=k, i=j)
        if inpl or not ok:
            if inpl: self.inplace.setdefault(a, []).append(b)
            s.nodes.append({"op": "Dead", "p": [], "tol": 0})
            s.meta.append(Meta((), 0, 0, True, leaf=True))
        else:
            s.nodes.append({"op": op, "p": [a, b], "tol": 0, "f": "iadd"})
            s.meta.append(Meta(s.meta[a].shape, -1000, 1000, False, True, leaf=True))
        s.meta[a].leaf = True            # its range is no longer known
        for i in range(len(s.nodes)):
            if self.depends(i, a): s.meta[i].leaf = True

    def depends(self, b, a):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x == a: return True
            if x in seen: continue
            seen.add(x)
            todo += self.preds(x)
        return False

    def locked_new(self):
        """additions to a locked model"""
        n = len(self.s.nodes)
        if self.g.op(self.r.choice(self.kinds)) is None and len(self.s.nodes) == n: return
        for i in range(n, len(self.s.nodes)):
            self.s.meta[i].leaf = True
            self.gone.add(i)


def _life(seed, sid, flags, weights, kinds=SINGLEKINDS, steps=(12, 20, 30), Ss=(1, 1, 4)):
    rng, s, g = _start(seed, sid, flags, Ss=Ss, nd=(1, 2, 3), single=True)
    L = Life(s, g, kinds)
    for _ in range(rng.randint(1, 4)): L.new()
    names = [k for k, w in weights.items() for _ in range(w)]
    for _ in range(rng.choice(steps)):
        if len(s.nodes) > 45: break
        k = rng.choice(names)
        if k == "new":
            if s.locked: L.locked_new()
            else: L.new()
        elif k == "decision":
            n = len(s.nodes)
            g.decision()
            if s.locked:
                for i in range(n, len(s.nodes)): s.meta[i].leaf = True; L.gone.add(i)
        elif k == "lock": s.lock()
        elif k == "unlock": s.unlock()
        elif k == "resize": s.resize(rng.choice([0, 1, 2, 3]))
        elif k == "views": s.do("views")
        elif k == "fail": s.do("file", how=rng.choice(["into", "states"]), max=NONE, only=int(rng.random() < .2), load="", fail=rng.choice([0, 1, 2, 5, 9, 14, 20]))
        elif k == "eq":
            c = [i for i in L.alive()]
            a = rng.choice(c)
            same = [i for i in c if s.nodes[i]["op"] == s.nodes[a]["op"]]
            s.do("eq", a=a, b=rng.choice(same if rng.random() < .8 else c))
        elif k == "eqx": s.do("eqx", a=rng.choice(L.alive()))
        else: getattr(L, k)()
    return rng, s, g, L


def bookkeeping(seed, sid):
    """C10: counts, order, locking"""
    return _life(seed, sid, "DP", {"new": 8, "decision": 2, "lock": 3, "unlock": 3, "objective": 1, "constraint": 2, "remove": 1, "drop": 1, "iadd": 2, "resize": 1, "fail": 1})[1]


def removal(seed, sid):
    """C11"""
    return _life(seed, sid, "DPX", {"new": 8, "decision": 1, "lock": 1, "unlock": 2, "objective": 1, "constraint": 1, "remove": 4, "drop": 8, "hold": 2, "iadd": 1})[1]


def identity(seed, sid):
    """C20"""
    rng, s, g, L = _life(seed, sid, "", {"new": 8, "decision": 1, "objective": 1, "constraint": 1, "views": 1, "eq": 6, "eqx": 1, "remove": 1, "drop": 2, "lock": 1,
                                         "unlock": 1, "iadd": 1, "twin": 6}) if False else _identity(seed, sid)
    return s


def _identity(seed, sid):
    rng, s, g = _start(seed, sid, "", Ss=(1, 1, 4), nd=(1, 2, 3), single=True)
    L = Life(s, g, SINGLEKINDS)
    for _ in range(rng.choice([4, 7, 10])): L.new()
    # build some of it once more
    twin = {}
    for i in range(len(s.nodes)):
        nd = s.nodes[i]
        if nd["op"] in DECOPS or nd["op"] in ("DisjointBitSet", "DisjointList", "Dead"): continue
        if rng.random() < .6 and len(s.nodes) < 40:
            p = [twin.get(x, x) if rng.random() < .8 else x for x in nd["p"]]
            kw = {k: v for k, v in nd.items() if k not in ("op", "p", "tol", "f", "hi", "init", "const")}
            m = s.meta[i]
            if nd["op"] == "Constant" and rng.random() < .4 and nd["v"]:
                kw["v"] = list(nd["v"])
                if rng.random() < .7: kw["v"][rng.randrange(len(kw["v"]))] += s.S
                else: rng.shuffle(kw["v"])
            if rng.random() < .4: _vary(rng, s, nd, m, kw)
            j = s.add(nd["op"], p, Meta(m.shape, m.lo, m.hi, m.integral, m.fuzzy, m.rmin, m.rmax, m.cont, m.leaf, m.key), **kw)
            s.nodes[j]["tol"] = nd["tol"]
            twin[i] = j
    if rng.random() < .5:
        # constants that are nearly the same, and symbols of them
        n = rng.choice([1, 2, 3])
        near = [rng.choice([0, s.S, 2 ** 20, 2 ** 24 * s.S]) for _ in range(n)]
        near[rng.randrange(n)] = rng.choice([2 ** 18, 2 ** 20]) * s.S
        for i in range(2):
            v = list(near)
            if i and rng.random() < .8: v[rng.choice([k for k in range(n) if v[k] > 2 * s.S])] += rng.choice([-1, 1, s.S])
            j = s.add("Constant", [], Meta((n,), min(v) / s.S, max(v) / s.S, all(x % s.S == 0 for x in v)), sh=[n], v=v)
            k = s.add("Negative", [j], Meta((n,), -max(v) / s.S, -min(v) / s.S, all(x % s.S == 0 for x in v)))
            if i == 0: first = (j, k)
            else: twin[first[0]], twin[first[1]] = j, k
        for j, k in ((first[0], j), (first[1], k)):
            s.do("eq", a=j, b=k)
            s.do("eq", a=k, b=j)
    L.objective(); L.constraint(); L.constraint()
    ids = L.alive()
    for _ in range(rng.choice([10, 20])):
        a = rng.choice(ids)
        same = [i for i in ids if s.nodes[i]["op"] == s.nodes[a]["op"]]
        b = twin.get(a, a) if rng.random() < .4 else rng.choice(same if rng.random() < .7 else ids)
        s.do("eq", a=a, b=b)
    s.do("eqx", a=rng.choice(ids))
    s.do("views")
    if rng.random() < .5:
        s.lock()
        s.do("views")
    return rng, s, g, L


def _vary(rng, s, nd, m, kw):
    """another parameter, the same shape (where there is one)"""
    base = s.meta[nd["p"][0]].shape if nd["p"] else ()
    if nd["op"] == "PartialSum":
        kw["ax"] = rng.choice([k for k in range(len(base)) if tuple(base[:k]) + tuple(base[k + 1:]) == tuple(m.shape)])
    elif nd["op"] == "QuadraticModel":
        if rng.random() < .5 and not nd["nol"] and nd["l"]:
            k = rng.randrange(len(nd["l"]))
            kw["lin"], kw["l"] = list(nd["lin"]), [list(e) if isinstance(e, list) else e for e in nd["l"]]
            if nd["form"] == "dict":
                kw["l"][k][1] += s.S; kw["lin"][kw["l"][k][0]] += s.S
            else:
                kw["l"][k] += s.S; kw["lin"][k] += s.S
        elif nd["quad"]:
            kw["quad"] = [list(q) for q in nd["quad"]]; kw["quad"][rng.randrange(len(nd["quad"]))][2] += s.S
    elif nd["op"] in ("BasicIndexing", "AdvancedIndexing"):
        for _ in range(10):
            idx = [list(e) for e in nd["idx"]]
            if nd["op"] == "AdvancedIndexing": rng.shuffle(idx)
            else:
                k = rng.randrange(len(idx))
                n = base[k]
                if idx[k][0] == 0: idx[k][1] = rng.randrange(-n, n)
                else: idx[k] = [1] + [rng.choice([NONE, rng.randint(-4, 4)]), rng.choice([NONE, rng.randint(-4, 4)]), rng.choice([NONE, 1, 2])]
            if nd["op"] == "AdvancedIndexing" or shape_of(base, idx) == tuple(m.shape): break
        else: return
        if nd["op"] == "AdvancedIndexing":
            sizes = [base[k] for k in range(len(idx)) if idx[k][0] == 2]
            old = [base[k] for k in range(len(idx)) if nd["idx"][k][0] == 2]
            if any(b < a for a, b in zip(old, sizes)) or base[0] < 0 or adv_shape(base, idx, s.meta[nd["p"][1]].shape) != adv_shape(base, nd["idx"], s.meta[nd["p"][1]].shape): return
        kw["idx"] = idx


def adv_shape(base, idx, ish):
    A = [k for k in range(len(idx)) if idx[k][0] == 2]
    rest = lambda lo, hi: tuple(base[k] for k in range(lo, hi) if k not in A)
    if A == list(range(A[0], A[-1] + 1)): return rest(0, A[0]) + tuple(ish) + rest(A[-1], len(idx))
    return tuple(ish) + rest(0, len(idx))


def objective(seed, sid):
    """C14 at the Python level"""
    rng, s, g, L = _life(seed, sid, "D", {"new": 8, "objective": 3, "constraint": 4, "iadd": 0, "remove": 1, "drop": 2, "lock": 1, "unlock": 1}, steps=(14, 22), Ss=(1, 1, 4, 8))
    while s.locked: s.unlock()
    h = History(s)
    h.decs = [d for d in decs(s) if d not in L.gone]
    s.lock()
    n = rng.choice([1, 2])
    s.resize(n)
    for _ in range(rng.choice([2, 4])):
        k = rng.randrange(n)
        for d in h.decs:
            if d not in L.dropped or True: s.set(d, k, h.clone(h.explicit(d)))
        s.do("feas", s=rng.choice([k, k, k - n, n + 1 if rng.random() < .1 else k]))
        if L.obj >= 0: s.do("read", n=L.obj, s=k)
    return s


def slots(seed, sid):
    """C12: the model's states"""
    rng, s, g = _start(seed, sid, "", nd=(1, 2, 2, 3), large=.05)
    grow(s, g, ALLKINDS, rng.choice([3, 5, 8]), 25)
    h = History(s)
    arrays = lambda: [i for i, nd in enumerate(s.nodes) if nd["op"] not in ("DisjointBitSets", "DisjointLists", "Dead")]
    if rng.random() < .8: s.lock()
    if rng.random() < .9: s.resize(rng.choice([1, 2, 3]))
    for _ in range(rng.choice([15, 25, 40])):
        n = s.nslots
        k = rng.choice(range(n)) if n and rng.random() < .93 else rng.choice([-1, n, n + 1, -n - 1, -n])
        rk = k - n if n and rng.random() < .1 else k
        c = rng.random()
        if c < .26:
            d = rng.choice(decs(s))
            v = h.clone(h.explicit(d))
            if rng.random() < .12:
                b = invalid(h, d)
                if b is not None and clean(s, d, b): v = b
            s.set(d, k, v)
        elif c < .52: s.do("read", n=rng.choice(arrays()), s=rk)
        elif c < .72: s.do("has", n=rng.choice(range(len(s.nodes))), s=rk)
        elif c < .80: s.do("reset", n=rng.choice(range(len(s.nodes))), s=k)
        elif c < .84: s.do("initialize")
        elif c < .848:
            n = rng.choice([0, 1, 2, 3])
            bad = int(rng.random() < .15)
            sets = [[d, k2, h.clone(h.explicit(d)), s.nodes[d]["op"]] for k2 in range(n) for d in decs(s) if rng.random() < .6]
            s.do("future", n=n, bad=bad, sets=sets)
            s.nslots = 0 if bad else n
        elif c < .885: s.resize(rng.choice([0, 1, 2, 3, 4, n, n + 1, max(0, n - 1), -1]))
        elif c < .90: s.do("clear"); s.nslots = 0
        elif c < .94: s.lock()
        elif c < .985: s.unlock()
        elif not s.locked: g.op(rng.choice(ALLKINDS))
        else: s.readall(k) if False else s.do("has", n=rng.choice(range(len(s.nodes))), s=rk)
    return s


def clean(s, d, v):
    """Python converts to integers/booleans before anything is checked: only whole numbers are decisive"""
    flat = [x for r in v for x in (r if isinstance(r, list) else [r])]
    if any(x % s.S for x in flat): return False
    if s.nodes[d]["op"] == "DisjointBitSets":
        if any(x not in (0, s.S) for x in flat): return False
    return True


def states(seed, sid):
    """C07 at the Python level"""
    rng, s, g = _start(seed, sid, "", Ss=(1, 1, 4), nd=(1, 2, 3), large=.05)
    if rng.random() < .4: grow(s, g, ALLKINDS, 2)
    h = History(s)
    if rng.random() < .5: s.lock()
    n = rng.choice([1, 2, 3]) if rng.random() < .95 else 12
    s.resize(n)
    arr = lambda d: s.nodes[d]["op"] not in ("DisjointBitSets", "DisjointLists")
    for _ in range(rng.choice([8, 16])):
        d, k = rng.choice(decs(s)), rng.randrange(n)
        c = rng.random()
        if c < .7:
            v = h.clone(h.explicit(d))
            if rng.random() < .45:
                b = invalid(h, d)
                if b is not None and clean(s, d, b): v = b
            s.set(d, k, v)
        elif c < .8: s.do("has", n=d, s=k)
        elif c < .9: s.do("reset", n=d, s=k)
        elif arr(d): s.do("read", n=d, s=k)
        # the outputs of a disjoint decision show its contents
        outs = [i for i, nd in enumerate(s.nodes) if nd["op"] in ("DisjointBitSet", "DisjointList") and nd["p"] == [d]]
        if outs and s.locked and rng.random() < .7:
            for o in outs: s.do("read", n=o, s=k)
        elif arr(d) and rng.random() < .4: s.do("read", n=d, s=k)
    return s


def empty_views(s, r):
    sh = r.choice([(2, 0), (0, 2), (0,), (2, 0, 3), (2, 2, 2), (3, 4)])
    a = s.integer(sh, 0, 1) if r.random() < .6 else s.constant(sh, [r.randint(0, 3) * s.S for _ in range(prod(sh))])
    idx = []
    for d in sh:
        if d and r.random() < .4: idx.append([0, r.randrange(-d, d), 0, 0])
        else: idx.append([1, r.choice([NONE, 0, d, 1, -1]), r.choice([NONE, 0, d, 1, 5]), r.choice([NONE, 1, 2, 7])])
    m = s.meta[a]
    s.add("BasicIndexing", [a], Meta(shape_of(sh, idx), m.lo, m.hi, m.integral, leaf=True, cont=False), idx=idx)


def shape_of(sh, idx):
    out = []
    for d, x in zip(sh, idx):
        if x[0] == 1: out.append(-1 if d < 0 else len(range(*slice(*[None if v == NONE else v for v in x[1:]]).indices(d))))
    return tuple(out)


def other(rng, s, L):
    """the decisions, some of them with another domain or missing"""
    nodes = [dict(nd) if nd["op"] in DECOPS and i not in L.gone else {"op": "Dead"} for i, nd in enumerate(s.nodes)]
    ds = [i for i, nd in enumerate(nodes) if nd["op"] != "Dead"]
    alt, lost = [], 0
    if rng.random() < .1 and ds: nodes[rng.choice(ds)] = {"op": "Dead"}; lost = 1
    elif ds:
        d = rng.choice(ds)
        nd = nodes[d]
        c = rng.random()
        if nd["op"] == "Set": nd["f"] = ""
        if c < .15: nd.update(op="Binary", sh=[2], p=[], f=""); [nd.pop(k, None) for k in ("lb", "ub", "n", "k", "mn", "mx")]
        elif nd["op"] == "Integer":
            if c < .3: nd["sh"] = list(nd["sh"]) + [1]
            elif c < .65 and nd["lb"] > -1999999999: nd["lb"] = (0 if nd["lb"] == NONE else nd["lb"]) - 1
            else: nd["ub"] = 2000000 if nd["ub"] in (NONE, 2000000000) else nd["ub"] + rng.choice([1, 3])
        elif nd["op"] == "Binary": nd["sh"] = list(nd["sh"]) + [1] if c < .6 else nd["sh"]
        elif nd["op"] in ("List", "Set"):
            if nd["op"] == "List": nd["n"] += 1; nd["mx"] += 1; nd["mn"] += 1
            elif c < .5 or nd["mx"] == 0: nd["n"] += 1
            elif nd["mn"] < nd["mx"]: nd[rng.choice(["mn", "mx"])] += 1; nd["n"] = max(nd["n"], nd["mx"])
            else: nd["mn"] -= 1
        else:
            k = rng.choice(["n", "k"])
            nd[k] += 1
        alt = [[d, nd]]
    return {"nodes": nodes, "pre": rng.choice([0, 1, 2, 4]), "alt": alt, "lost": lost}


def files(seed, sid):
    """C13"""
    rng, s, g = _start(seed, sid, "D", nd=(1, 2, 2, 3), large=.06)
    L = Life(s, g, SINGLEKINDS)
    if rng.random() < .15:                      # arrays without elements
        for _ in range(2): empty_views(s, rng)
    for _ in range(rng.choice([2, 4, 8, 12])):
        if len(s.nodes) > 30: break
        L.new()
    if rng.random() < .7: L.objective()
    for _ in range(rng.choice([0, 1, 2])): L.constraint()
    if rng.random() < .2: L.drop(); L.remove()
    h = History(s)
    h.decs = decs(s)
    if rng.random() < .3: s.lock()
    s.resize(rng.choice([0, 1, 2, 3]) if rng.random() < .94 else rng.choice([10, 11, 12, 13]))
    for k in range(s.nslots):
        for d in h.decs:
            if rng.random() < .7: s.set(d, k, h.clone(h.explicit(d)))
    if s.locked and s.nslots and rng.random() < .4:
        c = [i for i in L.usable() if s.nodes[i]["op"] not in ("Constant",)]
        if c: s.do("read", n=rng.choice(c), s=rng.randrange(s.nslots))
    for _ in range(rng.choice([1, 2])):
        how = rng.choice(["to", "to", "into", "name", "states", "statesname"])
        kw = {}
        load = ""
        if how.startswith("states") and rng.random() < .6:
            load = "states"
            nodes = [dict(nd) if nd["op"] != "Dead" and i not in L.gone else {"op": "Dead"} for i, nd in enumerate(s.nodes)]
            if rng.random() < .4:
                nodes = [nd if nd["op"] in DECOPS or nd["op"] in ("DisjointBitSet", "DisjointList") else {"op": "Dead"} for nd in nodes]
            kw = {"nodes": nodes, "pre": rng.choice([0, 1, 2, 4])}
            if rng.random() < .4: load, kw = "other", other(rng, s, L)
        probe = []
        if load == "" and rng.random() < .4 and h.decs:
            for _ in range(3):
                d = rng.choice(h.decs)
                v = h.clone(h.explicit(d))
                if rng.random() < .6:
                    b = invalid(h, d)
                    if b is not None and clean(s, d, b): v = b
                probe.append([d, v])
        only = int(not how.startswith("states") and rng.random() < .25)
        if only: probe = []
        if rng.random() < .08:
            s.do("file", how=how, max=NONE, only=only, load="", fail=rng.choice([0, 1, 2, 4, 7, 10, 15, 20, 30]))
            continue
        if how.startswith("states"): probe = []
        s.do("file", how=how, max=rng.choice([NONE, 0, 1, 2, 3, 9] + [10, 11, 99] * (s.nslots > 9)), only=only,
             nohdr=int(load == "" and rng.random() < .2), load=load, again=int(load == "" and not only and not how.startswith("states") and rng.random() < .4),
             ops={str(d): s.nodes[d]["op"] for d in h.decs}, **(dict(probe=probe) if probe else {}), **kw)
    return s

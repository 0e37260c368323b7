"""Random scenario generator for the engine checks.

A scenario is a graph (node records as used by spec/Ops.tla) and a list of calls.  The generator
keeps interval information so that every number stays on the 1/S grid and inside TLC's 32-bit
integers; it does not predict results (the specification does).
"""
import random

NONE = 2147483647
BIG = 1900000000          # |scaled value| limit
UN = ["Absolute", "Logical", "Negative", "Not", "Square", "SquareRoot"]
BIN = ["Add", "And", "Divide", "Equal", "LessEqual", "Multiply", "Maximum", "Minimum", "Modulus", "Or",
       "Subtract", "Xor"]
NARY = ["NaryAdd", "NaryMaximum", "NaryMinimum", "NaryMultiply"]
RED = ["All", "Any", "Max", "Min", "Prod", "Sum"]
DECOPS = {"Integer", "Binary", "List", "Set", "Dyn", "DisjointBitSets", "DisjointLists"}


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class Meta:
    """what the generator knows about a node's value"""
    __slots__ = ("shape", "lo", "hi", "integral", "fuzzy", "rmin", "rmax", "cont", "arr", "leaf", "key")

    def __init__(self, shape, lo, hi, integral, fuzzy=False, rmin=None, rmax=None, cont=True, leaf=False, key=None):
        self.shape = tuple(shape)
        self.lo, self.hi, self.integral, self.fuzzy = lo, hi, integral, fuzzy
        self.rmin, self.rmax = rmin, rmax          # rows of the dynamic axis
        self.cont, self.leaf, self.key = cont, leaf, key

    @property
    def dyn(self):
        return len(self.shape) > 0 and self.shape[0] < 0

    @property
    def size(self):
        return -1 if self.dyn else prod(self.shape)

    @property
    def maxsize(self):
        return (self.rmax if self.dyn else 1) * prod(d for d in self.shape if d >= 0)

    @property
    def minsize(self):
        return (self.rmin if self.dyn else 1) * prod(d for d in self.shape if d >= 0)


class Scn:
    def __init__(self, rng, sid, S=1, flags="V"):
        self.rng, self.id, self.S, self.flags = rng, sid, S, flags
        self.nodes, self.meta = [], []
        self.steps = []            # dicts (TLA side); tokens derived
        self.obj, self.cons = -1, []
        self.ncap = 99             # maximum rows for dynamic arrays

    # ---- nodes ----
    def add(self, op, p, meta, **kw):
        nd = {"op": op, "p": list(p), "tol": 0}
        nd.update(kw)
        self.nodes.append(nd)
        self.meta.append(meta)
        return len(self.nodes) - 1

    def constant(self, shape, values):
        lo = min(values) if values else 0
        hi = max(values) if values else 0
        return self.add("Constant", [], Meta(shape, lo, hi, all(v % self.S == 0 for v in values)),
                        sh=list(shape), v=list(values))

    def integer(self, shape, lb, ub):
        return self.add("Integer", [], Meta(shape, (0 if lb == NONE else lb) * self.S,
                                            (2000000000 if ub == NONE else ub) * self.S, True),
                        sh=list(shape), lb=lb, ub=ub)

    def binary(self, shape):
        return self.add("Binary", [], Meta(shape, 0, self.S, True), sh=list(shape), lb=0, ub=1)

    def coll(self, kind, n, mn, mx):
        sh = (mx,) if mn == mx else (-1,)
        i = len(self.nodes)
        return self.add(kind, [], Meta(sh, 0, max(0, n - 1) * self.S, True, rmin=mn, rmax=mx, key=("s", i)), n=n, mn=mn, mx=mx)

    def dyn(self, tail, lo, hi, integral, mn, mx, cap):
        i = len(self.nodes)
        return self.add("Dyn", [], Meta((-1,) + tuple(tail), lo, hi, integral, rmin=0 if mn == NONE else mn, rmax=cap, key=("s", i)),
                        sh=[-1] + list(tail), hasb=1, lo=lo, hi=hi, int=int(integral), mnsz=mn if mn == NONE else mn * prod(tail),
                        mxsz=mx if mx == NONE else mx * prod(tail), mn0=0, cap=cap)

    def disjoint(self, kind, n, k):
        d = self.add(kind, [], Meta((), 0, 0, True), n=n, k=k)
        outs = []
        for j in range(k):
            if kind == "DisjointBitSets":
                outs.append(self.add("DisjointBitSet", [d], Meta((n,), 0, self.S, True), n=n))
            else:
                i = len(self.nodes)
                outs.append(self.add("DisjointList", [d], Meta((-1,), 0, max(0, n - 1) * self.S, True, rmin=0, rmax=n, key=("s", i)), n=n))
        return d, outs

    def arrays(self, pred=lambda m: True):
        return [i for i, m in enumerate(self.meta)
                if self.nodes[i]["op"] not in ("DisjointBitSets", "DisjointLists") and not m.leaf and pred(m)]

    # ---- tokens ----
    def node_tokens(self, nd):
        op = nd["op"]
        t = [op, len(nd["p"])] + nd["p"]
        L = lambda xs: [len(xs)] + list(xs)
        if op == "Constant": t += L(nd["sh"]) + L(nd["v"])
        elif op == "Integer": t += L(nd["sh"]) + [nd["lb"], nd["ub"]]
        elif op == "Binary": t += L(nd["sh"])
        elif op in ("List", "Set"): t += [nd["n"], nd["mn"], nd["mx"]]
        elif op in ("DisjointBitSets", "DisjointLists"): t += [nd["n"], nd["k"]]
        elif op == "Dyn": t += L(nd["sh"]) + [nd["hasb"], nd["lo"], nd["hi"], nd["int"], nd["mnsz"], nd["mxsz"]]
        elif op in RED: t += [nd["hi"], nd["init"]]
        elif op == "PartialSum": t += L(nd.get("axes", [nd["ax"]]))
        elif op == "Concatenate": t += [nd["ax"]]
        elif op == "Reshape": t += L(nd["sh"])
        elif op in ("BasicIndexing", "AdvancedIndexing"):
            t += [len(nd["idx"])]
            for x in nd["idx"]: t += x
        elif op == "QuadraticModel":
            t += [len(nd["lin"]), len(nd["calls"])]
            for c in nd["calls"]: t += c
        return t

    def step_tokens(self, s):
        e = s["e"]
        L = lambda xs: [len(xs)] + list(xs)
        if e == "init":
            t = [e, s["s"], len(s["dec"])]
            for d in s["dec"]:
                t += [d["d"], d["mode"]]
                if d["mode"] in (1, 4): t += L(d["v"])
                elif d["mode"] == 2:
                    t += [len(d["v"])]
                    for x in d["v"]: t += L(x)
                elif d["mode"] == 3: t += [d["seed"]]
            return t
        if e == "mv":
            m = s["m"]
            t = [e, s["s"], m["d"], m["k"]] + list(m["a"])
            if m["k"] in ("set_state", "dgrow"): t += L(m["v"])
            elif m["k"] == "dset": t += list(m["v"])
            return t
        if e == "prop": return [e, s["s"]] + L(s["src"])
        if e in ("com", "rev", "drop", "empty"): return [e, s["s"]]
        if e == "propose": return [e, s["s"], s["acc"]] + L(s["src"])
        if e == "copy": return [e, s["s"], s["t"]]
        if e in ("recinit", "recreset"): return [e, s["s"], s["n"]]
        if e in ("obj", "con", "qm"): return [e, s["n"]]
        if e == "remove": return [e, s["ign"]] + L(s["lst"])
        if e == "node": return [e] + self.node_tokens(s["nd"])
        return [e]

    def text(self):
        out = ["S %d %d %s" % (self.id, self.S, self.flags)]
        for nd in self.nodes:
            out.append("N " + " ".join(map(str, self.node_tokens(nd))))
        if self.obj >= 0: out.append("E obj %d" % self.obj)
        for c in self.cons: out.append("E con %d" % c)
        for s in self.steps:
            out.append("E " + " ".join(map(str, self.step_tokens(s))))
        out.append("Z")
        return "\n".join(out) + "\n"

    def header_steps(self):
        return (1 if self.obj >= 0 else 0) + len(self.cons)


# ---------------------------------------------------------------------------------------------
class GraphGen:
    """adds random nodes to a scenario"""

    def __init__(self, s, avoid=(), large=0):
        self.s, self.rng, self.S = s, s.rng, s.S
        self.avoid = set(avoid)
        self.large = large
        self.n = large or self.rng.choice([2, 3, 3, 4, 5])      # the scenario's favourite extent
        self.cap = 4 * large + 60                               # the most elements an array may have

    def shape(self):
        n = self.n
        if self.large: return self.rng.choice([(), (n,), (n,), (n,), (n, 2), (2, n), (1, n), (n, 1)])
        return self.rng.choice([(), (), (1,), (n,), (n,), (n,), (n,), (2, n), (n, 2), (2, 2), (2, 2, 2), (n, 1), (1, n), (2, n, 2), (1, 1), (n, n)])

    def val(self, lo, hi, integral=True):
        S = self.S
        if integral or S == 1:
            return self.rng.randint(-(-lo // S), hi // S) * S if hi // S >= -(-lo // S) else lo
        return self.rng.randint(lo, hi)

    def const_values(self, k, kind=None):
        r, S = self.rng, self.S
        kind = kind or r.choice(["small", "small", "neg", "frac", "bool", "pos", "zero", "neg1"])
        if kind == "small": return [r.randint(-3, 5) * S for _ in range(k)]
        if kind == "neg": return [r.randint(-6, 0) * S for _ in range(k)]
        if kind == "neg1": return [r.randint(-4, -1) * S for _ in range(k)]
        if kind == "frac": return [r.randint(-4 * S, 6 * S) for _ in range(k)]
        if kind == "bool": return [r.choice([0, S]) for _ in range(k)]
        if kind == "pos": return [r.randint(1, 4) * S for _ in range(k)]
        return [0] * k

    # -- decisions --
    def decision(self, kind=None):
        s, r, n = self.s, self.rng, self.n
        kind = kind or r.choice(["Integer"] * 4 + ["Binary"] * 3 + ["List"] * 3 + ["Set"] * 3 + ["Dyn"] * 3 +
                                ["DisjointLists"] * 2 + ["DisjointBitSets"])
        if kind == "Integer":
            lb, ub = r.choice([(0, 3), (-2, 2), (-5, -1), (1, 4), (0, 1), (2, 2), (-3, 0), (1, 2), (-2, -1), (0, 7), (-7, 9),
                               (0, max(0, n - 1))])
            if self.S == 1 and r.random() < 0.04 and "big" not in self.avoid:
                lb, ub = r.choice([(NONE, NONE), (-2000000000, NONE), (NONE, 100), (-1000000, 1000000)])
            return s.integer(self.shape(), lb, ub)
        if kind == "Binary": return s.binary(self.shape())
        if kind in ("List", "Set"):
            k = r.randint(0 if r.random() < .1 else 1, n + 2)
            c = r.random()
            if kind == "List" and c < .5: mn, mx = k, k
            elif c < .6: mn = mx = r.randint(0, k)
            else:
                mn = r.randint(0, k); mx = r.randint(mn, k)
                if r.random() < .5: mn = 0
                if r.random() < .5: mx = k
            return s.coll(kind, k, mn, mx)
        if kind == "Dyn":
            tail = r.choice([(), (), (2,), (3,), (2, 2), (1,)])
            integral = self.S == 1 or r.random() < .6
            lo, hi = r.choice([(-3, 3), (0, 5), (-4, -1), (1, 2), (0, 1)])
            mn = r.choice([NONE, 0, 0, 1, 2])
            if self.large: tail = r.choice([(), (), (2,)])
            cap = max(0 if mn == NONE else mn, r.choice([3, 4, 5]) + self.large)
            mx = r.choice([NONE, cap, cap])
            return s.dyn(tail, lo * self.S, hi * self.S, integral, mn, mx, cap)
        k = r.randint(1, 3) if not self.large or r.random() < .5 else r.randint(9, 12)
        m = r.randint(0 if r.random() < .1 else 1, n + 1)
        d, outs = s.disjoint(kind, m, k)
        return d

    def pick(self, pred=lambda m: True, recent=True):
        c = self.s.arrays(pred)
        if not c: return None
        if recent and len(c) > 2 and self.rng.random() < .5:
            return self.rng.choice(c[-3:])
        return self.rng.choice(c)

    # -- functional nodes --
    def op(self, kind=None):
        kinds = (["un"] * 10 + ["bin"] * 22 + ["nary"] * 6 + ["red"] * 12 + ["psum"] * 5 + ["where"] * 6 + ["size"] * 4 +
                 ["reshape"] * 4 + ["concat"] * 7 + ["perm"] * 4 + ["basic"] * 16 + ["adv"] * 18 + ["qm"] * 4 + ["const"] * 6)
        kind = kind or self.rng.choice(kinds)
        f = getattr(self, "g_" + kind)
        return f()

    def ok(self, lo, hi):
        return -BIG <= lo and hi <= BIG

    def g_const(self):
        sh = self.shape()
        return self.s.constant(sh, self.const_values(prod(sh)))

    def const_like(self, m):
        sh = tuple(m.shape)
        return self.s.constant(sh, self.const_values(prod(sh)))

    def g_un(self):
        r, S = self.rng, self.S
        i = self.pick()
        if i is None: return None
        m = self.s.meta[i]
        op = r.choice(UN)
        lo, hi, integ, fz, leaf, tol = m.lo, m.hi, m.integral, m.fuzzy, False, 0
        if op == "Absolute":
            lo, hi = (0 if m.lo <= 0 <= m.hi else min(abs(m.lo), abs(m.hi))), max(abs(m.lo), abs(m.hi))
        elif op in ("Logical", "Not"):
            if fz: return None
            lo, hi, integ = 0, S, True
        elif op == "Negative": lo, hi = -m.hi, -m.lo
        elif op == "Square":
            a = max(abs(m.lo), abs(m.hi))
            if a * a > BIG: return None
            if S > 1 and not m.integral: return None      # would leave the grid
            lo, hi = 0, a * a // S
        else:
            if m.lo < 0 or m.hi * S > BIG: 
                if m.hi * S > BIG or r.random() > .1: return None   # occasionally offer a refused one
                return None
            lo, hi, integ, fz, leaf, tol = 0, m.hi + S, False, True, True, 1
        if not self.ok(lo, hi): return None
        i2 = self.s.add(op, [i], Meta(m.shape, lo, hi, integ, fz, m.rmin, m.rmax, leaf=leaf, key=m.key))
        self.s.nodes[i2]["tol"] = tol
        return i2

    def pair(self):
        """operands of a binary operation"""
        s, r = self.s, self.rng
        a = self.pick()
        if a is None: return None
        ma = s.meta[a]
        c = r.random()
        if ma.dyn:
            b = self.pick(lambda m: m.size == 1 and len(m.shape) <= len(ma.shape))
            if b is None or r.random() < .3: b = self.s.constant(r.choice([(), (), (1,)]) , self.const_values(1))
        elif c < .12: b = a
        elif c < .55:
            b = self.pick(lambda m: m.shape == ma.shape)
        elif c < .7:
            b = self.const_like(ma)
        else:
            if ma.size == 1: b = self.pick()
            else: b = self.pick(lambda m: m.size == 1)
            if b is None or (s.meta[b].dyn and len(ma.shape) > len(s.meta[b].shape)): b = s.constant(r.choice([(), (1,)]), self.const_values(1))
        if b is None: b = self.const_like(ma)
        if r.random() < .4: a, b = b, a
        return a, b

    def g_bin(self):
        s, r, S = self.s, self.rng, self.S
        op = r.choice(BIN)
        ab = self.pair()
        if ab is None: return None
        a, b = ab
        if op == "Divide":
            ok = lambda m: m.integral and not m.fuzzy and ((m.lo > 0 and m.hi <= 2 * S) or (m.hi < 0 and m.lo >= -2 * S))
            if not ok(s.meta[b]) or r.random() < .5:
                # a denominator that keeps the quotient on the grid
                sh = r.choice([(), (), s.meta[a].shape]) if not s.meta[a].dyn else ()
                if r.random() < .5:
                    b = s.integer(sh, *r.choice([(1, 2), (-2, -1)]))
                else:
                    b = s.constant(sh, [r.choice([1, 2, -1, -2] if r.random() < .5 else [1, 2]) * S for _ in range(prod(sh))])
                    if s.meta[b].lo < 0 < s.meta[b].hi:
                        s.nodes[b]["v"] = [abs(x) for x in s.nodes[b]["v"]]
                        s.meta[b].lo, s.meta[b].hi = min(s.nodes[b]["v"]), max(s.nodes[b]["v"])
        ma, mb = s.meta[a], s.meta[b]
        if ma.dyn and mb.dyn: return None
        fz = ma.fuzzy or mb.fuzzy
        integ = ma.integral and mb.integral
        leaf, tol = False, 0
        if op in ("Equal", "LessEqual", "And", "Or", "Xor"):
            if fz: return None
            lo, hi, integ, fz = 0, S, True, False
        elif op == "Add": lo, hi = ma.lo + mb.lo, ma.hi + mb.hi
        elif op == "Subtract": lo, hi = ma.lo - mb.hi, ma.hi - mb.lo
        elif op == "Maximum": lo, hi = max(ma.lo, mb.lo), max(ma.hi, mb.hi)
        elif op == "Minimum": lo, hi = min(ma.lo, mb.lo), min(ma.hi, mb.hi)
        elif op == "Modulus":
            if fz: return None
            x = max(abs(mb.lo), abs(mb.hi)); lo, hi = -x, x
        elif op == "Multiply":
            c = [x * y for x in (ma.lo, ma.hi) for y in (mb.lo, mb.hi)]
            if max(map(abs, c)) > BIG: return None
            if S > 1 and not (ma.integral or mb.integral): return None
            lo, hi = min(c) // S, -(-max(c) // S)
        elif op == "Divide":
            if max(abs(ma.lo), abs(ma.hi)) * S > BIG: return None
            exact = S % 2 == 0 and ma.integral and not fz
            x = max(abs(ma.lo), abs(ma.hi)); lo, hi, integ = -x, x, False
            if not exact: leaf, tol, fz = True, 1, True
        if not self.ok(lo, hi): return None
        # shape
        if ma.dyn: sh, rm, rM, key = ma.shape, ma.rmin, ma.rmax, ma.key
        elif mb.dyn: sh, rm, rM, key = mb.shape, mb.rmin, mb.rmax, mb.key
        else:
            n = max(len(ma.shape), len(mb.shape))
            x = (1,) * (n - len(ma.shape)) + ma.shape
            y = (1,) * (n - len(mb.shape)) + mb.shape
            if ma.size != 1 and mb.size != 1 and ma.shape != mb.shape: return None
            if any(p != q and p != 1 and q != 1 for p, q in zip(x, y)): return None
            sh, rm, rM, key = tuple(q if p == 1 else p for p, q in zip(x, y)), None, None, None
        if (ma.dyn and (mb.size != 1 or len(mb.shape) > len(ma.shape))) or (mb.dyn and (ma.size != 1 or len(ma.shape) > len(mb.shape))):
            return None
        i = s.add(op, [a, b], Meta(sh, lo, hi, integ, fz, rm, rM, leaf=leaf, key=key))
        s.nodes[i]["tol"] = tol
        return i

    def g_nary(self):
        s, r, S = self.s, self.rng, self.S
        op = r.choice(NARY)
        a = self.pick(lambda m: not m.dyn)
        if a is None: return None
        m = s.meta[a]
        ps = [a]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            b = self.pick(lambda x: x.shape == m.shape)
            if b is None or r.random() < .25: b = self.const_like(m)
            ps.append(b)
        ms = [s.meta[p] for p in ps]
        integ = all(x.integral for x in ms)
        fz = any(x.fuzzy for x in ms)
        if op == "NaryAdd": lo, hi = sum(x.lo for x in ms), sum(x.hi for x in ms)
        elif op == "NaryMaximum": lo, hi = max(x.lo for x in ms), max(x.hi for x in ms)
        elif op == "NaryMinimum": lo, hi = min(x.lo for x in ms), min(x.hi for x in ms)
        else:
            if S > 1 and sum(not x.integral for x in ms) > 1: return None
            a = S
            for x in ms:
                a = max(a, S) * max(S, abs(x.lo), abs(x.hi))
                if a > BIG: return None
                a = a // S
            lo, hi, fz = -a, a, True
        if not self.ok(lo, hi) or (op == "NaryAdd" and not self.ok(-sum(max(abs(x.lo), abs(x.hi)) for x in ms), sum(max(abs(x.lo), abs(x.hi)) for x in ms))): return None
        return s.add(op, ps, Meta(m.shape, lo, hi, integ, fz))

    def g_red(self):
        s, r, S = self.s, self.rng, self.S
        op = r.choice(RED)
        a = self.pick(lambda m: m.dyn) if r.random() < .45 else self.pick(lambda m: m.shape != ())
        if a is None: a = self.pick()
        if a is None: return None
        m = s.meta[a]
        hi_, init = 0, 0
        if op in ("Max", "Min"):
            if m.dyn or m.size == 0 or r.random() < .4:
                hi_, init = 1, r.choice([m.lo, m.hi, 0, S, -S, 7 * S])
                if not m.integral and r.random() < .3: pass
        elif op in ("Sum", "Prod") and r.random() < .3:
            hi_, init = 1, r.choice([0, S, 2 * S, -S, -3 * S])
        elif op in ("All", "Any") and r.random() < .2:
            hi_, init = 1, r.choice([0, S])
        if op == "Any" and hi_ == 0 and False: pass
        fz, integ = m.fuzzy, m.integral
        mx = m.maxsize
        if op in ("All", "Any"):
            if fz: return None
            lo, hi, integ, fz = 0, S, True, False
        elif op in ("Max", "Min"):
            xs = [m.lo, m.hi] + ([init] if hi_ else [])
            lo, hi = min(xs), max(xs)
        elif op == "Sum":
            a_ = max(abs(m.lo), abs(m.hi)) * mx + abs(init)
            lo, hi = -a_, a_
            if m.lo >= 0 and init >= 0: lo = 0
        else:
            if S > 1 and not m.integral: return None
            x = max(S, abs(m.lo), abs(m.hi)); t = max(S, abs(init)) if hi_ else S
            for _ in range(mx):
                t = t * x
                if t > BIG: return None
                t //= S
            lo, hi, fz = -t, t, True
        if not self.ok(lo, hi): return None
        return s.add(op, [a], Meta((), lo, hi, integ and init % S == 0, fz), hi=hi_, init=init)

    def g_psum(self):
        s, r = self.s, self.rng
        a = self.pick(lambda m: not m.dyn and len(m.shape) >= 1 and m.size > 0)
        if a is None: return None
        m = s.meta[a]
        ax = r.randrange(len(m.shape))
        k = m.shape[ax]
        x = max(abs(m.lo), abs(m.hi)) * k
        if not self.ok(-x, x): return None
        return s.add("PartialSum", [a], Meta(m.shape[:ax] + m.shape[ax + 1:], -x if m.lo < 0 else 0, x, m.integral, m.fuzzy), ax=ax)

    def g_where(self):
        s, r, S = self.s, self.rng, self.S
        x = self.pick()
        if x is None: return None
        m = s.meta[x]
        if m.dyn:
            y = self.pick(lambda q: q.shape == m.shape)
        else:
            y = self.pick(lambda q: q.shape == m.shape) if r.random() < .7 else self.const_like(m)
        if y is None: return None
        if m.dyn or r.random() < .35:
            c = self.pick(lambda q: q.size == 1 and not q.fuzzy)
            if c is None: c = s.binary(())
        else:
            c = self.pick(lambda q: q.shape == m.shape and not q.fuzzy)
            if c is None or r.random() < .2: c = s.binary(m.shape)
        my = s.meta[y]
        return s.add("Where", [c, x, y], Meta(m.shape, min(m.lo, my.lo), max(m.hi, my.hi), m.integral and my.integral,
                                              m.fuzzy or my.fuzzy, None if not m.dyn else min(m.rmin, my.rmin),
                                              None if not m.dyn else max(m.rmax, my.rmax), key=None))

    def g_size(self):
        s = self.s
        a = self.pick(lambda m: m.dyn) or self.pick()
        if a is None: return None
        m = s.meta[a]
        if m.maxsize * self.S > BIG: return None
        return s.add("Size", [a], Meta((), m.minsize * self.S, m.maxsize * self.S, True))

    def g_reshape(self):
        s, r = self.s, self.rng
        a = self.pick(lambda m: not m.dyn and m.cont)
        if a is None: return None
        m = s.meta[a]
        n = m.size
        c = [(n,), (1, n), (n, 1), (-1,), (-1, 1), (1, -1)]
        for d in range(2, n):
            if n % d == 0: c += [(d, n // d), (d, -1), (-1, d), (d, 1, n // d)]
        if n == 1: c += [()] * 3
        sh = r.choice(c)
        if n == 0 and -1 in sh: sh = (0,)
        full = tuple(n // prod(d for d in sh if d >= 0) if d < 0 else d for d in sh)
        return s.add("Reshape", [a], Meta(full, m.lo, m.hi, m.integral, m.fuzzy), sh=list(sh))

    def g_concat(self):
        s, r = self.s, self.rng
        a = self.pick(lambda m: not m.dyn and len(m.shape) >= 1)
        if a is None: return None
        m = s.meta[a]
        ax = r.randrange(len(m.shape))
        ps = [a]
        fits = lambda q: not q.dyn and len(q.shape) == len(m.shape) and all(x == y or k == ax for k, (x, y) in enumerate(zip(q.shape, m.shape)))
        for _ in range(r.choice([0, 1, 1, 2])):
            b = self.pick(fits)
            if r.random() < .25:
                sh = tuple(r.randint(1, 3) if k == ax else d for k, d in enumerate(m.shape))
                b = s.constant(sh, self.const_values(prod(sh)))
            ps.append(b)
        r.shuffle(ps)
        ms = [s.meta[p] for p in ps]
        tot = sum(x.shape[ax] for x in ms)
        sh = tuple(tot if k == ax else d for k, d in enumerate(m.shape))
        if prod(sh) > self.cap: return None
        return s.add("Concatenate", ps, Meta(sh, min(x.lo for x in ms), max(x.hi for x in ms), all(x.integral for x in ms),
                                             any(x.fuzzy for x in ms)), ax=ax)

    def g_perm(self):
        s, r = self.s, self.rng
        o = self.pick(lambda m: not m.dyn and len(m.shape) == 1 and m.integral and not m.fuzzy and m.lo >= 0 and 0 < m.shape[0]
                      and m.hi < m.shape[0] * self.S)
        if o is None:
            k = r.randint(1, min(self.n, 10))
            o = s.coll("List", k, k, k)
        n = s.meta[o].shape[0]
        if n > 10: return None
        sh = (n,) if False else ((n, n) if r.random() < .8 else (n, n, 2))
        if "perm3" in self.avoid: sh = (n, n)
        c = s.constant(sh, self.const_values(prod(sh)))
        return s.add("Permutation", [c, o], Meta(sh, s.meta[c].lo, s.meta[c].hi, s.meta[c].integral))

    def rslice(self, d, dyn):
        """a random slice for an axis of extent d"""
        r = self.rng
        f = lambda: r.choice([NONE, NONE, 0, 1, r.randint(-d - 2, d + 2), r.randint(-d, d), -1, r.randint(0, d)])
        step = r.choice([NONE, NONE, NONE, 1, 2, 2, 3]) if "step" not in self.avoid else NONE
        a, b = f(), f()
        return [1, a, b, step]

    def slice_idx(self, sl, n):
        a, b, c = [None if x == NONE else x for x in sl[1:]]
        return range(*slice(a, b, c).indices(n))

    def g_basic(self):
        s, r = self.s, self.rng
        a = self.pick(lambda m: m.dyn and m.cont) if r.random() < .4 else None
        if a is None: a = self.pick(lambda m: m.cont and len(m.shape) >= 1)
        if a is None: return None
        m = s.meta[a]
        idx, sh = [], []
        rmin = rmax = None
        for k, d in enumerate(m.shape):
            if d < 0:
                sl = self.rslice(m.rmax, True)
                idx.append(sl); sh.append(-1)
                lens = [len(self.slice_idx(sl, x)) for x in range(m.rmin, m.rmax + 1)]
                rmin, rmax = min(lens), max(lens)
            elif r.random() < .3 and d > 0:
                idx.append([0, r.randint(-d, d - 1), 0, 0])
            else:
                sl = self.rslice(d, False) if r.random() < .75 else [1, NONE, NONE, NONE]
                idx.append(sl); sh.append(len(self.slice_idx(sl, d)))
        if not m.dyn and prod(sh) == 0 and r.random() < .8: return None
        # contiguity: conservatively decide as the library does for C-contiguous parents
        cont = True
        full_tail = prod(d for d in m.shape if d >= 0) if m.dyn else None
        strides = []
        acc = 1
        for d in reversed(m.shape):
            strides.insert(0, acc); acc *= max(d, 1) if d >= 0 else 1
        st = [strides[k] * (1 if x[3] == NONE else x[3]) for k, x in enumerate(idx) if x[0] == 1]
        acc = 1
        for d, x in zip(reversed(sh), reversed(st)):
            if d == 1: continue
            if x != acc: cont = False
            acc *= d
        if m.dyn and not cont and "dynstrided" in self.avoid: return None
        if not cont and "strided" in self.avoid: return None
        return s.add("BasicIndexing", [a], Meta(sh, m.lo, m.hi, m.integral, m.fuzzy, rmin, rmax, cont=cont), idx=idx)

    def index_arrays(self):
        """one or two integral index nodes of equal shape with small non-negative range"""
        s, r, S = self.s, self.rng, self.S
        good = lambda m: m.integral and not m.fuzzy and m.lo >= 0 and m.hi <= (6 + self.large) * S and len(m.shape) <= 1
        a = self.pick(good)
        if a is None or r.random() < .15:
            c = r.random()
            if c < .3: a = s.coll("List", self.n, self.n, self.n)
            elif c < .5: a = s.coll("Set", self.n, 0, self.n)
            elif c < .75: a = s.integer(r.choice([(), (self.n,), (2,)]), 0, r.randint(0, 3))
            elif c < .9:
                k = self.n
                a = s.constant((k,), [r.randint(0, 3) * S for _ in range(k)])
            else: a = s.constant((), [r.randint(0, 3) * S])
        m = s.meta[a]
        arrs = [a]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            if m.dyn: b = self.pick(lambda q: good(q) and q.dyn and q.key == m.key and q.key is not None)
            else: b = self.pick(lambda q: good(q) and q.shape == m.shape)
            if b is None: b = a
            arrs.append(b)
        return arrs

    def g_adv(self):
        s, r, S = self.s, self.rng, self.S
        arrs = self.index_arrays()
        ms = [s.meta[a] for a in arrs]
        # try an existing base
        if r.random() < .5:
            cand = []
            for i in s.arrays(lambda q: len(q.shape) >= len(arrs) and len(q.shape) <= 4):
                q = s.meta[i]
                if "advdynbase" in self.avoid and q.dyn: continue
                if not q.cont and "advstrided" in self.avoid: continue
                axes = [k for k, d in enumerate(q.shape)]
                # choose axes for the arrays
                import itertools
                for comb in itertools.combinations(axes, len(arrs)):
                    if all((q.rmin if q.shape[k] < 0 else q.shape[k]) * S > mm.hi for k, mm in zip(comb, ms)):
                        cand.append((i, comb))
            if cand:
                i, comb = r.choice(cand)
                return self.make_adv(i, comb, arrs)
        # build a base to fit
        extra = r.choice([0, 0, 0, 1, 1, 2, 2, 3])
        nd = min(4, len(arrs) + extra)
        comb = tuple(sorted(r.sample(range(nd), len(arrs))))
        if ms[0].dyn and r.random() < .6: comb = tuple(range(len(arrs)))      # the only place where it is supported, or apart
        sh = [r.choice([1, 2, 2, 3]) for _ in range(nd)]
        for k, mm in zip(comb, ms): sh[k] = mm.hi // S + 1 + r.choice([0, 0, 1])
        if prod(sh) > 40 + self.cap: return None
        c = r.random()
        if c < .5: base = s.constant(tuple(sh), self.const_values(prod(sh)))
        elif c < .75: base = s.integer(tuple(sh), *r.choice([(0, 3), (-2, 2), (-4, 5)]))
        else: base = s.binary(tuple(sh))
        return self.make_adv(base, comb, arrs)

    def make_adv(self, base, comb, arrs):
        s = self.s
        q = s.meta[base]
        ms = [s.meta[a] for a in arrs]
        idx = [[2, 0, 0, 0] if k in comb else [1, NONE, NONE, NONE] for k in range(len(q.shape))]
        ish = ms[0].shape
        adj = list(comb) == list(range(comb[0], comb[-1] + 1))
        sl = [k for k in range(len(q.shape)) if k not in comb]
        if adj: sh = [q.shape[k] for k in sl if k < comb[0]] + list(ish) + [q.shape[k] for k in sl if k > comb[-1]]
        else: sh = list(ish) + [q.shape[k] for k in sl]
        if any(d < 0 for d in sh[1:]): return None         # unsupported: dynamic beyond the first axis
        if any(d < 0 for d in ish) and (q.dyn and 0 not in comb): return None
        if ms[0].dyn and adj and comb[0] != 0: return None
        if ish and any(d < 0 for d in ish) and sh[0] >= 0: return None
        if "adv_bullet1" in self.avoid and not adj: return None
        key = ms[0].key if (sh and sh[0] < 0 and len(sh) == 1 and ms[0].dyn) else None
        rmin = rmax = None
        if sh and sh[0] < 0:
            if ms[0].dyn: rmin, rmax = ms[0].rmin, ms[0].rmax
            else: rmin, rmax = q.rmin, q.rmax
        if prod(abs(d) for d in sh) * (rmax or 1) > self.cap: return None
        return s.add("AdvancedIndexing", [base] + list(arrs), Meta(sh, q.lo, q.hi, q.integral, q.fuzzy, rmin, rmax, key=key), idx=idx)

    def g_qm(self, calls=None):
        s, r, S = self.s, self.rng, self.S
        a = self.pick(lambda m: not m.dyn and len(m.shape) == 1 and 0 < m.shape[0] <= 5 and max(abs(m.lo), abs(m.hi)) <= 10 * S and m.integral and m.cont)
        if a is None:
            k = min(self.n, 12)
            a = s.integer((k,), *r.choice([(0, 3), (-2, 2)])) if r.random() < .5 else s.binary((k,))
        m = s.meta[a]
        n = m.shape[0]
        lin = [0] * n
        quad = {}
        calls = []
        for _ in range(r.randint(0, 8)):
            c = r.randrange(4)
            u, v = r.randrange(n), r.randrange(n)
            b = r.randint(-3, 3) * S
            if c == 0: lin[u] = b
            elif c == 1: lin[u] += b
            else:
                k = (min(u, v), max(u, v))
                quad[k] = b if c == 2 else quad.get(k, 0) + b
            calls.append([c, u, v, b])
        q = [[u, v, b] for (u, v), b in sorted(quad.items())]
        x = max(abs(m.lo), abs(m.hi))
        bd = sum(abs(l) * x // S for l in lin) + sum(abs(t[2]) * x // S * x // S for t in q)
        if bd * S > BIG or any(abs(t[2]) * x > BIG or abs(t[2]) * x // S * x > BIG for t in q): return None
        return s.add("QuadraticModel", [a], Meta((), -bd, bd, False, False), lin=lin, quad=q, calls=calls)


# ---------------------------------------------------------------------------------------------
class Tracker:
    """sizes / contents of the decisions of one slot, as far as calls need them"""

    def __init__(self, s, slot):
        self.s, self.slot = s, slot
        self.cur = {}
        self.com = {}
        self.moved = set()
        self.phase = "none"


class History:
    """adds a random history of calls to a scenario"""

    def __init__(self, s, moves=True):
        self.s, self.rng, self.S = s, s.rng, s.S
        self.tr = {}
        self.large = getattr(s, "large", 0)
        self.decs = [i for i, nd in enumerate(s.nodes) if nd["op"] in DECOPS]

    def default(self, d):
        nd = self.s.nodes[d]
        op, S = nd["op"], self.S
        if op in ("Integer", "Binary"):
            lb, ub = (0 if nd["lb"] == NONE else nd["lb"]), (2000000000 if nd["ub"] == NONE else nd["ub"])
            return [0 if lb <= 0 <= ub else lb * S] * prod(nd["sh"])
        if op == "List": return [i * S for i in range(nd["mx"])]
        if op == "Set": return [i * S for i in range(nd["mn"])]
        if op == "Dyn": return []
        if op == "DisjointLists": return [[i * S for i in range(nd["n"])]] + [[] for _ in range(nd["k"] - 1)]
        return [[S] * nd["n"]] + [[0] * nd["n"] for _ in range(nd["k"] - 1)]

    def bounds(self, nd):
        return (0 if nd["lb"] == NONE else nd["lb"]), (2000000000 if nd["ub"] == NONE else nd["ub"])

    def intval(self, nd):
        r = self.rng
        lb, ub = self.bounds(nd)
        return r.choice([lb, ub, r.randint(lb, ub), r.randint(lb, ub), min(max(0, lb), ub), min(max(1, lb), ub)])

    def dynrow(self, nd):
        r = self.rng
        k = prod(nd["sh"][1:])
        S = self.S
        if nd["int"]: return [r.randint(nd["lo"] // S, nd["hi"] // S) * S for _ in range(k)]
        return [r.randint(nd["lo"], nd["hi"]) for _ in range(k)]

    def explicit(self, d):
        nd, r, S = self.s.nodes[d], self.rng, self.S
        op = nd["op"]
        if op in ("Integer", "Binary"): return [self.intval(nd) * S for _ in range(prod(nd["sh"]))]
        if op in ("List", "Set"):
            k = r.choice([nd["mn"], nd["mx"], r.randint(nd["mn"], nd["mx"])])
            return [x * S for x in r.sample(range(nd["n"]), k)]
        if op == "Dyn":
            mn = 0 if nd["mnsz"] == NONE else nd["mnsz"] // max(1, prod(nd["sh"][1:]))
            k = r.randint(mn, nd["cap"])
            return [x for _ in range(k) for x in self.dynrow(nd)]
        n, k = nd["n"], nd["k"]
        where = [r.randrange(k) for _ in range(n)]
        if op == "DisjointBitSets": return [[S if where[i] == j else 0 for i in range(n)] for j in range(k)]
        out = [[] for _ in range(k)]
        order = list(range(n)); r.shuffle(order)
        for i in order: out[where[i]].append(i * S)
        return out

    def init(self, slot, explicit=.7):
        r = self.rng
        t = Tracker(self.s, slot)
        dec = []
        for d in self.decs:
            op = self.s.nodes[d]["op"]
            need = op == "Dyn" and self.s.nodes[d]["mnsz"] not in (NONE, 0)
            if r.random() < explicit or need:
                v = self.explicit(d)
                mode = 2 if op.startswith("Disjoint") else 1
                dec.append({"d": d, "mode": mode, "v": v})
                t.cur[d] = v
            else:
                v = self.default(d)
                if r.random() < .5: dec.append({"d": d, "mode": 0, "v": []})
                t.cur[d] = v
        r.shuffle(dec)
        t.cur = {d: self.clone(v) for d, v in t.cur.items()}
        t.com = {d: self.clone(v) for d, v in t.cur.items()}
        t.phase = "clean"
        self.tr[slot] = t
        # JSON cannot type an empty nested list; v is [] for defaults
        self.s.steps.append({"e": "init", "s": slot, "dec": dec})

    @staticmethod
    def clone(v):
        return [list(x) if isinstance(x, list) else x for x in v]

    def mv(self, slot, d, k, a, v=()):
        self.s.steps.append({"e": "mv", "s": slot, "m": {"d": d, "k": k, "a": list(a), "v": list(v)}})
        t = self.tr[slot]
        t.moved.add(d)
        t.phase = "moved"

    def move(self, slot, d=None):
        """one random legal call on a decision; returns False if nothing was possible"""
        s, r, S = self.s, self.rng, self.S
        t = self.tr[slot]
        if not self.decs: return False
        d = r.choice(self.decs) if d is None else d
        nd = s.nodes[d]
        op = nd["op"]
        c = t.cur[d]
        if op in ("Integer", "Binary"):
            if not c: return False
            i, j = r.randrange(len(c)), r.randrange(len(c))
            k = r.choice(["set_value"] * 4 + ["exchange"] + (["flip", "flip", "set", "unset"] if op == "Binary" else []))
            if k == "exchange": c[i], c[j] = c[j], c[i]; self.mv(slot, d, k, [i, j])
            elif k == "set_value":
                v = self.intval(nd)
                if r.random() < .15: v = t.com[d][i] // S          # back to where it was
                c[i] = v * S; self.mv(slot, d, k, [i, v])
            elif k == "flip": c[i] = S - c[i]; self.mv(slot, d, k, [i])
            else: c[i] = S if k == "set" else 0; self.mv(slot, d, k, [i])
            return True
        if op in ("List", "Set"):
            dyn = nd["mn"] != nd["mx"]
            ks = []
            if dyn and len(c) < nd["mx"]: ks += ["grow"] * 3
            if dyn and len(c) > nd["mn"]: ks += ["shrink"] * 3
            if len(c) >= 1: ks += ["exchange", "exchange", "rotate"]
            if not ks: return False
            k = r.choice(ks)
            if k == "grow": c.append(None); self.mv(slot, d, k, [])
            elif k == "shrink": c.pop(); self.mv(slot, d, k, [])
            elif k == "rotate": self.mv(slot, d, k, [r.randrange(len(c)), r.randrange(len(c))])
            else:
                n = len(c)
                lim = nd["mx"] if nd["mx"] > n and r.random() < .5 else n
                self.mv(slot, d, k, [r.randrange(lim), r.randrange(lim)])
            return True
        if op == "Dyn":
            row = prod(nd["sh"][1:])
            rows = len(c) // row
            mn = 0 if nd["mnsz"] == NONE else nd["mnsz"] // row
            ks = []
            if rows < nd["cap"]: ks += ["dgrow"] * 3
            if rows > mn: ks += ["dshrink"] * 3
            if rows: ks += ["dset"] * 3
            if not ks: return False
            k = r.choice(ks)
            if k == "dgrow":
                v = self.dynrow(nd); c.extend(v); self.mv(slot, d, k, [], v)
            elif k == "dshrink":
                del c[-row:]; self.mv(slot, d, k, [])
            else:
                i = r.randrange(len(c)); v = self.dynrow(nd)[0]
                if r.random() < .15 and i < len(t.com[d]): v = t.com[d][i]
                c[i] = v; self.mv(slot, d, k, [i], [v])
            return True
        if op == "DisjointBitSets":
            if nd["n"] == 0: return False
            e = r.randrange(nd["n"])
            a, b = r.randrange(nd["k"]), r.randrange(nd["k"])
            if r.random() < .7: a = next(j for j in range(nd["k"]) if c[j][e])
            c[a][e], c[b][e] = c[b][e], c[a][e]
            self.mv(slot, d, "swap_between", [a, b, e])
            return True
        # DisjointLists
        ne = [j for j in range(nd["k"]) if c[j]]
        if not ne: return False
        k = r.choice(["pop_to"] * 5 + ["swap_in", "rotate_in", "set_state"])
        a = r.choice(ne)
        if k == "swap_in":
            i, j = r.randrange(len(c[a])), r.randrange(len(c[a]))
            c[a][i], c[a][j] = c[a][j], c[a][i]; self.mv(slot, d, k, [a, i, j])
        elif k == "rotate_in":
            i, j = r.randrange(len(c[a])), r.randrange(len(c[a]))
            x = c[a].pop(j); c[a].insert(i, x); self.mv(slot, d, k, [a, i, j])
        elif k == "pop_to":
            b = r.randrange(nd["k"])
            i = r.choice([0, len(c[a]) - 1, r.randrange(len(c[a]))])
            x = c[a].pop(i)
            j = r.choice([0, len(c[b]), r.randint(0, len(c[b]))])
            c[b].insert(j, x)
            self.mv(slot, d, k, [a, i, b, j])
        else:
            v = self.explicit(d)
            if r.random() < .4:                       # only shuffle one list
                v = self.clone(c); r.shuffle(v[a])
            order = list(range(nd["k"])); r.shuffle(order)
            for q in order:
                if v[q] == c[q] and r.random() < .5: continue
                self.mv(slot, d, "set_state", [q], v[q])
            t.cur[d] = v
        return True

    def burst(self, slot):
        """a few moves, with a bias to sequences that cancel out or hit extremes"""
        r = self.rng
        t = self.tr[slot]
        if not self.decs: return
        style = r.random()
        if style < .12:
            return                                     # nothing changed
        d = r.choice(self.decs)
        k = r.choice([1, 2, 6, 20, 40] if self.large else [1, 1, 1, 2, 2, 3, 4, 6])
        if style < .35:                                # drain / fill one dynamic decision
            nd = self.s.nodes[d]
            for _ in range(r.randint(1, 6 + self.large)):
                self.dynstep(slot, d, r.random() < .5 if style < .2 else style < .28)
            return
        for _ in range(k):
            self.move(slot, d if style < .6 else None)

    def dynstep(self, slot, d, up):
        nd, t, r = self.s.nodes[d], self.tr[slot], self.rng
        c = t.cur[d]
        op = nd["op"]
        if op in ("List", "Set") and nd["mn"] != nd["mx"]:
            if up and len(c) < nd["mx"]: c.append(None); self.mv(slot, d, "grow", [])
            elif not up and len(c) > nd["mn"]: c.pop(); self.mv(slot, d, "shrink", [])
        elif op == "Dyn":
            row = prod(nd["sh"][1:])
            mn = 0 if nd["mnsz"] == NONE else nd["mnsz"]
            if up and len(c) // row < nd["cap"]:
                v = self.dynrow(nd); c.extend(v); self.mv(slot, d, "dgrow", [], v)
            elif not up and len(c) > mn: del c[-row:]; self.mv(slot, d, "dshrink", [])
        else:
            self.move(slot, d)

    def sources(self, slot):
        t, r = self.tr[slot], self.rng
        src = sorted(t.moved)
        c = r.random()
        if c < .2: src = list(self.decs)
        elif c < .35:
            extra = [d for d in self.decs if d not in src]
            if extra: src.append(r.choice(extra))
        if self.s.nodes and r.random() < .15:          # listed twice, or a descendant of another source
            for _ in range(r.randint(1, 2)): src.append(r.choice([r.randrange(len(self.s.nodes))] + src))
        r.shuffle(src)
        return src

    def finish(self, slot, how=None):
        """propagate and commit / revert / propose"""
        r = self.rng
        t = self.tr[slot]
        src = self.sources(slot)
        if how is None: how = r.choice(["com", "rev", "com", "rev", "acc", "rej", "def"])
        if how in ("com", "rev"):
            self.s.steps.append({"e": "prop", "s": slot, "src": src})
            self.s.steps.append({"e": how, "s": slot})
        else:
            self.s.steps.append({"e": "propose", "s": slot, "acc": {"acc": 1, "rej": 0, "def": 2}[how], "src": src})
        self.settle(slot, how)

    def settle(self, slot, how):
        t = self.tr[slot]
        if how in ("com", "acc", "def"): t.com = {d: self.clone(v) for d, v in t.cur.items()}
        else: t.cur = {d: self.clone(v) for d, v in t.com.items()}
        t.moved = set()
        t.phase = "clean"

    def standard(self, cycles):
        self.init(0)
        for _ in range(cycles):
            self.burst(0)
            self.finish(0)


def engine_scenario(seed, sid, flags, avoid=(), nodes=None, cycles=None, ops=None, large=0):
    rng = random.Random(seed)
    S = rng.choice([1, 1, 1, 4, 8])
    s = Scn(rng, sid, S, flags)
    s.large = large
    g = GraphGen(s, avoid, large)
    for _ in range(rng.choice([1, 1, 2, 2] if large else [1, 1, 2, 2, 3, 4])):
        g.decision()
    want = nodes or rng.choice([3, 5, 8, 8, 12, 16])
    made = 0
    for _ in range(want * 6):
        if made >= want or len(s.nodes) > 40: break
        if g.op(rng.choice(ops) if ops else None) is not None: made += 1
    h = History(s)
    h.standard(cycles or rng.choice([4, 6, 8, 12]))
    return s

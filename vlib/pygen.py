"""Random scenarios for the Python package (see spec/PyModel.tla for what they mean)."""
import random

import itertools

from .gen import BIG, DECOPS, NONE, GraphGen, History, Meta, Scn, prod

FORMS = {"Absolute": ["cls", "op"], "Negative": ["cls", "op", "op"], "Square": ["cls", "op", "op"], "Logical": ["cls", "fn"], "Not": ["cls", "fn"],
         "SquareRoot": ["cls", "fn"], "Add": ["cls", "op", "op", "fn"], "Multiply": ["cls", "op", "op", "fn"], "Subtract": ["cls", "op", "op"],
         "Divide": ["cls", "op", "fn"], "Modulus": ["cls", "op", "fn"], "Equal": ["cls", "op"], "LessEqual": ["cls", "op", "ge"], "And": ["cls", "fn"],
         "Or": ["cls", "fn"], "Xor": ["cls", "fn"], "Maximum": ["cls", "fn"], "Minimum": ["cls", "fn"], "Sum": ["cls", "op"], "Prod": ["cls", "op"],
         "Max": ["cls", "op"], "Min": ["cls", "op"], "All": ["cls", "op"], "Any": ["cls", "op"], "PartialSum": ["cls", "op"], "Size": ["cls", "op"],
         "Where": ["cls", "fn"], "Concatenate": ["cls", "fn", "fnlist"], "Reshape": ["cls", "op", "star"], "Permutation": ["cls"],
         "BasicIndexing": ["cls", "op", "op"], "AdvancedIndexing": ["cls", "op", "op"], "Constant": ["", "int", "list", "strided", "T", "ro", "narrow"],
         "Integer": ["", "int", "none"], "Binary": ["", "int", "none"]}
SINGLE = {"struct"}          # forms that create several nodes are left out


class PyScn(Scn):
    def __init__(self, rng, sid, S=1, flags="", single=False):
        super().__init__(rng, sid, S, flags)
        self.single = single
        self.locked = 0
        self.nslots = 0
        self.hold = lambda: 1
        self.live = True              # nodes are created as they are generated

    def json(self):
        return {"id": self.id, "S": self.S, "flags": self.flags, "steps": self.steps}

    def add(self, op, p, meta, **kw):
        nd = {"op": op, "p": list(p), "tol": 0}
        nd.update(kw)
        if op in ("All", "Any", "Max", "Min", "Prod", "Sum"): nd.update(hi=0, init=0)
        if op == "Permutation": nd["const"] = int(self.nodes[p[0]]["op"] == "Constant")
        if "f" not in nd: nd["f"] = self.form(nd)
        i = len(self.nodes)
        self.nodes.append(nd)
        self.meta.append(meta)
        self.steps.append({"e": "new", "i": i, "nd": nd, "hold": self.hold()})
        return i

    def form(self, nd):
        r, op, p = self.rng, nd["op"], nd["p"]
        fs = list(FORMS.get(op, ["cls"]))
        if op.startswith("Nary"):
            fs = ["cls"]
            if len(p) >= 3: fs.append("fn")
            base = {"NaryAdd": "iadd", "NaryMultiply": "imul"}.get(op)
            if base and len(p) >= 2 and self.nodes[p[0]]["op"] != op and len(set(p)) == len(p): fs += [base]
            if op == "NaryMultiply" and len(p) >= 3 and len(set(p)) == 1: fs += ["pow"] * 3
        if op == "Permutation" and not self.single and self.nodes[p[0]]["op"] == "Constant" and self.nodes[p[1]]["op"] == "List" and len(self.meta[p[0]].shape) == 2:
            fs += ["getitem"] * 2
        if op == "BasicIndexing" or op == "AdvancedIndexing":
            nd["npint"] = int(r.random() < .2)
            nd["bare"] = int(r.random() < .5)
        if op == "Concatenate":
            if len(p) == 1: fs = ["cls"]
            nd["kw"] = int(r.random() < .5)
        if op == "Constant" and len(nd["sh"]) > 1 and not nd["v"]: fs.remove("list")      # a nested list cannot say (0, 2)
        if op == "Size" and not self.meta[p[0]].dyn: fs = ["cls"]
        if op == "Reshape" and "star" in fs and len(nd["sh"]) < 2: fs.remove("star")
        return r.choice(fs)

    # ---- decisions as Python offers them ----
    def coll(self, kind, n, mn, mx):
        if kind == "List": mn = mx = n
        i = super().coll(kind, n, mn, mx)
        if kind == "Set" and (mn, mx) == (0, n) and self.rng.random() < .5: self.nodes[i]["f"] = "default"
        return i

    def disjoint(self, kind, n, k):
        meth = self.rng.random() < .5 and not self.single and k > 0
        d = self.add(kind, [], Meta((), 0, 0, True), n=n, k=k, f="method" if meth else "cls")
        outs = []
        for j in range(k):
            kw = {"n": n, "j": j, "f": "bound" if meth else "cls"}
            if kind == "DisjointBitSets":
                outs.append(self.add("DisjointBitSet", [d], Meta((n,), 0, self.S, True), **kw))
            else:
                outs.append(self.add("DisjointList", [d], Meta((-1,), 0, max(0, n - 1) * self.S, True, rmin=0, rmax=n, key=("s", len(self.nodes))), **kw))
        return d, outs

    # ---- the calls ----
    def do(self, e, **kw):
        kw["e"] = e
        self.steps.append(kw)
        return kw

    def lock(self):
        self.do("lock", cm=int(self.rng.random() < .5))
        self.locked += 1

    def unlock(self):
        self.do("unlock", th=int(self.rng.random() < .3))
        self.locked = max(0, self.locked - 1)

    def resize(self, n):
        self.do("resize", n=n)
        if n >= 0: self.nslots = n

    def set(self, d, s, v):
        nd = self.nodes[d]
        r = self.rng
        f = r.choice(["", "", "np", "float", "ro", "frac", "narrow"])
        if nd["op"] in ("Integer", "Binary") and len(v) == prod(nd["sh"]) and r.random() < .3: f = "shaped"
        self.do("set", d=d, s=s, v=v, op=nd["op"], f=f, sh=nd.get("sh", []))

    def readall(self, s):
        self.do("readall", s=s, nn=len(self.nodes))


class PyGen(GraphGen):
    def __init__(self, s, avoid=(), large=0):
        super().__init__(s, set(avoid) | {"dyn"} | ({"big"} if large else set()), large)

    def decision(self, kind=None):
        r = self.rng
        kind = kind or r.choice(["Integer"] * 5 + ["Binary"] * 3 + ["List"] * 3 + ["Set"] * 3 + ["DisjointLists"] * 2 + ["DisjointBitSets"])
        return super().decision(kind)

    def g_red(self):
        s, r, S = self.s, self.rng, self.S
        op = r.choice(["All", "Any", "Max", "Min", "Prod", "Sum"])
        a = self.pick(lambda m: m.dyn) if r.random() < .35 else self.pick(lambda m: m.shape != ())
        if a is None: a = self.pick()
        if a is None: return None
        m = s.meta[a]
        if op in ("Max", "Min") and (m.dyn or m.size == 0): return None
        fz, integ, mx = m.fuzzy, m.integral, m.maxsize
        if op in ("All", "Any"):
            if fz: return None
            lo, hi, integ, fz = 0, S, True, False
        elif op in ("Max", "Min"): lo, hi = m.lo, m.hi
        elif op == "Sum":
            t = max(abs(m.lo), abs(m.hi)) * mx
            lo, hi = 0 if m.lo >= 0 else -t, t
        else:
            if S > 1 and not m.integral: return None
            x, t = max(S, abs(m.lo), abs(m.hi)), S
            for _ in range(mx):
                t *= x
                if t > BIG: return None
                t //= S
            lo, hi, fz = -t, t, True
        if not self.ok(lo, hi): return None
        return s.add(op, [a], Meta((), lo, hi, integ, fz))

    def g_nary(self):
        s, r, S = self.s, self.rng, self.S
        if r.random() < .25:                            # a power
            a = self.pick(lambda m: not m.dyn and m.integral)
            if a is None: return None
            m = s.meta[a]
            k = r.choice([3, 3, 4, 5])
            x = max(S, abs(m.lo), abs(m.hi)) // S + 1
            if x ** k * S > BIG: return None
            return s.add("NaryMultiply", [a] * k, Meta(m.shape, -x ** k * S, x ** k * S, True, True))
        return super().g_nary()

    def g_same(self):
        s = self.s
        a = self.pick()
        if a is None: return None
        m = s.meta[a]
        f = self.rng.choice(["pow", "cat", "cat1"])
        return s.add("Same", [a], m, f=f)

    def g_reshape(self):
        s, r = self.s, self.rng
        a = self.pick(lambda m: not m.dyn and m.cont)
        if a is None: return None
        m = s.meta[a]
        n = m.size
        c = [(n,), (1, n), (n, 1)]
        for d in range(2, n):
            if n % d == 0: c += [(d, n // d), (d, 1, n // d)]
        if n == 1: c += [()] * 3
        sh = r.choice(c)
        return s.add("Reshape", [a], Meta(sh, m.lo, m.hi, m.integral, m.fuzzy), sh=list(sh))

    def g_perm(self):
        s, r = self.s, self.rng
        o = self.pick(lambda m: len(m.shape) == 1 and m.shape[0] > 0 and s.nodes[s.meta.index(m)]["op"] == "List")
        if o is None:
            k = r.randint(1, min(10, self.n))
            o = s.coll("List", k, k, k)
        n = s.meta[o].shape[0]
        if n > 10: return None
        c = s.constant((n, n), self.const_values(n * n))
        return s.add("Permutation", [c, o], Meta((n, n), s.meta[c].lo, s.meta[c].hi, s.meta[c].integral))

    def g_item(self):
        """x[...] with any mix of integers, slices and index arrays"""
        s, r, S = self.s, self.rng, self.S
        a = self.pick(lambda m: len(m.shape) >= 1 and m.cont)
        if a is None or r.random() < .5:
            sh = r.choice([(3, 4), (2, 3, 2), (4, 2), (3, 3, 3), (5,), (2, 2, 2, 3), (4, 3, 2)])
            vals = [r.randint(-9, 30) * S for _ in range(prod(sh))]
            a = s.constant(sh, vals) if r.random() < .6 else s.integer(sh, -2, 7)
        m = s.meta[a]
        nd = len(m.shape)
        good = lambda q: q.integral and not q.fuzzy and q.lo >= 0 and q.hi <= 6 * S and len(q.shape) <= 1
        idx, ps = [], []
        first = None
        for k in range(nd):
            d = m.shape[k]
            if len(idx) == k and r.random() < .15: break        # the rest is left out
            c = r.random()
            if c < .4:
                lim = m.rmin if d < 0 else d
                fits = lambda q: good(q) and q.hi < lim * S and (first is None or q.shape == first.shape and (not q.dyn or q.key == first.key))
                i = self.pick(fits)
                if (i is None or r.random() < .3) and lim > 0:
                    if first is None:
                        t = r.random()
                        if t < .3: i = s.coll("List", lim, lim, lim)
                        elif t < .5: i = s.coll("Set", lim, 0, lim)
                        elif t < .8: i = s.integer(r.choice([(), (2,), (3,), (1,)]), 0, lim - 1)
                        else: i = s.constant((2,), [r.randrange(lim) * S for _ in range(2)])
                    elif not first.dyn:
                        i = s.integer(first.shape, 0, lim - 1)
                if i is not None:
                    first = first or s.meta[i]
                    ps.append(i)
                    idx.append([2, 0, 0, 0])
                    continue
            if c < .62 and d > 0: idx.append([0, r.randint(-d, d - 1), 0, 0])
            elif d < 0 or c < .85: idx.append(self.rslice(m.rmax if d < 0 else d, d < 0))
            else: idx.append([1, NONE, NONE, NONE])
        if not idx: idx = [[1, NONE, NONE, NONE]]
        return self.item(a, idx, ps)

    def item(self, a, idx, ps):
        s, r, S = self.s, self.rng, self.S
        m = s.meta[a]
        nd = len(m.shape)
        full = idx + [[1, NONE, NONE, NONE]] * (nd - len(idx))
        arr = [k for k, x in enumerate(full) if x[0] == 2]
        fancy = [k for k, x in enumerate(full) if x[0] in (0, 2)] if arr else []
        if arr:
            tog = fancy == list(range(fancy[0], fancy[-1] + 1))
            red = [x for x in full if x[0] != 0]
            ra = [k for k, x in enumerate(red) if x[0] == 2]
            atog = ra == list(range(ra[0], ra[-1] + 1))
            if not tog and atog and ra[0] > 0: return None      # known finding of C09
            if m.dyn and full[0][0] == 0: return None
        rlo = rhi = None
        def ln(k):
            d = m.shape[k]
            if d < 0: return -1
            return len(self.slice_idx(full[k], d))
        sls = [k for k, x in enumerate(full) if x[0] == 1]
        if any(x[0] == 1 and m.shape[k] >= 0 and ln(k) == 0 for k, x in enumerate(full)) and r.random() < .8: return None
        ish = list(s.meta[ps[0]].shape) if ps else []
        if not fancy: sh = [ln(k) for k in sls]
        elif tog: sh = [ln(k) for k in sls if k < fancy[0]] + ish + [ln(k) for k in sls if k > fancy[0]]
        else: sh = ish + [ln(k) for k in sls]
        if any(d < 0 for d in sh[1:]): return None
        if prod(abs(d) for d in sh) > self.cap - 20: return None
        if sh and sh[0] < 0:
            if ps and s.meta[ps[0]].dyn: rlo, rhi = s.meta[ps[0]].rmin, s.meta[ps[0]].rmax
            else:
                if full[0][0] != 1 or not m.dyn: return None
                lens = [len(self.slice_idx(full[0], x)) for x in range(m.rmin, m.rmax + 1)]
                rlo, rhi = min(lens), max(lens)
        f = ""
        return s.add("GetItem", [a] + ps, Meta(sh, m.lo, m.hi, m.integral, m.fuzzy, rlo, rhi, cont=bool(ps)), idx=idx, f=f,
                     bare=int(r.random() < .5), npint=int(r.random() < .2))

    def g_qm(self):
        s, r, S = self.s, self.rng, self.S
        a = self.pick(lambda m: not m.dyn and len(m.shape) == 1 and 0 < m.shape[0] <= 5 and max(abs(m.lo), abs(m.hi)) <= 10 * S and m.integral and m.cont)
        if a is None or r.random() < .3:
            a = s.integer((min(12, self.n),), *r.choice([(0, 3), (-2, 2)])) if r.random() < .5 else s.binary((min(12, self.n),))
        n = s.meta[a].shape[0]
        return self.qm_on(a, n)

    def qm_on(self, a, n, bad=False):
        s, r, S = self.s, self.rng, self.S
        m = s.meta[a]
        form = r.choice(["dict", "coo", "coo", "np", "ro"])
        q = []
        for _ in range(r.randint(1, 7)):
            u, v = r.randrange(n), r.randrange(n)
            if form == "dict" and any(x[:2] == [u, v] for x in q): continue
            q.append([u, v, r.choice([0, 1, 2, -1, -2, 3]) * S])
        lin, l = [0] * n, None
        if r.random() < .7:
            if form == "dict":
                l = [[v, r.randint(-3, 3) * S] for v in r.sample(range(n), r.randint(0, n))]
                for v, b in l: lin[v] = b
            else:
                l = [r.randint(-3, 3) * S for _ in range(r.choice([n, n, r.randint(0, n)]))]
                lin[:len(l)] = l
        isbad = 0
        if bad:
            isbad = 1
            c = r.randrange(6)
            if c == 0: q[-1][r.randrange(2)] = n + r.choice([0, 0, 3])
            elif c == 1: q[-1][r.randrange(2)] = -1
            elif c == 2: q = []
            elif c == 3 and form != "dict": l = [S] * (n + 1)
            elif c == 3: l = [[n, S]]
            elif c == 4 and form != "dict": form = "1row"
            elif c == 5 and form != "dict": form = "3rows"
            elif form == "dict": l = [[-1, S]]
            else: q[0][0] = -1
        x = max(abs(m.lo), abs(m.hi))
        bd = sum(abs(t) * x // S for t in lin) + sum(abs(t[2]) * x // S * x // S for t in q)
        if bd * S > BIG or any(abs(t[2]) * x > BIG or abs(t[2]) * x // S * x > BIG for t in q): return None
        kw = {"bad": 1} if isbad else {}
        return s.add("QuadraticModel", [a], Meta((), -bd, bd, False, False), lin=lin, quad=q, l=l or [], nol=int(l is None), form=form, **kw)

"""Executes scenarios (JSON lines) against the built Python package and records what it does.

usage: pydrv.py IN OUT       every scenario runs in a forked child, so a crash is one record
A result line is the scenario's list of observations, one per step.
"""
import io
import json
import math
import os
import signal
import sys
import tempfile
import warnings

import networkx      # before forking: Model.to_networkx() imports it
import numpy as np

from dwave.optimization import Model, mathematical as M, symbols as Y
from dwave.optimization import generators as GEN
import dwave.optimization._model as _model

warnings.simplefilter("ignore")
NONE = 2147483647
CLS = {"Integer": "IntegerVariable", "Binary": "BinaryVariable", "List": "ListVariable", "Set": "SetVariable"}
PYOP = {v: k for k, v in CLS.items()}


def scaled(a, S):
    """array -> (values on the 1/S grid, number of off-grid values)"""
    out, off = [], 0
    for x in np.asarray(a, dtype=float).ravel().tolist():
        if math.isnan(x):
            out.append(2000000001)
            continue
        y = x * S
        if abs(y) >= 2e9:
            out.append(2000000000 if y > 0 else -2000000000)
            continue
        r = round(y)
        if abs(y - r) > 1e-6 * max(1.0, abs(y)):
            off += 1
        out.append(int(r))
    return out, off


def value(a, S):
    v, off = scaled(a, S)
    return {"v": v, "sh": list(np.shape(a)), "x": off}


def unscale(xs, S):
    return [x // S if x % S == 0 else x / S for x in xs]


def readonly(x, dtype):
    a = np.array(x, dtype=dtype)
    a.flags.writeable = False
    return a


def narrow(a):
    """the same numbers in the smallest type"""
    a = np.asarray(a)
    for t in (np.uint8, np.int8, np.int16, np.int32, np.float32):
        with np.errstate(all="ignore"):
            b = a.astype(t)
        if a.size and (b.astype(float) == a.astype(float)).all(): return b
    return a


def toward(y):
    """a number that NumPy converts to the integer y"""
    return y if y != int(y) else y + .5 if y >= 0 else y - .5


class Full(io.BytesIO):
    def __init__(self, n):
        super().__init__()
        self.n, self.failed = n, False

    def write(self, b):
        self.n -= 1
        if self.n < 0:
            self.failed = True
            raise OSError("no space left")
        return super().write(b)


class Run:
    def __init__(self, scn):
        self.scn, self.S, self.flags = scn, scn["S"], scn.get("flags", "")
        self.models = [Model()]
        self.h = {}                # node id -> handle
        self.ids = {}              # address -> node id
        self.ctx = []
        self.futures = []
        self.made = set()          # ids of the symbols that were created

    @property
    def m(self):
        return self.models[0]

    # ---- handles ----
    def known(self, sym):
        return self.ids.get(sym.id(), -1)

    def get(self, i):
        if i in self.h:
            return self.h[i]
        for s in self.m.iter_symbols():
            if self.known(s) == i:
                return s
        raise KeyError(i)

    def bind(self, i, sym):
        self.h[i] = sym
        self.ids.setdefault(sym.id(), i)

    # ---- construction ----
    def index(self, nd, args):
        """index expression of a getitem"""
        out, k = [], 0
        S = self.S
        for it in nd["idx"]:
            if it[0] == 0:
                out.append(np.int64(it[1]) if nd.get("npint") else it[1])
            elif it[0] == 1:
                out.append(slice(*[None if x == NONE else x for x in it[1:4]]))
            elif it[0] == 2:
                out.append(args[k])
                k += 1
            elif it[0] == 3:
                out.append([None, 1.5, "a", ..., [0, 1]][it[1]])
        if nd.get("bare") and nd.get("f") != "cls" and len(out) == 1:
            return out[0]
        return tuple(out)

    def make(self, nd, model=None):
        m = model if model is not None else self.m
        S = self.S
        op, f = nd["op"], nd.get("f", "")
        a = [self.get(p) for p in nd["p"]]
        if op == "Constant":
            v = np.array([x / S for x in nd["v"]], dtype=float).reshape(nd["sh"])
            if f == "int" and all(x % S == 0 for x in nd["v"]):
                v = v.astype(int)
            elif f == "list":
                v = v.tolist()
            elif f == "strided" and v.ndim >= 1:
                w = np.zeros(tuple(2 * d for d in v.shape))
                w[tuple(slice(None, None, 2) for _ in v.shape)] = v
                v = w[tuple(slice(None, None, 2) for _ in v.shape)]
            elif f == "T" and v.ndim >= 2:
                v = np.asfortranarray(v)
            elif f == "ro":
                v.flags.writeable = False
            elif f == "narrow":
                v = narrow(v)
            return m.constant(v)
        if op == "Integer":
            kw = {}
            if nd["lb"] != NONE: kw["lower_bound"] = nd["lb"]
            if nd["ub"] != NONE: kw["upper_bound"] = nd["ub"]
            sh = nd["sh"]
            if f == "int" and len(sh) == 1: sh = sh[0]
            elif f == "none" and sh == []: return m.integer(**kw)
            else: sh = tuple(sh)
            return m.integer(sh, **kw)
        if op == "Binary":
            sh = nd["sh"]
            if f == "int" and len(sh) == 1: sh = sh[0]
            elif f == "none" and sh == []: return m.binary()
            else: sh = tuple(sh)
            return m.binary(sh)
        if op == "List": return m.list(nd["n"])
        if op == "Set":
            if f == "default": return m.set(nd["n"])
            return m.set(nd["n"], nd["mn"], nd["mx"])
        if op in ("DisjointBitSets", "DisjointLists"):
            if f == "method":             # creates the outputs as well
                x, outs = (m.disjoint_bit_sets if op == "DisjointBitSets" else m.disjoint_lists)(nd["n"], nd["k"])
                self.pending = list(outs)
                return x
            return getattr(Y, op)(m, nd["n"], nd["k"])
        if op in ("DisjointBitSet", "DisjointList"):
            if f == "bound": return self.pending[nd["j"]]
            return getattr(Y, op)(a[0], nd["j"])
        if op == "QuadraticModel":
            q = nd["quad"]
            lin = None if nd["nol"] else nd["l"]
            if nd["form"] == "dict":
                qd = {(u, v): b / S for u, v, b in q}
                ld = None if lin is None else {v: b / S for v, b in lin}
                return m.quadratic_model(a[0], qd, ld)
            data = [b / S for _, _, b in q]
            if nd["form"] == "1row": coords = [u for u, _, _ in q]
            elif nd["form"] == "3rows": coords = ([u for u, _, _ in q], [v for _, v, _ in q], [v for _, v, _ in q])
            elif nd["form"] in ("np", "ro"): coords, data = np.array([[u for u, _, _ in q], [v for _, v, _ in q]], dtype=np.intc).reshape(2, len(q)), np.array(data)
            else: coords = ([u for u, _, _ in q], [v for _, v, _ in q])
            if nd["form"] == "ro":
                for x in (coords, data): x.flags.writeable = False
                if lin is not None: return m.quadratic_model(a[0], (data, coords), readonly([b / S for b in lin], float))
            return m.quadratic_model(a[0], (data, coords), None if lin is None else [b / S for b in lin])
        if op == "GetItem":
            return a[0][self.index(nd, a[1:])]
        if op == "BasicIndexing":
            if f == "cls": return Y.BasicIndexing(a[0], *self.index(nd, []))
            return a[0][self.index(nd, [])]
        if op == "AdvancedIndexing":
            if f == "cls": return Y.AdvancedIndexing(a[0], *self.index(nd, a[1:]))
            return a[0][self.index(nd, a[1:])]
        if op == "Same":
            return a[0] ** 1 if f == "pow" else M.concatenate((a[0],)) if f == "cat" else M.concatenate(a[0])
        if f == "cls" or f == "":
            c = getattr(Y, op)
            if op == "PartialSum": return c(a[0], nd["ax"])
            if op == "Concatenate": return c(tuple(a), nd["ax"])
            if op == "Reshape": return c(a[0], tuple(nd["sh"]))
            return c(*a)
        if f == "fn":
            name = {"Add": "add", "NaryAdd": "add", "Multiply": "multiply", "NaryMultiply": "multiply", "Maximum": "maximum",
                    "NaryMaximum": "maximum", "Minimum": "minimum", "NaryMinimum": "minimum", "Divide": "divide", "And": "logical_and",
                    "Or": "logical_or", "Xor": "logical_xor", "Not": "logical_not", "Logical": "logical", "Modulus": "mod",
                    "SquareRoot": "sqrt", "Where": "where", "Concatenate": "concatenate"}[op]
            if op == "Concatenate": return M.concatenate(tuple(a), axis=nd["ax"]) if nd["ax"] or nd.get("kw") else M.concatenate(tuple(a))
            return getattr(M, name)(*a)
        if f == "fnlist": return M.concatenate(list(a), nd["ax"])
        if f == "op":
            x = a[0]
            y = a[1] if len(a) > 1 else None
            return {"Add": lambda: x + y, "Subtract": lambda: x - y, "Multiply": lambda: x * y, "Divide": lambda: x / y,
                    "Modulus": lambda: x % y, "Equal": lambda: x == y, "LessEqual": lambda: x <= y, "Absolute": lambda: abs(x),
                    "Negative": lambda: -x, "Square": lambda: x ** 2, "Sum": lambda: x.sum(), "Prod": lambda: x.prod(),
                    "Max": lambda: x.max(), "Min": lambda: x.min(), "All": lambda: x.all(), "Any": lambda: x.any(),
                    "PartialSum": lambda: x.sum(axis=nd["ax"]), "Size": lambda: x.size(),
                    "Reshape": lambda: x.reshape(tuple(nd["sh"]))}[op]()
        if f == "ge": return a[1] >= a[0]              # LessEqual(a0, a1)
        if f == "star": return a[0].reshape(*nd["sh"])
        if op == "Permutation" and f == "getitem":
            ix = [slice(None)] * (len(a[0].shape()) - 2)
            return a[0][tuple([a[1], slice(None)] + ix)][tuple([slice(None), a[1]] + ix)]
        if f == "pow": return a[0] ** len(nd["p"])      # a product of equal factors
        if f == "iadd":
            x = a[0]
            for y in a[1:]: x += y
            return x
        if f == "imul":
            x = a[0]
            for y in a[1:]: x *= y
            return x
        raise RuntimeError("unknown form %s %s" % (op, f))

    # ---- observation ----
    def params(self, s):
        """what a symbol tells about itself"""
        S = self.S
        t = type(s).__name__
        op = PYOP.get(t, t)
        d = {"t": op, "ssz": s.state_size()}
        if isinstance(s, _model.ArraySymbol):
            d["sh"] = list(s.shape())
            d["nd"] = s.ndim()
            d["str"] = list(s.strides())
            n = None if d["sh"] and d["sh"][0] < 0 else s.size()
            d["n"] = -1 if n is None else (n if isinstance(n, int) else -2)
        if op == "Constant": d["v"] = scaled(s.state(), S)[0]
        elif op == "Integer": d["lb"], d["ub"] = [max(-2000000000, min(2000000000, x)) for x in (s.lower_bound(), s.upper_bound())]
        elif op == "PartialSum": d["ax"] = list(s.axes())
        elif op == "Concatenate": d["ax"] = [s.axis()]
        elif op == "DisjointBitSet": d["j"] = s.set_index()
        elif op == "DisjointList": d["j"] = s.list_index()
        elif op == "DisjointBitSets": d["k"] = s.num_disjoint_sets()
        elif op == "DisjointLists": d["k"] = s.num_disjoint_lists()
        elif op == "QuadraticModel":
            n = s.num_variables()
            d["lin"] = scaled([s.get_linear(v) for v in range(n)], S)[0]
            d["quad"] = [scaled([s.get_quadratic(u, v) for v in range(n)], S)[0] for u in range(n)]
            d["ni"] = s.num_interactions()
        return d

    def struct(self):
        m = self.m
        d = {"nn": m.num_nodes(), "ns2": m.num_symbols(), "ne": m.num_edges(), "nd": m.num_decisions(), "nc": m.num_constraints(), "lk": int(m.is_locked()),
             "ns": m.states.size(), "len": len(m.states),
             "obj": -1 if m.objective is None else (self.known(m.objective) if not m.objective.expired() else -2),
             "cons": [self.known(c) for c in m.iter_constraints()],
             "decs": [self.known(c) for c in m.iter_decisions()],
             "ord": [self.known(c) for c in m.iter_symbols()],
             "ti": [-1 if c.topological_index() is None else c.topological_index() for c in m.iter_symbols()]}
        if "P" in self.flags:
            d["pre"] = [[self.known(p) for p in c.iter_predecessors()] for c in m.iter_symbols()]
            d["suc"] = [[self.known(p) for p in c.iter_successors()] for c in m.iter_symbols()]
            # the exported graph: symbols by number, -1 the objective, -2 the constraints
            name = {repr(c): self.known(c) for c in m.iter_symbols()}
            name.update({"minimize": -1, "constraint(s)": -2})
            g = m.to_networkx()
            d["nxn"] = sorted(name.get(x, -9) for x in g.nodes)
            d["nxe"] = sorted([name.get(x, -9), name.get(y, -9)] for x, y in g.edges())
        if "X" in self.flags:
            d["exp"] = [[i, int(s.expired())] for i, s in sorted(self.h.items())]
        return d

    def array_ids(self, m=None):
        return [i for i in sorted(self.h) if isinstance(self.h[i], _model.ArraySymbol)]

    # ---- steps ----
    def step(self, st):
        e = st["e"]
        ob = {"exc": ""}
        nn = self.m.num_nodes()
        try:
            getattr(self, "do_" + e)(st, ob)
        except Exception as ex:
            ob["exc"] = type(ex).__name__
            ob["msg"] = str(ex)[:80]
            ex.__traceback__ = None
        if self.futures: ob["fc"], ob["fa"] = [f["calls"] for f in self.futures], int(all(f["args"] for f in self.futures))
        if "D" in self.flags:
            ob["st"] = self.struct()
        elif e in ("new", "iadd"):
            ob["dn"] = self.m.num_nodes() - nn
        return ob

    def do_new(self, st, ob):
        i = st["i"]
        s = self.make(st["nd"])
        self.made.add(i)
        if st.get("hold", 1):
            fresh = s.id() not in self.ids
            self.bind(i, s)
        else:
            fresh = s.id() not in self.ids
            self.ids.setdefault(s.id(), i)
        ob["fresh"] = int(fresh)
        ob["mod"] = int(s.model is self.m)
        if isinstance(s, _model.ArraySymbol):
            ob["sh"] = list(s.shape())
        ob["t"] = PYOP.get(type(s).__name__, type(s).__name__)

    def do_iadd(self, st, ob):
        x = self.get(st["n"])
        y = self.get(st["b"])
        k = x.id()
        if st["k"] == "+": x += y
        else: x *= y
        ob["same"] = int(x.id() == k)
        if not ob["same"]: self.bind(st["i"], x)

    def do_lock(self, st, ob):
        c = self.m.lock()
        if st.get("cm"):
            c.__enter__()
            self.ctx.append(c)
        else:
            self.ctx.append(None)
            self.keep = c

    def do_unlock(self, st, ob):
        c = self.ctx.pop() if self.ctx else None
        if c is None: self.m.unlock()
        elif st.get("th"): c.__exit__(KeyError, KeyError("leaving the block"), None)
        else: c.__exit__(None, None, None)

    def do_resize(self, st, ob):
        try: self.m.states.resize(st["n"])
        finally: ob["ns"] = self.m.states.size()

    def do_clear(self, st, ob):
        self.m.states.clear()
        ob["ns"] = self.m.states.size()

    def do_initialize(self, st, ob): self.m.states.initialize()

    def do_future(self, st, ob):
        """the states come from a computation that is asked for its result when they are needed"""
        fut = object()
        rec = {"calls": 0, "args": 1}
        self.futures.append(rec)

        def hook(model, future):
            rec["calls"] += 1
            if model is not self.m or future is not fut: rec["args"] = 0
            if st["bad"]: raise RuntimeError("no result")
            model.states.resize(st["n"])
            for d, k, v, op in st["sets"]: self.get(d).set_state(k, self.decvalue({"v": v, "op": op}))
        self.m.states.from_future(fut, hook)
        ob["early"] = rec["calls"]
        if st["bad"]:                       # the failure surfaces once
            try:
                len(self.m.states)
                ob["fails"] = 0
            except RuntimeError:
                ob["fails"] = 1
            ob["ns"] = self.m.states.size()

    def decvalue(self, st):
        S, v, op = self.S, st["v"], st["op"]
        if op in ("DisjointBitSets", "DisjointLists"):
            x = [unscale(r, S) for r in v]
            if st.get("f") == "ro":
                if op == "DisjointLists": x = [readonly(r, np.intp) for r in x]
                elif len({len(r) for r in x}) == 1: x = readonly(x, bool)
                return x
            if st.get("f") == "frac" and op == "DisjointLists": x = [[toward(y) for y in r] for r in x]
            if st.get("f") == "narrow" and op == "DisjointLists": x = [narrow(r) for r in x]
            if st.get("f") == "np" and op == "DisjointLists": x = [np.array(r, dtype=int) for r in x]
            if st.get("f") == "np" and op == "DisjointBitSets" and len({len(r) for r in x}) == 1: x = np.array(x, dtype=int)
            return x
        x = unscale(v, S)
        f = st.get("f")
        if f == "np": x = np.array(x)
        elif f == "narrow": x = narrow(x)
        elif f == "ro": x = readonly(x, np.intp)
        elif f == "float": x = [float(y) for y in x]
        elif f == "frac": x = [toward(y) for y in x]
        elif f == "shaped": x = np.array(x).reshape(st["sh"])
        elif f == "set": x = set(x)
        elif f == "scalar" and len(x) == 1: x = x[0]
        return x

    def do_set(self, st, ob):
        d, s = self.get(st["d"]), st["s"]
        x = self.decvalue(st)
        try: d.set_state(s, x)
        finally:
            if 0 <= s < self.m.states.size():
                ob["b"] = int(bool(d.has_state(s)))
                if ob["b"] and isinstance(d, _model.ArraySymbol):
                    ob["vv"] = value(d.state(s), self.S)

    def do_reset(self, st, ob): self.get(st["n"]).reset_state(st["s"])

    def do_read(self, st, ob):
        a = self.get(st["n"]).state(st["s"])
        b = a.copy()
        ob.update(value(a, self.S))
        a += 1                              # the caller owns what state() returns
        ob["again"] = int(np.array_equal(b, self.get(st["n"]).state(st["s"]), equal_nan=True))

    def do_has(self, st, ob): ob["b"] = int(bool(self.get(st["n"]).has_state(st["s"])))

    def do_readall(self, st, ob):
        s = st["s"]
        n = st["nn"]
        vals = []
        for i in range(n):
            if i in self.h and isinstance(self.h[i], _model.ArraySymbol) and not self.h[i].expired():
                vals.append(dict(value(self.h[i].state(s), self.S), ssz=self.h[i].state_size()))
            else:
                vals.append({})
        ob["vals"] = vals

    def do_min(self, st, ob):
        n = st["n"]
        self.m.minimize(None if n == -1 else self.get(n))

    def do_con(self, st, ob):
        n = st["n"]
        r = self.m.add_constraint(None if n == -1 else self.get(n))
        ob["ret"] = self.known(r)

    def do_feas(self, st, ob): ob["b"] = int(bool(self.m.feasible(st["s"]) if st["s"] else self.m.feasible()))

    def do_remove(self, st, ob):
        ob["ret"] = self.m.remove_unused_symbols()
        alive = {s.id() for s in self.m.iter_symbols()}
        for a in [a for a in self.ids if a not in alive]: del self.ids[a]

    def do_drop(self, st, ob):
        del self.h[st["n"]]

    def do_hold(self, st, ob):
        n = st["n"]
        for s in self.m.iter_symbols():
            if self.known(s) == n:
                self.h[n] = s
                return
        raise KeyError(n)

    def do_dead(self, st, ob):
        """what the held symbol of a removed node says"""
        ob["b"] = int(self.h[st["n"]].expired())

    def do_eq(self, st, ob):
        a, b = self.get(st["a"]), self.get(st["b"])
        ob.update(eq=int(a.equals(b)), eq2=int(b.equals(a)), may=int(a.maybe_equals(b)), may2=int(b.maybe_equals(a)), sm=int(bool(a.shares_memory(b))),
                  sm2=int(bool(b.shares_memory(a))), idq=int(a.id() == b.id()))

    def do_eqx(self, st, ob):
        """comparisons with things that are no symbols"""
        a = self.get(st["a"])
        ob.update(eq=[int(bool(a.equals(x))) for x in (5, None, "a")], sm=[int(bool(a.shares_memory(x))) for x in (5, None, "a")])

    def do_views(self, st, ob):
        """every way to obtain a handle"""
        m = self.m
        def one(s, kind, at):
            d = self.params(s)
            d.update(kd=kind, at=at, id=self.known(s), eq=int(s.equals(self.get(self.known(s))) if self.known(s) >= 0 else 0),
                     sm=int(bool(s.shares_memory(self.get(self.known(s)))) if self.known(s) >= 0 else 0),
                     may=int(s.maybe_equals(self.get(self.known(s))) if self.known(s) >= 0 else 0),
                     dif=int(s is not self.h.get(self.known(s))), mod=int(s.model is m),
                     rep=int(repr(s) == repr(self.get(self.known(s)))) if self.known(s) >= 0 else 0)
            return d
        out = []
        for k, s in enumerate(m.iter_symbols()): out.append(one(s, "symbols", k))
        for k, s in enumerate(m.iter_decisions()): out.append(one(s, "decisions", k))
        for k, s in enumerate(m.iter_constraints()): out.append(one(s, "constraints", k))
        if m.objective is not None: out.append(one(m.objective, "objective", 0))
        for s in m.iter_symbols():
            for k, p in enumerate(s.iter_predecessors()): out.append(dict(one(p, "pred", k), of=self.known(s)))
            for k, p in enumerate(s.iter_successors()): out.append(dict(one(p, "succ", k), of=self.known(s)))
        ob["vw"] = out
        ob["msz"], ob["dsz"] = m.state_size(), m.decision_state_size()

    # ---- serialization ----
    def dump(self, m, number, read=True):
        """a model as seen through its public interface; number: symbol -> position"""
        syms = list(m.iter_symbols())
        pos = {s.id(): k for k, s in enumerate(syms)}
        d = {"sym": [self.params(s) for s in syms], "pre": [[pos[p.id()] for p in s.iter_predecessors()] for s in syms],
             "obj": -1 if m.objective is None else pos[m.objective.id()], "cons": [pos[c.id()] for c in m.iter_constraints()],
             "nd": m.num_decisions(), "ns": m.states.size(), "lk": int(m.is_locked())}
        d["decs"] = [pos[x.id()] for x in m.iter_decisions()]
        return d

    def do_file(self, st, ob):
        m, S = self.m, self.S
        kw = {}
        if st["max"] != NONE: kw["max_num_states"] = st["max"]
        if st["only"]: kw["only_decision"] = True
        order = None
        lk0 = m.is_locked()
        how = st["how"]
        tmp = None
        if "fail" in st:            # a file that cannot be written to after a while
            f = Full(st["fail"])
            try: m.states.into_file(f) if how.startswith("states") else m.into_file(f, **kw)
            finally: ob["lk"], ob["failed"] = int(m.is_locked() == lk0), int(f.failed)
            return
        try:
            if how == "to": f = m.to_file(**kw)
            elif how == "into":
                f = io.BytesIO()
                m.into_file(f, **kw)
                f.seek(0)
            elif how == "name":
                fd, tmp = tempfile.mkstemp()
                os.close(fd)
                m.into_file(tmp, **kw)
                f = tmp
            elif how == "states": f = m.states.to_file()
            elif how == "statesname":
                fd, tmp = tempfile.mkstemp()
                os.close(fd)
                m.states.into_file(tmp)
                f = tmp
            ob["lk"] = int(m.is_locked() == lk0)
            if st.get("load") == "other":           # ... or with others, which has to be refused
                m2 = Run({"S": S, "flags": ""})
                m2.h = {}
                for i, nd in enumerate(st["nodes"]):
                    if nd["op"] != "Dead": m2.bind(i, m2.make(nd))
                m2.m.states.resize(st["pre"])
                try: m2.m.states.from_file(f)
                finally: ob["ns"] = m2.m.states.size()
                return
            if st.get("load") == "states":          # load the states into another model with the same decisions
                m2 = Run({"S": S, "flags": ""})
                m2.h, keep = {}, None
                for i, nd in enumerate(st["nodes"]):
                    if nd["op"] == "Dead" or i not in self.made: continue
                    m2.bind(i, m2.make(nd))
                m2.m.states.resize(st["pre"])
                m2.m.states.from_file(f)
                n = m2.m
            else:
                n = Model.from_file(f) if not st.get("nohdr") else Model.from_file(f, check_header=False)
        finally:
            if tmp: os.unlink(tmp)
        ob["isM"] = int(type(n) is Model)
        # the original's order while locked
        with m.lock():
            ob["ord"] = [self.known(s) for s in m.iter_symbols()]
        if st.get("load") == "states":
            with n.lock(): ob["ord2"] = [m2.known(s) for s in n.iter_symbols()]
        with n.lock():
            ob["new"] = self.dump(n, None)
            ob["hs"] = [[int(bool(d.has_state(i))) for d in n.iter_decisions()] for i in range(n.states.size())]
            vals = []
            for i in range(n.states.size()):
                vals.append([value(s.state(i), S) if isinstance(s, _model.ArraySymbol) else {} for s in n.iter_symbols()])
            ob["vals"] = vals
        if st.get("probe"):
            with m.lock(): pos = {self.known(s): k for k, s in enumerate(m.iter_symbols())}
            n3 = Model.from_file(m.to_file())
            n3.states.resize(1)
            with n3.lock():
                syms = list(n3.iter_symbols())
                bits = []
                for d, v in st["probe"]:
                    try:
                        syms[pos[d]].set_state(0, self.decvalue({"v": v, "op": st["ops"][str(d)]}))
                        bits.append(1)
                    except Exception:
                        bits.append(0)
            ob["probes"] = bits
        # once more: what was loaded serializes again
        if st.get("again"):
            n2 = Model.from_file(n.to_file(max_num_states=n.states.size()))
            with n2.lock():
                ob["new2"] = self.dump(n2, None)
                ob["vals2"] = [[value(s.state(i), S) if isinstance(s, _model.ArraySymbol) else {} for s in n2.iter_symbols()] for i in range(n2.states.size())]

    # ---- misuse ----
    def do_foreign(self, st, ob):
        """an operation on symbols of two models"""
        o = Run({"S": self.S, "flags": ""})
        for i, nd in enumerate(st["nodes"]):
            o.bind(i, o.make(nd))
        b = o.h[st["b"]]
        a = self.get(st["a"])
        n1, n2 = self.m.num_nodes(), o.m.num_nodes()
        k = st["k"]
        try:
            {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<=": lambda: a <= b, "==": lambda: a == b, "%": lambda: a % b, "/": lambda: a / b,
             "and": lambda: M.logical_and(a, b), "max": lambda: M.maximum(a, b), "nadd": lambda: M.add(a, a, b), "nadd0": lambda: M.add(b, a, a),
             "nmin": lambda: M.minimum(a, b, a), "cat": lambda: M.concatenate((a, b)), "where1": lambda: M.where(b, a, a), "where2": lambda: M.where(a, b, a),
             "where3": lambda: M.where(a, a, b), "get": lambda: a[b], "iadd": lambda: self.iadd(a, b), "iaddn": lambda: self.iadd(Y.NaryAdd(a), b),
             "imuln": lambda: self.imul(Y.NaryMultiply(a), b), "min": lambda: self.m.minimize(b), "con": lambda: self.m.add_constraint(b),
             "perm": lambda: Y.Permutation(a, b)}[k]()
        finally:
            ob["d1"], ob["d2"] = self.m.num_nodes() - n1 - (1 if k in ("iaddn", "imuln") else 0), o.m.num_nodes() - n2
            ob["e2"] = sum(len(list(s.iter_successors())) for s in o.m.iter_symbols()) - sum(len(list(s.iter_predecessors())) for s in o.m.iter_symbols())

    def iadd(self, a, b):
        a += b
        return a

    def imul(self, a, b):
        a *= b
        return a

    # ---- generators ----
    def cqm(self, a):
        import dimod
        S = self.S
        cqm = dimod.ConstrainedQuadraticModel()
        for v in range(a["n"]): cqm.add_variable("BINARY", v)

        def poly(p):
            q = dimod.QuadraticModel()
            for v, b in p["lin"]: q.add_variable("BINARY", v); q.add_linear(v, b / S)
            for u, v, b in p["quad"]:
                for w in (u, v):
                    if w not in q.variables: q.add_variable("BINARY", w)
                q.add_quadratic(u, v, b / S)
            q.offset += p["off"] / S
            return q
        cqm.set_objective(poly(a["obj"]))
        for c in a["cons"]: cqm.add_constraint_from_model(poly(c), c["sense"], rhs=c["rhs"] / S)
        return GEN._from_constrained_quadratic_model(cqm)

    def do_gen(self, st, ob):
        import copy
        flat = lambda v: len({len(r) if isinstance(r, list) else -1 for r in v}) <= 1
        def array(v, how):
            if how in ("", "F", "ro"):
                a = np.array(v, order="F" if how == "F" else "C")
                if how == "ro": a.flags.writeable = False
                return a
            return np.array(v, dtype=how)
        kw = {k: (array(v, st["np"][k]) if k in st["np"] and flat(v) else v) for k, v in st["kw"].items()}
        before = copy.deepcopy(kw)
        same = lambda a, b: type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else repr(a) == repr(b))
        try:
            m = self.cqm(st["a"]) if st["name"] == "cqm" else getattr(GEN, st["name"])(**kw)
        finally:
            ob["args"] = int(all(same(kw[k], before[k]) for k in kw))
        self.models = [m]
        S = self.S
        decs = list(m.iter_decisions())
        ob["decs"] = [self.params(d) for d in decs]
        ob["lk"] = int(m.is_locked())
        ob["obj"] = int(m.objective is not None)
        ob["runs"] = []
        if not m.is_locked(): m.lock()
        m.states.resize(2)
        for k, v in enumerate(st["assign"]):
            d = decs[0]
            if isinstance(d, _model.ArraySymbol) and d.ndim() == 2: v = np.reshape(np.array(v, dtype=int), d.shape())
            d.set_state(k % 2, v)
            r = {"fe": int(bool(m.feasible(k % 2)))}
            e, x = scaled(m.objective.state(k % 2), S) if m.objective is not None else ([0], 0)
            r.update(en=e, x=x)
            ob["runs"].append(r)


def main():
    src, dst = sys.argv[1:3]
    with open(src) as fh:
        scns = [json.loads(l) for l in fh]
    out = open(dst, "w")
    crashes = hangs = 0
    for scn in scns:
        if crashes >= 40 or hangs >= 3:
            break
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(30)
                f = os.fdopen(w, "w")
                run = Run(scn)
                for st in scn["steps"]:
                    f.write(json.dumps(run.step(st)) + "\n")
                    f.flush()
                f.write("end\n")
                f.flush()
            except BaseException as ex:            # an observation failed: the model is damaged
                code = 3
                import traceback
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            lines = f.read().split("\n")
        _, status = os.waitpid(pid, 0)
        steps = []
        for l in lines:
            if l in ("", "end"): continue
            try:
                steps.append(json.loads(l))
            except ValueError:
                pass
        rec = {"id": scn["id"], "steps": steps, "sig": 0}
        if os.WIFSIGNALED(status):
            rec["sig"] = os.WTERMSIG(status)
            crashes += 1
            hangs += rec["sig"] == signal.SIGALRM
        elif os.WEXITSTATUS(status):
            rec["sig"] = 1000 + os.WEXITSTATUS(status)
            crashes += 1
        out.write(json.dumps(rec, separators=(",", ":")) + "\n")
    out.close()


if __name__ == "__main__":
    main()

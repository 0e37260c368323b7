"""Focused scenario families for the engine checks (each is a function of a seed)."""
import random

from .gen import DECOPS, NONE, GraphGen, History, Scn, engine_scenario, prod

KINDS = ["un", "bin", "nary", "red", "psum", "where", "size", "reshape", "concat", "perm", "basic", "adv", "qm"]


def mixed(seed, sid, flags):
    return engine_scenario(seed, sid, flags)


def focused(seed, sid, flags):
    """one kind of node (plus feeders), many short cycles"""
    rng = random.Random(seed * 7 + 1)
    k = KINDS[seed % len(KINDS)]
    return engine_scenario(seed, sid, flags, nodes=rng.choice([2, 3, 4, 6]), cycles=rng.choice([8, 14, 20]),
                           ops=[k] * 3 + [rng.choice(KINDS), "const"])


def deep(seed, sid, flags):
    """long chains, few decisions"""
    return engine_scenario(seed, sid, flags, nodes=24, cycles=16)


def large(seed, sid, flags):
    """arrays and collections of tens of elements, bursts of tens of moves"""
    rng = random.Random(seed * 7 + 2)
    k = KINDS[seed % len(KINDS)]
    return engine_scenario(seed, sid, flags, nodes=rng.choice([2, 4, 6]), cycles=rng.choice([5, 8]), avoid=("big",),
                           ops=[k] * 2 + KINDS, large=rng.choice([9, 17, 17, 20, 33, 40]))


# ---------------------------------------------------------------------------------------------
def _decisions(seed, sid, flags, count):
    rng = random.Random(seed)
    s = Scn(rng, sid, rng.choice([1, 1, 4, 8]), flags)
    s.large = rng.choice([9, 17, 33]) if rng.random() < .04 else 0
    g = GraphGen(s, ("big",), s.large) if s.large else GraphGen(s)
    for _ in range(count): g.decision()
    return rng, s, g


def invalid(h, d):
    """an explicit state that is not in the decision's domain (or None)"""
    r, S = h.rng, h.S
    nd = h.s.nodes[d]
    op = nd["op"]
    v = h.clone(h.explicit(d))
    k = r.randrange(6)
    if op in ("Integer", "Binary"):
        lb, ub = h.bounds(nd)
        if k == 0: v.append(lb * S)
        elif k == 1 and v: v.pop()
        elif not v: return None
        else:
            i = r.randrange(len(v))
            if k == 2 and lb > -1000000000: v[i] = (lb - r.choice([1, 1, 2, 10])) * S
            elif k == 3 and ub < 1000000000: v[i] = (ub + r.choice([1, 1, 2, 10])) * S
            elif S > 1:
                if lb == ub: v[i] = lb * S + r.choice([-1, 1])
                else: v[i] = r.randint(lb, ub - 1) * S + r.randint(1, S - 1) if ub < 1000000000 else None
            else: return None
        return None if any(x is None for x in v) else v
    if op in ("List", "Set"):
        n, mn, mx = nd["n"], nd["mn"], nd["mx"]
        if k == 0: v = [x * S for x in r.sample(range(n), mx)] + [mx * S]       # one too many
        elif k == 1:
            if mn == 0: return None
            v = [x * S for x in r.sample(range(n), mn - 1)]
        elif k == 2 and len(v) >= 2: v[r.randrange(1, len(v))] = v[0]
        elif k == 3 and v: v[r.randrange(len(v))] = n * S
        elif k == 4 and v: v[r.randrange(len(v))] = -S
        elif k == 5 and v and S > 1:
            i = r.randrange(len(v)); v[i] += r.choice([1, S - 1])
        else: return None
        return v
    if op == "Dyn": return None
    n, kk = nd["n"], nd["k"]
    if op == "DisjointBitSets":
        if n == 0: return None
        i, a = r.randrange(n), r.randrange(kk)
        if k == 0: v.pop()
        elif k == 1: v.append([0] * n)
        elif k == 2:
            v[a][i] = S - v[a][i]               # element in no set, or in two
        elif k == 3: v[a].pop()
        elif k == 4: v[a].append(0)
        else: v[a][i] = r.choice([2 * S, -S] + ([1] if S > 1 else []))
        return v
    ne = [j for j in range(kk) if v[j]]
    if k == 0: v.pop() if ne and ne[-1] == kk - 1 else v.append([])
    elif k == 1 and ne: v[ne[0]].pop()
    elif k == 2 and ne: v[r.randrange(kk)].append(v[ne[0]][0])
    elif k == 3 and ne: v[ne[0]][0] = n * S
    elif k == 4 and ne: v[ne[0]][0] = -S
    elif k == 5 and ne and S > 1: v[ne[-1]][-1] += 1
    else: return None
    return v


def states(seed, sid, flags):
    """C07: explicit states, valid and not; default and random initialisation"""
    rng, s, g = _decisions(seed, sid, flags, random.Random(seed + 1).choice([1, 1, 2, 3]))
    if rng.random() < .3:
        for _ in range(3): g.op()
    h = History(s)
    for _ in range(rng.choice([6, 10])):
        h.init(0)
        dec = s.steps[-1]["dec"]
        c = rng.random()
        if c < .45:
            x = [j for j, e in enumerate(dec) if e["mode"] in (1, 2)]
            if x:
                j = rng.choice(x)
                b = invalid(h, dec[j]["d"])
                if b is not None: dec[j]["v"] = b
        for e in dec:
            op = s.nodes[e["d"]]["op"]
            if op in ("Integer", "Binary"):
                if rng.random() < .25: e.update(mode=3, seed=rng.randrange(1 << 30), v=[])
                elif e["mode"] == 1 and rng.random() < .4: e["mode"] = 4
    return s


def moves(seed, sid, flags):
    """C06: long sequences of calls on decisions"""
    rng, s, g = _decisions(seed, sid, flags, random.Random(seed + 1).choice([1, 1, 2, 3]))
    if rng.random() < .2:
        for _ in range(2): g.op()
    h = History(s)
    h.init(0)
    dm = rng.random() < .6
    for _ in range(rng.choice([5, 8])):
        for _ in range(rng.choice([1, 3, 6, 10])):
            query(h, rng)
            h.move(0)
        d = None
        if dm and rng.random() < .6 and h.decs:
            # afterwards the generator no longer knows the contents: only more default moves until the revert
            for _ in range(rng.choice([1, 2, 5, 12])):
                d = rng.choice(h.decs)
                if s.nodes[d]["op"] == "Dyn": continue
                h.mv(0, d, "default_move", [rng.randrange(1 << 30)])
        h.finish(0, rng.choice(["rev", "rej"]) if d is not None else None)
    return s


def query(h, rng):
    """getters and refused calls"""
    if not h.decs: return
    d = rng.choice(h.decs)
    nd, c = h.s.nodes[d], h.tr[0].cur[d]
    op = nd["op"]
    if op in ("Integer", "Binary") and c:
        i = rng.randrange(len(c))
        if rng.random() < .5: h.mv(0, d, "get_value", [i])
        elif op == "Integer":
            lb, ub = h.bounds(nd)
            if lb > -1000000000 and rng.random() < .5: h.mv(0, d, "set_value", [i, lb - rng.choice([1, 3])])
            elif ub < 1000000000: h.mv(0, d, "set_value", [i, ub + rng.choice([1, 3])])
    elif op == "DisjointBitSets" and nd["n"]: h.mv(0, d, "containing", [rng.randrange(nd["n"])])
    elif op == "DisjointLists": h.mv(0, d, "list_size", [rng.randrange(nd["k"])])


def slots(seed, sid, flags):
    """C15: several states of one graph, interleaved"""
    rng = random.Random(seed)
    s = Scn(rng, sid, rng.choice([1, 1, 4]), flags)
    g = GraphGen(s)
    for _ in range(rng.choice([1, 2, 3])): g.decision()
    want, made = rng.choice([3, 5, 8, 12]), 0
    for _ in range(want * 6):
        if made >= want: break
        if g.op() is not None: made += 1
    h = History(s)
    h.init(0)
    pend = {0: None}
    hasdyn = any(nd["op"] == "Dyn" for nd in s.nodes)     # the testing decision's state data does not copy
    for _ in range(rng.choice([10, 16, 24])):
        k = rng.choice(list(pend))
        c = rng.random()
        free = [x for x in range(4) if x not in pend]
        if pend[k] == "prop":
            how = rng.choice(["com", "rev"])
            s.steps.append({"e": how, "s": k})
            h.settle(k, how)
            pend[k] = None
        elif c < .35:
            h.burst(k)
        elif c < .6:
            s.steps.append({"e": "prop", "s": k, "src": h.sources(k)})
            pend[k] = "prop"
        elif c < .75:
            h.finish(k, rng.choice(["acc", "rej", "def"]))
        elif c < .85 and free:
            x = free[0]
            h.init(x)
            pend[x] = None
        elif c < .95 and h.tr[k].phase == "clean" and not hasdyn:
            x = rng.choice([y for y in range(4) if y != k])
            if pend.get(x) == "prop" or (x in pend and rng.random() < .5): continue
            s.steps.append({"e": "copy", "s": k, "t": x})
            from .gen import Tracker
            t = Tracker(s, x)
            t.cur = {d: h.clone(v) for d, v in h.tr[k].cur.items()}
            t.com = {d: h.clone(v) for d, v in h.tr[k].cur.items()}
            t.phase = "clean"
            h.tr[x] = t
            pend[x] = None
        elif len(pend) > 1 and c >= .97:
            s.steps.append({"e": "drop", "s": k})
            del pend[k]
            del h.tr[k]
    return s


def objective(seed, sid, flags):
    """C14: models with an objective and constraints"""
    rng = random.Random(seed)
    s = Scn(rng, sid, rng.choice([1, 1, 4]), flags)
    g = GraphGen(s)
    for _ in range(rng.choice([1, 2, 3])): g.decision()
    want, made = rng.choice([6, 10, 14]), 0
    for _ in range(want * 6):
        if made >= want: break
        if g.op(rng.choice([None, "bin", "red", "un"])) is not None: made += 1
    one = s.arrays(lambda m: m.size == 1)
    log = [i for i in one if s.meta[i].lo >= 0 and s.meta[i].hi <= s.S and s.meta[i].integral and
           s.nodes[i]["op"] in ("And", "Or", "Xor", "Equal", "LessEqual", "Not", "Logical", "All", "Any", "Binary")]
    if one and rng.random() < .85: s.obj = rng.choice(one)
    for _ in range(rng.choice([0, 1, 2, 3])):
        if log: s.cons.append(rng.choice(log))
    h = History(s)
    h.standard(rng.choice([4, 8]))
    return s


def qm(seed, sid, flags):
    """C18: quadratic models"""
    rng = random.Random(seed)
    s = Scn(rng, sid, rng.choice([1, 1, 4]), flags)
    g = GraphGen(s)
    g.n = rng.choice([1, 2, 3, 4, 5])
    for _ in range(rng.choice([1, 2])):
        r = rng.random()
        if r < .4: s.integer((g.n,), *rng.choice([(0, 3), (-2, 2), (-5, 5)]))
        elif r < .7: s.binary((g.n,))
        elif r < .85: s.coll("List", g.n, g.n, g.n)
        else: s.disjoint("DisjointBitSets", g.n, 2)
    if rng.random() < .5:
        g.op(rng.choice(["bin", "un", "adv", "basic"]))
    n0 = len(s.nodes)
    for _ in range(3): g.g_qm()
    if rng.random() < .3: g.op("bin")
    for i in range(n0, len(s.nodes)):
        if s.nodes[i]["op"] == "QuadraticModel": s.steps.append({"e": "qm", "n": i, "s": 0})
    h = History(s)
    h.standard(rng.choice([6, 12]))
    return s

"""Instances and assignments for the generators (C16)."""
import random

PARAM = {"bin_packing": {"w": "weights", "cap": "capacity"},
         "knapsack": {"w": "weights", "v": "values", "cap": "capacity"},
         "quadratic_assignment": {"dist": "distance_matrix", "flow": "flow_matrix"},
         "traveling_salesperson": {"dist": "distance_matrix"},
         "flow_shop_scheduling": {"t": "processing_times"},
         "job_shop_scheduling": {"t": "times", "m": "machines", "ub": "upper_bound"},
         "capacitated_vehicle_routing": {"dem": "demand", "nv": "number_of_vehicles", "cap": "vehicle_capacity", "dist": "distances",
                                         "lx": "locations_x", "ly": "locations_y", "depot": "depot_x_y"},
         "capacitated_vehicle_routing_with_time_windows": {"dem": "demand", "nv": "number_of_vehicles", "cap": "vehicle_capacity",
                                                           "dist": "time_distances", "open": "time_window_open", "close": "time_window_close",
                                                           "svc": "service_time"}}
UNSCALED = ("nv", "m")
INTS = ("t", "m", "ub")        # converted to int by job_shop_scheduling


class GenScn:
    def __init__(self, sid, S):
        self.id, self.S, self.steps = sid, S, []

    def json(self):
        return {"id": self.id, "S": self.S, "flags": "", "steps": self.steps}

    def call(self, rng, name, a, assign=(), junk=None):
        """junk: {parameter: value} replaced in the call itself"""
        S = self.S

        def real(x):
            if isinstance(x, list): return [real(y) for y in x]
            return x // S if x % S == 0 and (S == 1 or rng.random() < .7) else x / S
        kw = {}
        for k, v in a.items():
            kw[PARAM[name][k]] = v if k in UNSCALED else real(v)
        kw.update(junk or {})
        for p in PARAM[name].values():
            if p not in kw and p in ("distances", "locations_x", "locations_y", "depot_x_y", "upper_bound") and rng.random() < .2: kw[p] = None
        narrow = rng.random() < .25
        nps = {k: dtype(rng, v, narrow) for k, v in kw.items() if isinstance(v, list) and (narrow or rng.random() < .5) and k not in (junk or {})}
        self.steps.append({"e": "gen", "name": name, "a": a, "kw": kw, "np": nps, "assign": list(assign), "junk": int(bool(junk))})


def flatten(v):
    return [y for x in v for y in flatten(x)] if isinstance(v, list) else [v]


def dtype(rng, v, narrow):
    """a NumPy type that holds the values exactly (junk only gets the default one)"""
    xs = flatten(v)
    if not narrow and rng.random() < .6 or not xs or not all(type(x) in (int, float) and abs(x) < 2 ** 20 for x in xs): return rng.choice(["", "", "F", "ro"])
    out = ["float32", "longdouble"]
    if all(x == int(x) for x in xs):
        lo, hi = min(xs), max(xs)
        out += ["int32", "int64"] + ["u%s" % t for t, m in (("int8", 256), ("int16", 65536), ("int32", 2 ** 32), ("int64", 2 ** 62)) if lo >= 0 and hi < m]
        out += [t for t, m in (("int8", 128), ("int16", 32768)) if -m <= lo and hi < m]
        if narrow: return rng.choice([t for t in out if t in ("uint8", "int8")] or ["uint16" if "uint16" in out else "int32"])
    return rng.choice(out)


def sub(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs[:rng.randint(0, len(xs))]


def perm(rng, n):
    xs = list(range(n))
    rng.shuffle(xs)
    return xs


def split(rng, n, k, cap=None):
    """a partition of range(n) into k ordered lists"""
    while True:
        out = [[] for _ in range(k)]
        skew = rng.random() < .3
        for x in perm(rng, n): out[0 if skew and rng.random() < .6 else rng.randrange(k)].append(x)
        if cap is None or all(len(r) <= cap for r in out): return out
        if rng.random() < .2:       # balanced
            out = [[] for _ in range(k)]
            for i, x in enumerate(perm(rng, n)): out[i % k].append(x)
            return out


def matrix(rng, n, m=None, hi=9, sym=None):
    m = n if m is None else m
    a = [[rng.randint(0, hi) for _ in range(m)] for _ in range(n)]
    if sym:
        for i in range(n):
            a[i][i] = 0
            for j in range(i): a[i][j] = a[j][i]
    return a


def instance(rng, name, S):
    """a valid instance and assignments of its decision"""
    runs = rng.randint(3, 8)
    if name == "bin_packing":
        n = rng.choice([1, 2, 3, 4, 5])
        w = [rng.randint(0, 8) for _ in range(n)]
        a = {"w": w, "cap": max(1, max(w) + rng.choice([0, 0, 1, 4, 9]))}
        asg = []
        for _ in range(runs):
            x = [[0] * n for _ in range(n)]
            k = rng.randint(1, n)
            for i in range(n): x[rng.randrange(k)][i] = 1
            rng.shuffle(x)
            asg.append(x)
        return a, asg
    if name == "knapsack":
        n = rng.choice([1, 2, 3, 5, 8])
        w = [rng.randint(0, 8) for _ in range(n)]
        return {"w": w, "v": [rng.randint(0, 9) for _ in range(n)], "cap": rng.randint(1, 6 + sum(w) // 2)}, [sub(rng, range(n)) for _ in range(runs)]
    if name == "quadratic_assignment":
        n = rng.choice([1, 2, 3, 4, 5])
        flow = [[S * x for x in r] for r in matrix(rng, n, hi=6)]
        return {"dist": matrix(rng, n, sym=rng.random() < .3), "flow": flow}, [perm(rng, n) for _ in range(runs)]
    if name == "traveling_salesperson":
        n = rng.choice([1, 2, 3, 4, 6])
        return {"dist": matrix(rng, n, sym=rng.random() < .3, hi=20)}, [perm(rng, n) for _ in range(runs)]
    if name == "flow_shop_scheduling":
        n, m = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4])
        return {"t": matrix(rng, m, n, hi=8)}, [perm(rng, n) for _ in range(runs)]
    if name == "job_shop_scheduling":
        n, m = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3])
        base = rng.choice([0, 1])
        t = [[S * x for x in r] for r in matrix(rng, n, m, hi=5)]
        a = {"t": t, "m": [[x + base for x in perm(rng, m)] for _ in range(n)]}
        total = sum(map(sum, t)) // S
        ub = total
        if rng.random() < .5 or total == 0:
            ub = rng.choice([max(1, total), total + 4, max(1, total // 2)])
            a["ub"] = S * ub
        asg = []
        for _ in range(runs):
            x = [0] * (n * m)
            if rng.random() < .65:      # a schedule, built greedily; sometimes broken afterwards
                jobfree, machfree, nxt = [0] * n, [0] * m, [0] * n
                while True:
                    todo = [j for j in range(n) if nxt[j] < m]
                    if not todo: break
                    j = rng.choice(todo)
                    k = a["m"][j][nxt[j]] - base
                    st = max(jobfree[j], machfree[k]) + (rng.random() < .1)
                    x[j * m + k] = st
                    jobfree[j] = machfree[k] = st + t[j][k] // S
                    nxt[j] += 1
                if rng.random() < .45:
                    i = rng.randrange(n * m)
                    x[i] += rng.choice([-1, -1, 1, -2])
                x = [min(ub, max(0, v)) for v in x]
            else:
                x = [rng.randint(0, ub) for _ in x]
            asg.append(x)
        return a, asg
    n = rng.choice([1, 2, 3, 4, 5])
    nv = rng.choice([1, 2, 2, 3, 4])
    if name == "capacitated_vehicle_routing":
        dem = [rng.randint(1, 6) for _ in range(n)]
        cap = max(-(-sum(dem) // nv), rng.randint(1, sum(dem) + 2))
        form = rng.choice(["dist", "dist", "xy", "depot"])
        if form == "dist":
            a = {"dem": [0] + dem, "dist": matrix(rng, n + 1, sym=rng.random() < .3)}
        else:
            if rng.random() < .7:       # on a line of slope 4/3, or on an axis: distances are whole
                u = rng.choice([(3, 4), (4, 3), (0, 1), (1, 0), (-3, 4)])
                pts = [(u[0] * k, u[1] * k) for k in (rng.randint(-4, 4) for _ in range(n + 1))]
            else:                       # corners of a 3x4 rectangle
                pts = [rng.choice([(0, 0), (3, 0), (0, 4), (3, 4)]) for _ in range(n + 1)]
            off = (rng.randint(-5, 5), rng.randint(-5, 5)) if rng.random() < .6 else (rng.randint(20, 30), rng.randint(20, 90))
            pts = [(x + off[0], y + off[1]) for x, y in pts]
            if form == "depot":
                a = {"dem": dem, "lx": [p[0] for p in pts[1:]], "ly": [p[1] for p in pts[1:]], "depot": list(pts[0])}
            else:
                a = {"dem": [0] + dem, "lx": [p[0] for p in pts], "ly": [p[1] for p in pts]}
        a.update(nv=nv, cap=cap)
        return a, [split(rng, n, nv) for _ in range(runs)]
    # with time windows; longer routes than this are the recorded finding
    limit = 3 * max(1, n // nv)
    dem = [rng.randint(1, 6) for _ in range(n)]
    cap = max(-(-sum(dem) // nv), rng.randint(1, sum(dem) + 2), sum(dem) * (rng.random() < .5))
    op = [0] + [rng.randint(0, 8) for _ in range(n)]
    wide = rng.choice([2, 5, 10, 20, 40])
    cl = [rng.randint(10, 40)] + [o + rng.randint(0, wide) for o in op[1:]]
    svc = [0] + [rng.randint(0, 3) for _ in range(n)]
    if rng.random() < .1:
        big = 3000000
        op, cl = [0] + [o + big for o in op[1:]], [cl[0] + big] + [c + big for c in cl[1:]]
    a = {"dem": [0] + dem, "nv": nv, "cap": cap, "dist": matrix(rng, n + 1, hi=rng.choice([3, 6, 9]), sym=rng.random() < .3), "open": op, "close": cl, "svc": svc}
    return a, [split(rng, n, nv, limit) for _ in range(runs)]


def spoil(rng, name, a, S):
    """an instance that is usually invalid, and junk values for the call"""
    a = {k: ([list(r) if isinstance(r, list) else r for r in v] if isinstance(v, list) else v) for k, v in a.items()}
    k = rng.choice(list(a))
    v = a[k]
    c = rng.random()
    if c < .3:
        junk = rng.choice(["abc", [["x"]], None, [float("nan")], [[float("inf")]], [[[1, 2]]], {"a": 1}])
        if k in ("cap", "nv", "ub", "depot"): junk = {"cap": -1, "nv": 1.5, "ub": "z", "depot": "x"}[k]
        elif junk is None and k in ("dist", "lx", "ly"): junk = "abc"
        return a, {PARAM[name][k]: junk}
    if isinstance(v, int):
        if k == "nv": a[k] = rng.choice([0, -1, v])
        elif k == "ub": a[k] = rng.choice([0, -S])
        else: a[k] = rng.choice([0, -1, 1])
    elif k == "m":
        r = rng.randrange(len(v))
        c = rng.randrange(4)
        if c == 0: v[r] = [x + 1 for x in v[r]]
        elif c == 1 and len(v[r]) > 1: v[r][0] = v[r][1]
        elif c == 2: v.pop()
        else: v[r][0] = -1
    elif v and isinstance(v[0], list):
        c = rng.randrange(4)
        r = rng.randrange(len(v))
        if c == 0 and v[r]: v[r][rng.randrange(len(v[r]))] = -S
        elif c == 1 and v[r]: v[r].pop()
        elif c == 2 and len(v) > 1: v.pop()
        else: v.append(list(v[0]))
    elif k == "depot":
        del a[k]
    else:
        c = rng.randrange(5)
        if c == 0: v[rng.randrange(len(v))] = -1
        elif c == 1 and len(v) > 1: v.pop()
        elif c == 2: v.append(1)
        elif c == 3: v[rng.randrange(len(v))] = 0
        else: v[0] = 1
    if name == "capacitated_vehicle_routing" and rng.random() < .25:
        if "dist" in a: a["lx"] = [0] * len(a["dem"])
        else: a["depot"] = [0, 0]
    return a, None


def cqm(rng, s):
    """a constrained quadratic model over binary variables"""
    n = rng.choice([1, 2, 3, 4, 5])

    def poly(need):
        vs = sub(rng, range(n)) or ([rng.randrange(n)] if need else [])
        quad = []
        if len(vs) > 1 and rng.random() < .6:
            for _ in range(rng.randint(1, 3)):
                u, v = rng.sample(vs, 2)
                quad.append([u, v, rng.choice([-3, -1, 1, 2, 5])])
        return {"lin": [[v, rng.choice([-4, -2, -1, 0, 1, 3])] for v in vs], "quad": quad, "off": rng.choice([0, 0, 1, -2])}
    cons = [dict(poly(True), sense=rng.choice(["==", "<=", ">="]), rhs=rng.randint(-4, 5)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    a = {"n": n, "obj": poly(False), "cons": cons}
    s.steps.append({"e": "gen", "name": "cqm", "a": a, "kw": {}, "np": [], "assign": [[rng.randrange(2) for _ in range(n)] for _ in range(rng.randint(3, 8))], "junk": 0})


def gens(seed, sid):
    rng = random.Random(seed)
    S = rng.choice([1, 1, 2, 4])
    s = GenScn(sid, S)
    if rng.random() < .15:
        cqm(rng, s)
        cqm(rng, s)
        return s
    for _ in range(rng.choice([2, 3])):
        name = rng.choice(list(PARAM) + ["capacitated_vehicle_routing_with_time_windows", "job_shop_scheduling"])
        a, asg = instance(rng, name, S)
        # at least one dimension is needed for an array of rows to say how many columns it has
        s.call(rng, name, a, asg)
        if rng.random() < .7:
            b, junk = spoil(rng, name, a, S)
            if all(x != [] and x != [[]] and not (isinstance(x, list) and x and isinstance(x[0], list) and not all(x)) for x in b.values()):
                s.call(rng, name, b, [], junk)
    return s

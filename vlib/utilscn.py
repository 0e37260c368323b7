"""Inputs and iterator histories for the array utilities (C19)."""
import json
import os
import random
import subprocess

from . import core, engine
from .gen import NONE, prod

NANV = 2000000001


class UScn:
    def __init__(self, sid):
        self.id, self.lines, self.steps = sid, [], []

    def do(self, rec, *words):
        self.steps.append(rec)
        self.lines.append(" ".join(str(w) for w in words))

    def text(self):
        return "S %d\n%s\nZ\n" % (self.id, "\n".join(self.lines))


def vec(v):
    return " ".join(map(str, [len(v)] + list(v)))


def mem(s, r):
    kind = r.choice(["contiguous", "masked", "strided", "strided", "strided"])
    sh, st, mask, base = [], [], [], r.choice([0, 0, 3])
    if kind == "strided":
        nd = r.choice([1, 1, 2, 2, 3, 4])
        sh = [r.choice([1, 2, 2, 3, 4, 5]) for _ in range(nd)]
        if r.random() < .08: sh[r.randrange(nd)] = 0
        st = [0] * nd
        need = 1
        for k in reversed(range(nd)):
            st[k] = need + r.choice([0, 0, 0, 1, 2, need])
            need = st[k] * max(1, sh[k])
        n = need + base + 2
        if r.random() < .25:
            # backwards along some axes; the first element moves to the other end
            for k in range(nd):
                if r.random() < .5:
                    base += st[k] * max(0, sh[k] - 1)
                    st[k] = -st[k]
        size = prod(sh)
    else:
        n = r.choice([0, 1, 2, 5, 8])
        size = n
        n += base
        if kind == "masked":
            mask = [r.choice([0, 0, 1]) for _ in range(size)]
            mask += [0] * (1 if not mask else 0)
    s.do({"e": "mem", "kind": kind, "n": size if kind != "strided" else n, "base": base, "sh": sh, "st": st, "mask": mask},
         "mem", kind, n + 1, base, vec(sh), vec(st), vec(mask))
    q = [0, 0, 0]
    for _ in range(r.randint(6, 25)):
        a, b = r.randrange(3), r.randrange(3)
        k = 0
        op = r.choice(["inc", "dec", "pinc", "pdec", "add", "add", "sub", "plus", "rplus", "minus", "copy", "at", "dist", "dist", "cmp", "cmp", "begin", "walk", "back"])
        p = q[a]
        if op in ("pinc", "pdec") and a == b: continue
        if op in ("inc", "pinc"):
            if p >= size: continue
        elif op in ("dec", "pdec"):
            if p <= 0: continue
        elif op in ("add", "plus", "rplus"): k = r.randint(-p, size - p)
        elif op in ("sub", "minus"): k = r.randint(p - size, p)
        elif op == "at":
            if not size: continue
            k = r.randint(0, size - 1) - p
        elif op == "walk": k = r.randint(0, size - p)
        elif op == "back": k = r.randint(0, p)
        if op in ("inc", "pinc"): q2 = p + 1
        elif op in ("dec", "pdec"): q2 = p - 1
        elif op == "add": q2 = p + k
        elif op == "sub": q2 = p - k
        elif op == "begin": q2 = 0
        else: q2 = p
        if op in ("pinc", "pdec", "copy"): q[b] = p
        elif op in ("plus", "rplus"): q[b] = p + k
        elif op == "minus": q[b] = p - k
        if op not in ("plus", "rplus", "minus", "copy"): q[a] = q2
        read = sum(1 << j for j in range(3) if 0 <= q[j] < size)
        s.do({"e": "it", "op": op, "a": a, "b": b, "k": k}, "it", op, a, b, k, read)


def dedup(s, r):
    """a diff as nodes build it: changes, placements and removals at the end of an array"""
    arr = [r.randint(0, 3) for _ in range(r.choice([0, 1, 2, 4]))]
    d = []
    for _ in range(r.choice([0, 1, 2, 5, 9, 14])):
        c = r.random()
        if c < .55 and arr:
            i = r.randrange(len(arr))
            v = r.randint(0, 3)
            d.append([i, arr[i], v])
            arr[i] = v
        elif c < .78:
            v = r.randint(0, 3)
            d.append([len(arr), NANV, v])
            arr.append(v)
        elif arr:
            d.append([len(arr) - 1, arr.pop(), NANV])
    s.do({"e": "dedup", "d": d}, "dedup", len(d), " ".join("%d %d %d" % tuple(u) for u in d))


def frac(s, r):
    n, den = r.randint(-12, 12), r.choice([NONE, 1, 2, 3, 4, 6, -1, -2, -6, 0 if r.random() < .1 else 5])
    ops = []
    num, dd = n, (1 if den == NONE else den)
    for _ in range(r.choice([0, 1, 3, 5])):
        o = r.choice(["m", "M", "d", "D", "f"])
        x, y = r.choice([-6, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6]), r.choice([1, 2, 3, -2, 4, 6])
        if r.random() < .06: x = 0
        ops.append([o, x, y])
    s.do({"e": "frac", "num": n, "den": den, "ops": ops}, "frac", n, den, len(ops), " ".join("%s %d %d" % tuple(o) for o in ops))


def utils(seed, sid):
    r = random.Random(seed)
    s = UScn(sid)
    for _ in range(r.choice([4, 8])):
        c = r.randrange(8)
        if c == 0:
            n = r.choice([0, 1, 2, 3, 5, 7, 7, -1])
            pick = lambda: r.choice([NONE, r.randint(-9, 9)])
            o = [pick(), pick(), r.choice([NONE, 1, 2, 3, -1, -2, -3, 7, -7, 0 if r.random() < .2 else 1])]
            s.do({"e": "slice", "o": o, "n": n}, "slice", *o, n)
        elif c == 1:
            a = [r.choice([0, 1, 1, 2, 3]) for _ in range(r.randint(0, 4))]
            b = [r.choice([0, 1, 1, 2, 3]) for _ in range(r.randint(0, 4))]
            if r.random() < .6 and a:
                b = [x if r.random() < .6 else 1 for x in a][r.randint(0, len(a)):]
                if r.random() < .4: a, b = b, a
                if r.random() < .3: a = [1 if r.random() < .4 else x for x in a]
            s.do({"e": "bshape", "a": a, "b": b}, "bshape", vec(a), vec(b))
        elif c == 2:
            sh = [r.choice([1, 2, 3, 4]) for _ in range(r.randint(0, 4))]
            x = r.randrange(prod(sh))
            s.do({"e": "unravel", "sh": sh, "x": x}, "unravel", vec(sh), x)
            ix = [r.randrange(n) for n in sh]
            s.do({"e": "ravel", "sh": sh, "x": ix}, "ravel", vec(sh), vec(ix))
        elif c == 3:
            S = r.choice([1, 2, 4, 8])
            v = r.randint(-30, 30) * r.choice([1, 1, S])
            s.do({"e": "integer", "v": v, "S": S}, "integer", v, S)
        elif c == 4: dedup(s, r)
        elif c == 5:
            val = lambda: NANV if r.random() < .3 else r.randint(0, 2)
            u, w = [r.randint(0, 2), val(), val()], [r.randint(0, 2), val(), val()]
            if r.random() < .3: w = list(u)
            s.do({"e": "update", "u": u, "w": w}, "update", u[0], w[0], u[1], u[2], w[1], w[2])
        elif c == 6:
            hi = r.choice([1, 3, 20])
            x = [r.randint(-hi if r.random() < .5 else 1, hi) for _ in range(r.choice([0, 3, 10, 40]))]
            sign = r.choice([1, -1])
            s.do({"e": "kahan", "sign": sign, "x": x}, "kahan", sign, vec(x))
        else: frac(s, r)
    dedup(s, r)
    mem(s, r)
    return s


CFG = """SPECIFICATION TraceSpec
CONSTANT Prop = "C19"
INVARIANT Conforms
INVARIANT InRange
"""


def execute(binary, scns):
    d = core.sub("util")
    a, b = os.path.join(d, "in.txt"), os.path.join(d, "out.txt")
    with open(a, "w") as fh:
        for s in scns: fh.write(s.text())
    r = subprocess.run([binary, a, b], capture_output=True, text=True)
    if r.returncode: raise core.CheckError("util executor exit %d: %s" % (r.returncode, r.stderr[-2000:]))
    res = {}
    with open(b) as fh:
        for line in fh:
            rec = json.loads(line)
            res[rec["id"]] = rec
    return res


def merge(s, rec):
    steps = []
    for st, ob in zip(s.steps, rec["steps"]):
        m = dict(st)
        m.update(ob)
        steps.append(m)
    if rec["sig"]: steps.append({"e": "crash", "exc": 0})
    elif len(rec["steps"]) != len(s.steps): raise core.CheckError("scenario %d: %d steps recorded" % (s.id, len(rec["steps"])))
    return {"id": s.id, "steps": steps}


def check(v, binary, lo, hi, base):
    scns = [utils(base + i, i) for i in range(lo, hi)]
    res = execute(binary, scns)
    for s in scns:
        if s.id in res and res[s.id]["sig"] == 14: res.update(execute(binary, [s]))
    recs = [merge(s, res[s.id]) for s in scns if s.id in res]
    rej, st = engine.validate("C19", recs, name="util", module="UtilTrace", cfg=CFG)
    v.add(states=st["distinct"], transitions=st["distinct"] - len(recs), traces_validated_against_impl=len(recs))
    v.sample({"events": [c["e"] for c in recs[0]["steps"]][:10], "first": recs[0]["steps"][0]})
    by = {s.id: s for s in scns}
    seen = set()
    for sid, step, ev, errs in rej:
        if sid in seen: continue
        seen.add(sid)
        v.violation("scenario %d, step %d (%s): %s" % (sid, step, ev, errs),
                    {"scenario": by[sid].lines, "observed": merge(by[sid], res[sid])["steps"][max(0, step - 1):step], "step": step, "errors": errs})
    return scns

"""Exhaustive exploration of small instances of the specification, and walks through all of their
transitions as scenarios for the real library."""
import collections
import json
import re

from . import core

CFG = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS %s
PROPERTIES %s
"""
EDGE = re.compile(r'^"EDGE (.*)"$', re.M)


def edges(out):
    r = []
    for t in EDGE.findall(out):
        a, e, b = json.loads(t.replace('\\"', '"').replace("\\\\", "\\"))
        r.append((json.dumps(a, sort_keys=True), e, json.dumps(b, sort_keys=True)))
    return r


def explore(module, inst, invs, props, name, timeout=800):
    """(edges, stats); a violated invariant of the specification is an error of the specification"""
    rc, out, st = core.tlc(module, CFG % (" ".join(invs), " ".join(props)), {"instance.json": json.dumps(inst)}, name="mc-" + name, timeout=timeout)
    if rc: raise core.CheckError("TLC on %s/%s (exit %d):\n%s" % (module, name, rc, "\n".join(l for l in out.split("\n") if not l.startswith('"EDGE'))[-3000:]))
    return edges(out), st


def walks(es, start, length):
    """paths from start that together use every edge: [[edge, ...], ...]"""
    succ = collections.defaultdict(list)
    for k, (a, e, b) in enumerate(es): succ[a].append(k)
    left = {a: collections.deque(ks) for a, ks in succ.items()}
    todo = len(es)
    # how to get anywhere from the start: a breadth-first tree
    dist, via = {start: 0}, {}
    q = collections.deque([start])
    while q:
        a = q.popleft()
        for k in succ[a]:
            b = es[k][2]
            if b not in dist: dist[b], via[b] = dist[a] + 1, k; q.append(b)
    order = sorted(dist, key=dist.get)
    pos = 0
    paths = []

    def near(a, limit=6):
        """the shortest way from a to a state with unused edges (or None)"""
        seen, q = {a}, collections.deque([(a, ())])
        while q:
            x, p = q.popleft()
            if left.get(x): return list(p)
            if len(p) >= limit: continue
            for k in succ[x]:
                y = es[k][2]
                if y not in seen: seen.add(y); q.append((y, p + (k,)))
            if len(seen) > 4000: return None
        return None

    while todo:
        while pos < len(order) and not left.get(order[pos]): pos += 1
        if pos == len(order): break
        x, path = order[pos], []
        while x != start: path.append(via[x]); x = es[via[x]][0]
        path.reverse()
        x = order[pos]
        while len(path) < length:
            if not left.get(x):
                p = near(x)
                if p is None: break
                path += p
                if p: x = es[p[-1]][2]
            k = left[x].popleft(); todo -= 1
            path.append(k); x = es[k][2]
        paths.append([es[k] for k in path])
    return paths

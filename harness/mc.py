"""Explores a small model of the specification exhaustively with TLC, and turns its state graph into histories that
cover every transition, to be replayed on the implementation."""
import collections, json, os, random, re
import tlcrun


class Graph:
    """states are numbers; edges[s][k] = list of (result, next state)"""
    def __init__(self):
        self.edges, self.init = collections.defaultdict(lambda: collections.defaultdict(list)), None

    def count(self):
        return sum(len(l) for d in self.edges.values() for l in d.values())


def explore(module, model, work, timeout=600, depth=None):
    path = os.path.join(work, "model.json")
    with open(path, "w") as f:
        json.dump(dict({k: x for k, x in model.items() if x is not None}, depth=depth or model["depth"]), f)
    rc, out = tlcrun.tlc(module, env={"MODEL": path}, timeout=timeout)
    if rc is None:
        raise RuntimeError("the model %s was not explored in %d s" % (model["name"], timeout))
    if rc != 0:
        k = out.find("Error:")
        b = re.search(r'<<"BROKEN", .*?>>', out, re.S)
        raise RuntimeError("the model %s breaks a law of the specification: %s %s" % (model["name"], b.group(0) if b else "", re.sub(r"<<\"E\".*>>\n", "", out[k:] if k >= 0 else out)[:3000]))
    g = Graph()
    g.init = int(re.search(r'<<"I", (-?\d+)>>', out).group(1))
    for m in re.finditer(r'<<"E", (-?\d+), (\d+), "(\w+)", (-?\d+)>>', out):
        s, k, res, t = int(m.group(1)), int(m.group(2)) - 1, m.group(3), int(m.group(4))
        if (res, t) not in g.edges[s][k]:
            g.edges[s][k].append((res, t))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    g.generated, g.states = int(m.group(1)), int(m.group(2))
    return g


def tours(g, rng, maxlen=60, limit=None, fixed=0):
    """lists of operation numbers that together cover every transition of g (an operation with several outcomes
    counts once); at most about limit operations, fixed more counted for each tour"""
    todo = {s: [k for k in d] for s, d in g.edges.items()}
    for s, l in todo.items():
        rng.shuffle(l)
        # (taken from the end: first what stays in the same state)
        l.sort(key=lambda k: all(t == s for _, t in g.edges[s][k]))
    left = sum(len(l) for l in todo.values())
    out = []
    succ = lambda s, k: rng.choice(g.edges[s][k])[1]
    # shortest ways from the first state, to start tours far away
    way = {g.init: []}
    q = collections.deque([g.init])
    while q:
        s = q.popleft()
        for k in g.edges.get(s, {}):
            if len(g.edges[s][k]) > 1:
                continue
            t = g.edges[s][k][0][1]
            if t not in way:
                way[t] = way[s] + [k]
                q.append(t)
    while left > 0 and (limit is None or sum(map(len, out)) + fixed * len(out) < limit):
        s, tour = g.init, []
        while len(tour) < maxlen and left > 0:
            if todo.get(s):
                k = todo[s].pop()
                left -= 1
                tour.append(k)
                s = succ(s, k)
                continue
            # the nearest state with something left to do
            prev, q, goal = {s: None}, collections.deque([s]), None
            while q:
                u = q.popleft()
                if todo.get(u):
                    goal = u
                    break
                for k, l in g.edges.get(u, {}).items():
                    if len(l) == 1 and l[0][1] not in prev:
                        prev[l[0][1]] = (u, k)
                        q.append(l[0][1])
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                u, k = prev[goal]
                path.append(k)
                goal = u
            if tour and len(tour) + len(path) > maxlen:
                break
            tour += reversed(path)
            for k in reversed(path):
                s = g.edges[s][k][0][1]
        if not tour:
            break
        out.append(tour)
    return out, left

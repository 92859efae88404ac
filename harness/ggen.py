"""Histories of the graph: random walks that build, prune, traverse and search small graphs."""
import collections
from session import Session


class GraphGen:
    def __init__(self, sess, rng, prof, cov):
        self.s, self.r, self.prof, self.cov = sess, rng, prof, cov
        self.events, self.V, self.E, self.dead = [], {}, {}, False
        self.gone_v, self.gone_e = [], []
        self.next_x = 1

    def send(self, ev):
        r = self.s.send(ev)
        r.pop("msg", None)
        self.events.append(r)
        self.cov[("graph", ev["op"], "", r["res"])] += 1
        if r["res"] in ("crash", "hang"):
            self.dead = True
            return r
        o = r["o"]
        self.gone_v += [int(k) for k in self.V if k not in o["V"]]
        self.gone_e += [int(k) for k in self.E if k not in o["E"]]
        self.V, self.E = o["V"], o["E"]
        return r

    def vertex(self, wrong=0.06):
        r = self.r
        if r.random() < wrong or not self.V:
            return r.choice(self.gone_v[-4:] + [len(self.V) + r.randrange(6), 50])
        return int(r.choice(list(self.V)))

    def edge(self, wrong=0.08):
        r = self.r
        if r.random() < wrong or not self.E:
            return r.choice(self.gone_e[-4:] + [len(self.E) + r.randrange(4), 60])
        return int(r.choice(list(self.E)))

    def obj(self):
        self.next_x += 1
        return self.r.choice([self.next_x, self.next_x, self.next_x, -1, 3])

    def some(self, xs, p):
        return [x for x in xs if self.r.random() < p]

    def step(self):
        r, p = self.r, self.prof
        big = len(self.V) >= p["maxv"]
        full = len(self.E) >= p["maxe"]
        w = dict(addV=0.5 if big else 5, addVi=0.5 if big else 3, addE=0.3 if full else 9, rmE=5 if full else 3, rmV=4 if big else 2.5, setV=4, rmAllE=.15, rmAllV=.3, rmIso=.8,
                 getE=.7, getV=.7, trav=6, paths=5, between=1.5)
        op = r.choices(list(w), list(w.values()))[0]
        ev = {"op": op}
        if op == "addVi":
            ev["v"] = r.choice([self.vertex(0), len(self.V) + r.randrange(4), r.randrange(p["maxv"] + 6)] + self.gone_v[-3:])
        elif op == "addE":
            a = self.vertex()
            ev.update(a=a, b=a if r.random() < .05 else self.vertex(), x=self.obj())
        elif op in ("rmE", "getE"):
            ev["e"] = self.edge()
        elif op in ("rmV", "getV"):
            ev["v"] = self.vertex(.15)
            if op == "rmV" and r.random() < .5 and self.V:
                free = [int(v) for v in self.V if all(int(v) not in (e["a"], e["b"]) for e in self.E.values())]
                if free:
                    ev["v"] = r.choice(free)
        elif op == "setV":
            ev.update(v=self.vertex(), x=self.obj())
        elif op == "trav":
            ev["v"] = v = self.vertex(.04)
            ev["stopE"] = self.some([int(e) for e in self.E], r.choice([0, .1, .3]))
            ev["stopV"] = [x for x in self.some([int(x) for x in self.V], r.choice([0, .1, .3])) if x != v]
            ev["met"] = [x for x in self.some([int(x) for x in self.V], r.choice([0, 0, .2])) if x != v]
        elif op == "paths":
            ev["v"] = self.vertex(.04)
            ev["to"] = self.some([x for x in self.V.values()], .3)
            ev["noE"] = self.some([e["x"] for e in self.E.values()], r.choice([0, .1, .3]))
        elif op == "between":
            ev.update(a=self.vertex(.04), b=self.vertex(.04))
            if self.E and r.random() < .7:
                e = r.choice(list(self.E.values()))
                ev.update(a=e["b"], b=e["a"])
        self.send(ev)

    def run(self, steps):
        self.send({"op": "reset"})
        for _ in range(steps):
            if self.dead:
                return
            self.step()


def gen_graph(args):
    import random
    drv, name, prof, seeds, steps, env = args
    cov = collections.Counter()
    s = Session(drv, mode="graph", timeout=60, env=env)
    out = []
    try:
        for sd, _ in seeds:
            g = GraphGen(s, random.Random(sd), prof, cov)
            g.run(steps)
            out.append(g.events)
    finally:
        s.close()
    return name, out, cov

"""What each property's check runs."""
import collections, json, os, random, shutil, subprocess, tempfile
from multiprocessing import Pool
from multiprocessing.pool import ThreadPool
import build, mc, models
from gen import Gen
from ggen import gen_graph
from profiles import CONCURRENT, STORM
from session import Session


def net(c, drv):
    profs = c.profiles()
    # thorough runs go in rounds, so that memory stays bounded
    rounds = 1 if c.tier == "quick" else max(1, max(p[2] for p in profs) // 160)
    for k in range(rounds):
        part = [(n + ("" if k == 0 else "-%d" % k), p, (cnt + rounds - 1) // rounds, s) for n, p, cnt, s in profs]
        tr = c.generate(drv, part)
        c.log("generated", len(tr), "traces,", sum(len(t) for _, t in tr), "events")
        c.examine(drv, tr)
        if c.violations:
            return


TSAN = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_thread_leaks=0"}


def plan_threads(args):
    """histories whose last part runs concurrently: the first part is made step by step, the rest is only planned"""
    drv, name, prof, seed, steps, env = args
    cov = collections.Counter()
    s = Session(drv, timeout=90, env=env)
    out = []
    try:
        for sd, idx in seed:
            r = random.Random(sd)
            g = Gen(s, r, prof, cov, idx)
            # some networks have just been made: they lack most kinds of objects, and have done so all along
            new = r.random() < 0.3
            if new:
                g.prof = dict(prof, tmpl=dict(subs=1, topos=r.choice([["NODE_BREAKER"], ["BUS_BREAKER"], ["NODE_BREAKER", "BUS_BREAKER"]]), kinds=r.choice([[], ["LOAD"], ["GEN"]])))
            g.template()
            if not new:
                g.walk(steps)
            vs = ["w%d" % k for k in range(1, r.choice([2, 3, 4, 4]) + 1)]
            for v in vs:
                g.do({"op": "vclone", "src": g.cur, "tgts": [v], "ow": False, "single": False})
            g.do({"op": "vmt", "on": True})
            strip = lambda l: [{k: v for k, v in e.items() if k not in ("res", "ret", "o", "msg")} for e in l]
            # half of the networks are not looked at before the threads do (but for the steps that have several right effects)
            blind = new or r.random() < 0.5
            evs = [dict(e, obs="d" if e["op"] in ("con", "dis") else "") if blind else e for e in strip(g.events)]
            for k in range(3):
                r.shuffle(vs)
                # whatever the levels remember of their topology is forgotten, so that the threads find it out together
                cold = new or r.random() < 0.7
                if cold:
                    m = len(g.events)
                    g.do({"op": "vselect", "v": "InitialVariant" if "InitialVariant" in g.vs else g.vs[0]})
                    for vl in g.vls("NODE_BREAKER"):
                        g.widen(vl)
                    evs += [dict(e, obs="") for e in strip(g.events[m:])]
                evs += g.plan_concurrent(vs, prof["conc"], cold)
                evs.append({"op": "obs", "th": 0, "own": "", "obs": "sdatlk"})
            out.append(evs)
    finally:
        s.close()
    return name, out, cov


def run_threads(args):
    """runs planned histories; the recorded events, and what the race detector said"""
    drv, evs, env = args
    d = tempfile.mkdtemp(prefix="iidmthr-")
    try:
        with open(d + "/in", "w") as f:
            f.write("".join(json.dumps(e) + "\n" for e in evs))
        try:
            p = subprocess.run([drv, "threads", d + "/in", d + "/out"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, **(env or {})), timeout=120)
            code, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            code, err = "hang", ""
        got = [json.loads(l) for l in open(d + "/out") if l.strip()] if os.path.exists(d + "/out") else []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for e in got:
        e.pop("msg", None)
    return code, got, err


def threads(c, drv):
    """concurrent runs, judged by the specification, and watched by the race detector"""
    n = 24 if c.tier == "quick" else 300
    planned = [t for _, t in c.generate(drv, [("concurrent", CONCURRENT, n, 6), ("storm", STORM, n // 2, 6)], maker=plan_threads)]
    c.log("planned", len(planned), "concurrent histories")
    for flavour in ("plain", "tsan"):
        exe = drv if flavour == "plain" else build.build(flavour)
        with ThreadPool(3) as p:
            R = p.map(run_threads, [(exe, t, TSAN) for t in planned])
        c.log("ran them with the", flavour, "driver")
        good = []
        for evs, (code, got, err) in zip(planned, R):
            if code == 3:
                raise RuntimeError("the driver rejected a planned history " + err[-400:])
            data = {"property": c.prop, "module": "IidmTrace", "mode": "threads", "flavour": flavour, "script": evs}
            if code == 66 or "WARNING: ThreadSanitizer" in err:
                if len(c.violations) < 3:
                    c.violation("race", dict(data, detail=err[:6000], tags=["race"]))
            elif code != 0:
                if len(c.violations) < 3:
                    c.violation("crash", dict(data, detail="exit %s %s" % (code, err[-2000:]), tags=["crash"]))
            else:
                good.append(("concurrent-" + flavour, got))
        c.examine(exe, good, mode="threads", confirm=False)
        if c.violations:
            return


def play(args):
    """runs tours of a model on the library"""
    drv, name, setup, ops, obs, tours, mode = args
    s = Session(drv, mode=mode, timeout=90)
    out = []
    try:
        for tour in tours:
            evs = []
            for k, e in enumerate([{"op": "reset"}] + setup + [ops[i] for i in tour]):
                e = {f: x for f, x in e.items() if f not in ("res", "ret")}
                if mode == "net":
                    e["obs"] = "sdatl" if e["op"] == "xml" else obs if k > len(setup) else "sda" if k == len(setup) else ""
                r = s.send(e)
                r.pop("msg", None)
                evs.append(r)
                if r["res"] in ("crash", "hang"):
                    break
            out.append(evs)
    finally:
        s.close()
    return name, out, collections.Counter(("model", e["op"], "", e["res"]) for t in out for e in t)


def exhaustive(c, drv):
    """explores the small models of the property with TLC, checks the laws on every state and step, and replays tours through
    every transition (in quick runs, as many as there is time for) on the library"""
    rng = random.Random("%s-%s" % (c.prop, os.environ.get("VERIF_SEED", "1")))
    quick = c.tier == "quick"
    mode, spec, trace = ("graph", "MCGraph", "GraphTrace") if c.prop == "G01" else ("net", "MC", "IidmTrace")
    rep = c.cover.setdefault("exhaustive_models", [])
    for m in models.M[c.prop]:
        for depth in ([m["depth"]] if quick or not m["thorough"] or m["thorough"] < 2 else [m["thorough"]]):
            g = mc.explore(spec, m, c.work, timeout=600 if quick else 3000, depth=depth)
            n = sum(len(d) for d in g.edges.values())
            limit = (m.get("limit") or 8000 // len(models.M[c.prop])) if quick else 60000
            ts, left = mc.tours(g, rng, limit=limit, fixed=len(m["setup"]) + 1)
            c.log("model '%s': %d states, %d transitions, the laws hold; %d of %d steps to replay in %d tours" % (m["name"], g.states, g.count(), n - left, n, len(ts)))
            rep.append({"model": m["name"], "states": g.states, "transitions": g.count(), "depth": depth if depth < 1000 else "complete", "steps": n, "steps_replayed": n - left, "tours": len(ts)})
            per = max(1, (len(ts) + 23) // 24)
            with Pool(8) as p:
                R = p.map(play, [(drv, m["name"], m["setup"], m["ops"], m["obs"], ts[a:a + per], mode) for a in range(0, len(ts), per)], chunksize=1)
            tr = []
            for name, out, cov in R:
                c.cov += cov
                tr += [(name, t) for t in out]
            # rounds, so that memory stays bounded
            for a in range(0, len(tr), 1500):
                c.examine(drv, tr[a:a + 1500], module=trace, mode=mode)
                if c.violations:
                    return


def graph(c, drv):
    mult = 1 if c.tier == "quick" else 12
    for k in range(mult):
        tr = c.generate(drv, [("graph-%d-%d" % (v, k), dict(maxv=v, maxe=e), n, s) for v, e, n, s in ((4, 6, 120, 60), (6, 9, 160, 60), (9, 12, 100, 60), (14, 16, 60, 80))], maker=gen_graph)
        c.log("generated", len(tr), "histories of the graph,", sum(len(t) for _, t in tr), "events")
        c.examine(drv, tr, module="GraphTrace", mode="graph")
        if c.violations:
            return


ENGINES = {p: {"run": [exhaustive, net]} for p in ("V01", "V02", "V03", "I01", "A01", "E01", "K01", "T01", "T02", "C01", "S01", "W01", "R01", "L01", "Q01", "M01", "P01", "X01", "X02", "X03", "X04", "X05")}
ENGINES["V03"] = {"run": [exhaustive, net, threads]}
ENGINES["G01"] = {"run": [exhaustive, graph]}


def run(c, drv):
    for f in ENGINES[c.prop]["run"]:
        f(c, drv)
        if c.violations:
            return

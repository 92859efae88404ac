#!/usr/bin/env python3
"""python3 check.py <PROPERTY> quick|thorough     decides a property
   python3 check.py replay <file>                  runs a recorded history again and judges it"""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import attrib, build, tlcrun
from gen import Gen
from profiles import PROFILES
from session import Session
from trace import compress

SEED = int(os.environ.get("VERIF_SEED", "1"))
SRCKEYS = ("res", "ret", "o", "msg")


def script(events):
    return [{k: v for k, v in e.items() if k not in SRCKEYS} for e in events]


# ------------------------------------------------------------------ generation
def gen_net(args):
    drv, name, prof, seed, steps, env = args
    cov = collections.Counter()
    s = Session(drv, timeout=90, env=env)
    out = []
    try:
        for sd, idx in seed:
            g = Gen(s, random.Random(sd), prof, cov, idx)
            g.template()
            g.walk(steps)
            out.append(g.events)
    finally:
        s.close()
    return name, out, cov


def run_script(drv, evs, mode="net", env=None):
    s = Session(drv, mode=mode, timeout=90, env=env)
    out = []
    try:
        for e in evs:
            r = s.send(dict(e))
            r.pop("msg", None)
            out.append(r)
            if r["res"] in ("crash", "hang"):
                break
    finally:
        s.close()
    return out


# ------------------------------------------------------------------ judging
def judge(module, traces, timeout, work):
    """traces: list of event lists, each starting with reset -> (results, stats); results[i] = None (fine) or (index, tags, detail)"""
    res = [None] * len(traces)
    stats = {"states": 0, "known": {}, "errors": []}
    pending = list(range(len(traces)))
    for attempt in range(12):
        if not pending:
            break
        path = os.path.join(work, "trace-%d.ndjson" % attempt)
        start = {}
        n = 1
        with open(path, "w") as f:
            for t in pending:
                start[n] = t
                for l in compress(traces[t]):
                    f.write(l + "\n")
                    n += 1
        r = tlcrun.trace_check(module, path, timeout=timeout)
        if r["error"] is None:
            stats["states"] += r["states"]
            for k, v in r["known"].items():
                stats["known"][k] = stats["known"].get(k, 0) + v
            for s, t in start.items():
                if s in r["diverge"]:
                    i, tags, det = r["diverge"][s]
                    res[t] = (i - s, tags, det)
                elif s not in r["done"]:
                    raise RuntimeError("trace %d was not judged: %s" % (t, r["out"][-2000:]))
            return res, stats
        if r["error"] == "timeout" or "where" not in r:
            raise RuntimeError("TLC: " + r["error"])
        s, i = r["where"]
        t = start[s]
        res[t] = (i - s, ["projerr"], "the specification cannot read this step: " + r["error"][:1500])
        stats["errors"].append(r["error"][:300])
        pending.remove(t)
    return res, stats


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (history|call)=(\S+) expect=(\S+) (.*)", l.strip())
            if m:
                out.append(dict(prop=m.group(1), kind=m.group(2), what=m.group(3), expect=m.group(4), text=m.group(5)))
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="iidmcheck-")
        self.cover = collections.OrderedDict()
        self.violations, self.foreign = [], collections.Counter()
        self.states = self.transitions = self.ntraces = 0
        self.samples = []
        self.cov = collections.Counter()
        self.notes = []

    def log(self, *a):
        print("[%5.1f]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, kind, data):
        d = os.path.join(HERE, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, kind, len(self.violations)))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append(p)
        self.log("violation:", json.dumps({k: v for k, v in data.items() if k != "script"})[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    # -------------------------------------------------------------- recorded executions
    def profiles(self):
        mult = 1 if self.tier == "quick" else 14
        return [(n, p, c * mult, s) for n, p, c, s in PROFILES[self.prop]]

    def generate(self, drv, profs, procs=8, env=None, maker=None):
        jobs = []
        for name, prof, count, steps in profs:
            seeds = [(SEED * 1000003 + k * 17 + sum(map(ord, name + self.prop)) * 7919, (k, count)) for k in range(count)]
            per = 7
            for a in range(0, count, per):
                jobs.append((drv, name, prof, seeds[a:a + per], steps, env))
        with Pool(procs) as p:
            R = p.map(maker or gen_net, jobs, chunksize=1)
        traces = []
        for name, out, cov in R:
            self.cov += cov
            traces += [(name, t) for t in out]
        return traces

    def examine(self, drv, traces, module="IidmTrace", mode="net", confirm=True, env=None):
        """judges recorded traces and reports the divergences that speak about the property"""
        only = [t for _, t in traces]
        budget = 700 if self.tier == "quick" else 7200
        res, stats = judge(module, only, budget, self.work)
        self.states += stats["states"]
        self.transitions += sum(len(t) for t in only)
        self.ntraces += len(only)
        for k, v in stats["known"].items():
            for f in known_findings():
                if f["kind"] == "call" and f["what"] == k and f["prop"] == self.prop:
                    print("KNOWN-FINDING: property=%s %s (%d calls of this run)" % (self.prop, f["text"], v), flush=True)
        for (name, t), r in zip(traces, res):
            if len(self.samples) < 3:
                self.samples.append({"profile": name, "events": len(t), "first": [{k: e[k] for k in e if k not in ("o", "obs", "a", "ends")} for e in t[1:4] + t[-3:]]})
            if r is None:
                continue
            i, tags, det = r
            ps = attrib.props(t, i, tags, self.prop)
            if mode == "threads" and self.prop not in ps and self.alone(drv, script(t), module):
                ps = ps | {self.prop}  # right when the threads take turns, wrong when they do not
            if self.prop not in ps and self.prop != "ALL":
                self.foreign[(t[i]["op"], tuple(sorted(tags))[:3])] += 1
                if sum(self.foreign.values()) <= 5:
                    self.log("note: a divergence that speaks about", sorted(ps), t[i]["op"], sorted(tags)[:5], det[:300])
                continue
            if len(self.violations) >= 3:
                continue
            evs = script(t[:i + 1])
            if confirm:
                again = run_script(drv, evs, mode, env)
                r2, _ = judge(module, [again], 300, self.work)
                if r2[0] is None or (self.prop not in attrib.props(again, r2[0][0], r2[0][1], self.prop) and self.prop != "ALL"):
                    self.notes.append("not reproduced: %s" % (tags,))
                    self.log("note: a divergence was not reproduced", t[i]["op"], tags)
                    continue
                i, tags, det = r2[0]
                t = again
            self.violation("trace", {"property": self.prop, "module": module, "mode": mode, "step": i, "tags": sorted(tags), "detail": det,
                                     "event": {k: v for k, v in t[i].items() if k != "o"}, "speaks_about": sorted(ps), "script": evs})

    def alone(self, drv, evs, module):
        """whether a concurrent history is right when its steps are made one at a time"""
        try:
            t = run_script(drv, evs)
        except Exception as e:
            self.log("note: a concurrent history cannot be made step by step", repr(e)[:200])
            return False
        r, _ = judge(module, [t], 300, self.work)
        return r[0] is None

    def known(self, drv):
        for f in known_findings():
            if f["prop"] != self.prop or f["kind"] != "history":
                continue
            evs = [json.loads(l) for l in open(os.path.join(HERE, f["what"])) if l.strip()]
            t = run_script(drv, evs)
            r, _ = judge("IidmTrace", [t], 300, self.work)
            self.ntraces += 1
            self.transitions += len(t)
            if r[0] is None:
                self.log("the known finding", f["what"], "no longer shows")
            else:
                sig = "%d:%s:%s" % (r[0][0], t[r[0][0]]["op"], ",".join(sorted(r[0][1])))
                if re.fullmatch(f["expect"], sig):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]), flush=True)
                else:
                    self.violation("known", {"property": self.prop, "module": "IidmTrace", "mode": "net", "step": r[0][0], "tags": sorted(r[0][1]), "detail": r[0][2],
                                             "signature": sig, "script": evs})

    def evidence(self, level):
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.ntraces, samples=self.samples or [{"note": "none"}])
        ops = collections.Counter()
        for (op, k, f, res), v in ((s, v) for s, v in self.cov.items() if len(s) == 4):
            ops["%s/%s" % (op, res)] += v
        cov["operations_by_outcome"] = dict(sorted(ops.items()))
        cov["distinct_operation_kinds"] = len([s for s in self.cov if len(s) == 4])
        cov["divergences_about_other_properties"] = sum(self.foreign.values())
        cov.update(self.cover)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": SEED, "level": level, "coverage": cov, "violations": self.violations, "notes": self.notes,
                       "wall_s": round(time.time() - self.t0, 1)}, f, indent=1)

    def run(self):
        try:
            drv = build.build("plain")
            self.log("driver built")
            self.known(drv)
            import engines
            engines.run(self, drv)
            self.evidence("model_checking")
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        self.log("%s %s: %d traces, %d events, %d states, %d violations" % (self.prop, self.tier, self.ntraces, self.transitions, self.states, len(self.violations)))
        return 1 if self.violations else 0


def replay(path):
    d = json.load(open(path))
    drv = build.build(d.get("flavour", "plain"))
    if d["mode"] == "threads":
        import engines
        for k in range(20):
            code, t, err = engines.run_threads((drv, d["script"], engines.TSAN))
            if code != 0:
                print(err[:3000])
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
    else:
        t = run_script(drv, d["script"], d["mode"])
    w = tempfile.mkdtemp(prefix="iidmcheck-")
    try:
        r, _ = judge(d["module"], [t], 600, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    if r[0] is None:
        print("the history agrees with the specification")
        return 0
    i, tags, det = r[0]
    print(json.dumps({"step": i, "event": {k: v for k, v in t[i].items() if k != "o"}, "tags": tags, "detail": det}, indent=1))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")).run())

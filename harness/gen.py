"""Interactive generator: picks the next operation from the observed state of the real network, and records a trace."""
import collections
import copy

NAN, PMAX, NMAX = -1000000000, 1000000001, -1000000001
ODD = 11  # inexact doubles known to the driver
# texts that a document must escape or must not interpret
WILD = ["a<b>&\"c\"'d'", "\u00e9\u00fc\u6f22", "  s p  ", "t\tb\nn", "%1% \\ {}", "]]>", "&amp;&#65;", "x;y", ";", "-1", "NaN", "true"]
INJ = ["LOAD", "GEN", "BAT", "SHU", "SVC", "DL", "LCC", "VSC"]
BRANCH = ["LINE", "TIE", "T2"]
PARTS = ("RTC", "PTC", "LIM", "RL", "EXT", "DLGEN", "LEG", "HALF")
CONN = INJ + ["BBS"] + BRANCH + ["T3"]
LIMT = ["CURRENT", "ACTIVE_POWER", "APPARENT_POWER"]
ENUM = {
    "lt": ["UNDEFINED", "AUXILIARY", "FICTITIOUS"], "es": ["HYDRO", "NUCLEAR", "WIND", "THERMAL", "SOLAR", "OTHER"],
    "svcmode": ["VOLTAGE", "REACTIVE_POWER", "OFF"], "hvdcmode": ["SIDE_1_RECTIFIER_SIDE_2_INVERTER", "SIDE_1_INVERTER_SIDE_2_RECTIFIER"],
    "ptcmode": ["CURRENT_LIMITER", "ACTIVE_POWER_CONTROL", "FIXED_TAP"], "swk": ["BREAKER", "DISCONNECTOR", "LOAD_BREAK_SWITCH"],
    "country": ["FR", "BE", "DE", ""], "str": ["", "a", "bb", "c c"],
}
# fields a setter exists for: kind -> field -> type of value
# n: a number   N: a number or none   p: positive   z: not negative   lo/hi: the low/high end of a range   b: boolean   e:X: enumeration
# attributes an object cannot be read without (the tables of Persist.tla)
CUTQ = {'battery': ['p0', 'q0', 'minP', 'maxP'],
 'busbarSection': ['node'],
 'danglingLine': ['p0', 'q0', 'r', 'x', 'g', 'b'],
 'generator': ['energySource', 'minP', 'maxP', 'targetP'],
 'hvdcLine': ['r', 'nominalV', 'convertersMode', 'activePowerSetpoint', 'maxP'],
 'internalConnection': ['node1', 'node2'],
 'lccConverterStation': ['lossFactor'],
 'line': ['r', 'x', 'g1', 'b1', 'g2', 'b2'],
 'load': ['p0', 'q0'],
 'minMaxReactiveLimits': ['minQ', 'maxQ'],
 'phaseTapChanger': ['lowTapPosition', 'tapPosition', 'regulationMode'],
 'point': ['p', 'minQ', 'maxQ'],
 'ratioTapChanger': ['lowTapPosition', 'tapPosition'],
 'section': ['b', 'g'],
 'shunt': ['sectionCount', 'currentSectionCount'],
 'shuntLinearModel': ['bPerSection', 'maximumSectionCount'],
 'staticVarCompensator': ['bMin', 'bMax', 'regulationMode'],
 'step': ['r', 'x', 'g', 'b', 'rho'],
 'switch': ['kind', 'node1', 'node2'],
 'threeWindingsTransformer': ['r1', 'x1', 'g1', 'b1', 'ratedU1', 'r2', 'x2', 'ratedU2', 'r3', 'x3', 'ratedU3'],
 'tieLine': ['r_1', 'x_1', 'g1_1', 'b1_1', 'r_2', 'x_2', 'g2_2', 'b2_2'],
 'twoWindingsTransformer': ['r', 'x', 'g', 'b', 'ratedU1', 'ratedU2'],
 'voltageLevel': ['nominalV', 'topologyKind'],
 'vscConverterStation': ['lossFactor']}
CUTT = {'generator': ['voltageRegulatorOn'],
 'hvdcLine': ['converterStation1', 'converterStation2'],
 'line': ['voltageLevelId1', 'voltageLevelId2'],
 'property': ['name', 'value'],
 'ratioTapChanger': ['loadTapChangingCapabilities'],
 'switch': ['bus1', 'bus2', 'open', 'retained'],
 'threeWindingsTransformer': ['voltageLevelId1', 'voltageLevelId2', 'voltageLevelId3'],
 'tieLine': ['id_1', 'id_2'],
 'twoWindingsTransformer': ['voltageLevelId1', 'voltageLevelId2'],
 'vscConverterStation': ['voltageRegulatorOn']}
CUTID = ['battery', 'bus', 'busbarSection', 'danglingLine', 'generator', 'hvdcLine', 'lccConverterStation', 'line', 'load', 'shunt', 'staticVarCompensator', 'substation', 'switch',
 'terminalRef', 'threeWindingsTransformer', 'tieLine', 'twoWindingsTransformer', 'voltageLevel', 'vscConverterStation']
CUTEL = {"SUB": ["substation"], "VL": ["voltageLevel", "internalConnection", "property"], "BUS": ["bus"], "BBS": ["busbarSection"], "SW": ["switch"], "LOAD": ["load"],
         "GEN": ["generator"], "BAT": ["battery"], "SHU": ["shunt", "shuntLinearModel", "section"], "SVC": ["staticVarCompensator", "terminalRef"], "DL": ["danglingLine"],
         "LCC": ["lccConverterStation"], "VSC": ["vscConverterStation"], "HVDC": ["hvdcLine"], "LINE": ["line"], "TIE": ["tieLine"], "T2": ["twoWindingsTransformer"],
         "T3": ["threeWindingsTransformer"], "RTC": ["ratioTapChanger", "step", "terminalRef"], "PTC": ["phaseTapChanger", "step"], "RL": ["minMaxReactiveLimits", "point"]}
FIELDS = {
    "SUB": {"tso": "e:str", "country": "e:country", "tag": "tag"},
    "VL": {"nv": "p", "lo": "vlo", "hi": "vhi"},
    "BUS": {"v": "p", "ang": "n"},
    "SW": {"open": "b", "ret": "b"},
    "LOAD": {"lt": "e:lt", "p0": "n", "q0": "n"},
    "GEN": {"minP": "lo", "maxP": "hi", "rs": "P", "es": "e:es", "tp": "n", "tq": "n", "tv": "p", "on": "b", "rt": "rt"},
    "BAT": {"minP": "lo", "maxP": "hi", "p0": "n", "q0": "n"},
    "SHU": {"n": "sec", "on": "b", "tv": "p", "db": "z", "rt": "rt"},
    "SVC": {"bmin": "lo", "bmax": "hi", "vs": "p", "qs": "n", "mode": "e:svcmode", "rt": "rt"},
    "DL": {"p0": "n", "q0": "n", "r": "n", "x": "n", "g": "n", "b": "n"},
    "DLGEN": {"minP": "lo", "maxP": "hi", "tp": "n", "tq": "n", "tv": "p", "on": "b"},
    "LCC": {"loss": "pct", "pf": "pf"},
    "VSC": {"loss": "pct", "on": "b", "tv": "p", "tq": "n"},
    "HVDC": {"r": "n", "nv": "p", "maxP": "z", "p": "z", "mode": "e:hvdcmode"},
    "LINE": {f: "n" for f in ("r", "x", "g1", "b1", "g2", "b2")},
    "TIE": {f: "n" for f in ("r", "x", "g1", "b1", "g2", "b2")},  # refused
    "HALF": dict({f: "h" for f in ("r", "x", "g1", "b1", "g2", "b2")}, fic="b"),
    "T2": {"r": "n", "x": "n", "g": "n", "b": "n", "ru1": "p", "ru2": "p", "rs": "P"},
    "LEG": {"r": "n", "x": "n", "g": "n", "b": "n", "ru": "p", "rs": "P"},
    "LIM": {"perm": "P"},
    "RTC": {"pos": "pos", "low": "low", "reg": "b", "db": "z", "tv": "p", "lt": "b", "rt": "rtt", "step": "step"},
    "PTC": {"pos": "pos", "low": "low", "reg": "b", "db": "z", "rv": "n", "mode": "e:ptcmode", "rt": "rtt", "step": "step"},
    "NET": {"fd": "fd", "date": "date"},
    "MOD": {"bps": "h", "gps": "H", "max": "max", "secb": "h", "secg": "h"},
}
DYN = {"BUS": {"v", "ang"}, "SW": {"open", "ret"}, "LOAD": {"p0", "q0"}, "GEN": {"tp", "tq", "tv", "on"}, "BAT": {"p0", "q0"},
       "SHU": {"n", "on", "tv", "db"}, "SVC": {"vs", "qs", "mode"}, "DL": {"p0", "q0"}, "DLGEN": {"tp", "tq", "tv", "on"},
       "VSC": {"on", "tv", "tq"}, "HVDC": {"p", "mode"}, "RTC": {"pos", "reg", "db", "tv"}, "PTC": {"pos", "reg", "db", "rv"}}
PART = ("LIM", "RL", "RTC", "PTC", "DLGEN", "HALF", "LEG", "EXT")


class Gen:
    def __init__(self, sess, rng, prof, cov=None, idx=(0, 1)):
        self.idx = idx  # which one of how many histories of a profile this is (the sweeps share the work)
        self.lost = []  # names that objects had before they were removed, the last ones
        self.s, self.r, self.prof = sess, rng, prof
        self.cov = cov if cov is not None else collections.Counter()
        self.events, self.dead = [], False
        self.fresh_loss = False
        self.th = 0
        self.nid = 0
        self.slackrefs = set()  # terminals some variant's slack terminal may refer to
        self.do({"op": "reset"}, obs="sd")

    # ---------------------------------------------------------------- plumbing
    def do(self, ev, obs=None):
        ev.setdefault("th", self.th)
        ev.setdefault("own", "")
        if ev["op"] == "add" and ev["k"] == "BBS" and ev["ends"]:
            ev["ends"][0].update(bus="", cbus="")  # its adder knows nothing of buses
        if ev["op"] == "add" and ev["k"] == "BBS" and not self.prof.get("bbs_occupied") and ev["ends"] and ev["ends"][0]["node"] in self.used_nodes(ev["ends"][0]["vl"]):
            ev["ends"][0]["node"] = self.freenode(ev["ends"][0]["vl"])  # known finding of A01, exercised apart
        ev["obs"] = obs if obs is not None else self.prof_obs()
        if "t" in ev and "tc" not in ev:
            c, i = ev["t"].rsplit("/", 1) if "/" in ev["t"] else (ev["t"], "0")
            ev["tc"], ev["ti"] = c, int(i)
        out = self.s.send(ev)
        out.pop("msg", None)
        self.events.append(out)
        if out["res"] in ("crash", "hang"):
            self.dead = True
            return out
        if ev.get("xn", "").startswith("slack") and out["res"] == "ok":
            x = ev["x"] if ev["op"] == "extset" else ev.get("a", {}).get("t", "")
            if ev["xn"] == "slackAttach":
                x = out["ret"]
            if x:
                self.slackrefs.add((x, ev["id"]))
        o = out["o"]
        if not o or "projerr" in o:
            self.dead = "projerr" in o
            return out
        self.vs, self.cur = sorted(o["vs"]), o["cur"]
        if "st" in o:
            if getattr(self, "st", None) and out["res"] == "ok" and ev["op"].startswith("rm"):
                names = [i for i in self.st if i not in o["st"] and "#" not in i] + [a for i in self.al for a in self.al[i] if a not in o["al"].get(i, {})]
                self.lost = (self.lost + sorted(names))[-12:]
                self.fresh_loss = bool(names)
            self.st, self.al, self.pr = o["st"], o["al"], o["pr"]
            self.byk = collections.defaultdict(list)
            for i in sorted(self.st):
                self.byk[self.st[i]["k"]].append(i)
        if "dy" in o and self.cur in o["dy"]:
            self.dy = o["dy"][self.cur]
        if self.prof.get("mt"):
            self.follow_threads(ev, out["res"])
        self.cov[self.sig(ev) + (out["res"],)] += 1
        return out

    @staticmethod
    def sig(ev):
        k = ev.get("k", "") or ev.get("xn", "")
        return (ev["op"], k, ev.get("f", ""))

    def prof_obs(self):
        o = "sd"
        for flag, p in self.prof.get("obs", {}).items():
            if self.r.random() < p:
                o += flag
        if "k" in o and "t" not in o:
            o += "t"
        return o

    def p(self, x):
        return self.r.random() < x

    def one(self, seq, default=None):
        seq = list(seq)
        return self.r.choice(seq) if seq else default

    def fresh(self, k):
        if self.lost and self.prof.get("reuse") and self.p(self.prof["reuse"] * 0.5):
            return self.one(self.lost)
        if self.p(self.prof.get("clash", 0.0)):
            c = self.one(sorted(self.st) + sorted(a for m in self.al.values() for a in m) + [""])
            if "#" not in c:
                return c
        self.nid += 1
        w = self.prof.get("wild")
        if w and self.p(w):
            return "WI%d%s" % (self.nid, self.r.choice([x for x in WILD if "#" not in x]))
        return "%s%d" % ({"SUB": "S", "VL": "V", "LOAD": "LD", "BUS": "B", "LINE": "L"}.get(k, k), self.nid)

    # ---------------------------------------------------------------- values
    def txt(self, *usual):
        w = self.prof.get("wild")
        if w and self.p(w):
            return self.r.choice(WILD)
        return self.r.choice(usual)

    def num(self, ty, pe):
        r = self.r
        if r.random() < pe:
            return r.choice([NAN, 0, -8, 8, NAN, -800, 7] + ([PMAX] if ty not in ("h", "H") else []))
        if ty == "n" and r.random() < self.prof.get("odd", 0):
            return r.choice([1, -1]) * (2000000000 + r.randrange(0, ODD))
        if ty in ("n", "h"):
            return r.choice([1, -1, 1, 1]) * r.randrange(1, 4000)
        if ty in ("N", "H"):
            return r.choice([NAN, r.randrange(1, 4000), r.randrange(1, 4000)])
        if ty in ("p", "hi"):
            return r.randrange(2000, 6000)
        if ty == "P":
            return r.choice([NAN, r.randrange(8, 4000), r.randrange(8, 4000)])
        if ty == "z":
            return r.choice([0, r.randrange(1, 400), r.randrange(1, 400)])
        if ty == "lo":
            return -r.randrange(0, 2000)
        if ty == "vlo":
            return r.choice([NAN, r.randrange(0, 1500)])
        if ty == "vhi":
            return r.choice([NAN, r.randrange(1600, 4000)])
        if ty == "pct":
            return r.choice([0, 800, r.randrange(0, 800), 801 if r.random() < pe else 3])
        if ty == "pf":
            return r.choice([8, -8, r.randrange(-8, 9), 9 if r.random() < pe else 4])
        raise KeyError(ty)

    def value(self, ty, pe, key=None):
        r = self.r
        if ty == "b":
            return r.random() < 0.5
        if ty.startswith("e:"):
            return self.txt(*ENUM["str"]) if ty == "e:str" else r.choice(ENUM[ty[2:]])
        if ty == "tag":
            return self.txt("ta", "tb", "tc")
        if ty == "rt":
            return self.anyref(pe, True)
        if ty == "rtt":
            return self.anyref(pe, True)
        if ty == "fd":
            return r.choice([0, 3, 60, -1 if r.random() < pe else 5])
        if ty == "sec":
            m = self.st[key]["model"]["max"] if key in self.st else 3
            return r.randrange(0, m + 1) if r.random() >= pe else m + r.randrange(1, 3)
        if ty == "max":
            return r.choice([1, 2, 3, 4, 5, 6]) if r.random() >= pe else 0
        if ty in ("pos", "low"):
            s = self.st.get(key, {"low": 0, "high": 2})
            if ty == "low":
                return r.randrange(-3, 6)
            return r.randrange(s["low"], s["high"] + 1) if r.random() >= pe else r.choice([s["low"] - 1, s["high"] + 1, s["high"] + 5])
        return self.num(ty, pe)

    # ---------------------------------------------------------------- what exists
    def terms(self, kinds=None, vl=None):
        out = []
        for k in CONN:
            if kinds and k not in kinds:
                continue
            for i in self.byk[k]:
                for j, t in enumerate(self.st[i]["ts"]):
                    if vl is None or t["vl"] == vl:
                        out.append("%s/%d" % (i, j))
        return out

    def rterms(self, vl=None):
        """terminals to refer to (busbar sections seldom, when documents without them are wanted)"""
        if self.prof.get("nobbs") and not self.p(0.02):
            return self.terms(set(CONN) - {"BBS"}, vl)
        return self.terms(vl=vl)

    def anyref(self, pe=0.0, none=False):
        if pe and self.p(pe):
            return self.one(["@", ""])
        if none and self.p(0.15):
            return ""
        return self.one(self.rterms(), "")

    def isnb(self, vl):
        return self.st[vl]["topo"] == "NODE_BREAKER"

    def vls(self, topo=None):
        return [v for v in self.byk["VL"] if topo is None or self.st[v]["topo"] == topo]

    def buses(self, vl):
        return [b for b in self.byk["BUS"] if self.st[b]["own"] == vl]

    def switches(self, vl):
        return [b for b in self.byk["SW"] if self.st[b]["own"] == vl]

    def used_nodes(self, vl):
        return {t["node"] for k in CONN for i in self.byk[k] for t in self.st[i]["ts"] if t["vl"] == vl}

    def graph_nodes(self, vl):
        out = set(self.used_nodes(vl))
        for s in self.switches(vl):
            out |= {self.st[s]["n1"], self.st[s]["n2"]}
        for k in self.st[vl].get("ics", {}):
            out |= {int(x) for x in k.split("-")}
        return out

    def edge_count(self, vl):
        return len(self.switches(vl)) + sum(self.st[vl].get("ics", {}).values())

    def regulated(self):
        """terminals some other object refers to"""
        out = collections.defaultdict(set)
        for i, s in self.st.items():
            for f in ("rt", "t"):
                x = s.get(f, "")
                if x and s["k"] != "LEG":
                    out[x.rsplit("/", 1)[0]].add(i)
        for x, vl in self.slackrefs:
            if vl in self.st:
                out[x.rsplit("/", 1)[0]].add(vl + "#ext:slackTerminal")
        return out

    def freenode(self, vl, pe=0.0):
        used = self.used_nodes(vl)
        if pe and self.p(pe) and used:
            return self.one(sorted(used) + [-1])
        cand = sorted(self.graph_nodes(vl) - used)
        if cand and self.p(0.4):
            return self.one(cand)
        n = 0
        while n in self.graph_nodes(vl):
            n += 1
        if self.prof.get("sparse") and self.p(0.08):
            n += self.r.choice([3, 7, 20])
            while n in used:
                n += 1
        return n

    # ---------------------------------------------------------------- creation
    def end(self, vl, pe=0.0):
        if vl not in self.st or (pe and self.p(pe * 0.3)):
            return {"vl": vl, "node": self.r.choice([-1, 0, 3]), "bus": self.one(self.byk["BUS"] + [""]), "cbus": self.one(self.byk["BUS"] + [""])}
        if self.isnb(vl):
            return {"vl": vl, "node": self.freenode(vl, pe), "bus": "", "cbus": ""}
        b = self.one(self.buses(vl), "")
        c = self.r.choice([(b, ""), (b, b), ("", b)]) if self.p(0.6) else (b, "")
        return {"vl": vl, "node": -1, "bus": c[0], "cbus": c[1]}

    def steps(self, ptc, n, pe):
        F = ["rho", "r", "x", "g", "b"] + (["alpha"] if ptc else [])
        out = []
        for _ in range(n):
            s = {f: self.num("n", pe * 0.3) for f in F}
            if pe and self.p(pe * 0.2):
                s.pop(self.one(F))
            out.append(s)
        return out

    def attrs(self, k, pe):
        val = lambda f, ty: self.lattice(f) if self.prof.get("electric") and f in ("r", "x", "g", "b", "g1", "b1", "g2", "b2", "ru1", "ru2") and not self.p(0.02) else self.value(ty, pe)
        v = lambda f, ty: (f, val(f, ty))
        a = {}
        if k == "SUB":
            a = dict([v("country", "e:country"), v("tso", "e:str")])
            if a["country"] == "":
                a.pop("country")
            a["tags"] = self.r.sample(["x", "y", "z"], self.r.randrange(0, 3))
        elif k == "VL":
            a = dict([v("nv", "p"), v("lo", "vlo"), v("hi", "vhi")])
        elif k == "SW":
            a = {"swk": self.r.choice(ENUM["swk"]), "open": self.p(0.35), "ret": self.p(0.4)}
        elif k in ("LOAD", "BAT", "DL", "LCC", "VSC", "GEN", "SVC", "T2", "LINE"):
            F = FIELDS[k]
            a = dict(v(f, t) for f, t in F.items() if t not in ("rt",))
            if k in ("GEN", "SVC") and self.p(0.4):
                a["rt"] = self.anyref(pe, True)
            if k == "DL":
                a["ucte"] = self.r.choice(["", "XN1", "XN2"])
                if self.p(0.5):
                    a["gen"] = {"minP": self.value("lo", pe), "maxP": self.value("hi", pe), "tp": self.value("n", pe), "tq": self.value("n", pe),
                                "tv": self.value("p", pe), "on": self.p(0.5)}
        elif k == "SHU":
            a = dict([v("on", "b"), v("tv", "p"), v("db", "z")])
            if self.p(0.4):
                a["rt"] = self.anyref(pe, True)
            if self.p(0.5):
                a.update(model="LINEAR", bps=self.value("h", pe), max=self.value("max", pe))
                if self.p(0.7):
                    a["gps"] = self.value("H", pe)
            else:
                secs = []
                for _ in range(self.r.randrange(1, 5)):
                    s = {"b": self.value("h", pe)}
                    if self.p(0.7):
                        s["g"] = self.value("h", pe)
                    secs.append(s)
                if pe and self.p(pe * 0.3):
                    secs = []
                a.update(model="NON_LINEAR", secs=secs)
            m = a["max"] if a["model"] == "LINEAR" else len(a["secs"])
            a["n"] = self.r.randrange(0, max(m, 0) + 1) if not self.p(pe) else m + 1
        elif k == "HVDC":
            F = FIELDS[k]
            a = dict(v(f, t) for f, t in F.items())
            a["p"] = self.value("z", pe)
            taken = {self.st[h][c] for h in self.byk["HVDC"] for c in ("c1", "c2")}
            cs = [c for c in self.byk["LCC"] + self.byk["VSC"] if c not in taken]
            if len(cs) >= 2:
                a["c1"], a["c2"] = self.r.sample(cs, 2)
                if pe and self.p(pe * 0.5):
                    a[self.r.choice(["c1", "c2"])] = self.one(self.byk["LOAD"] + ["nowhere", ""])
            else:
                a["c1"], a["c2"] = (cs + ["nowhere", "nowhere"])[:2]
        elif k == "TIE":
            half = lambda i: dict({f: val(f, "h") for f in FIELDS["HALF"]}, id="h%d%s" % (i, self.nid), nm=self.r.choice(["", "half name"]), fic=self.p(0.3))
            a = {"ucte": "UX%d" % self.nid, "h1": half(1), "h2": half(2)}
        elif k == "T3":
            a = {"legs": [{f: self.value(t, pe) for f, t in FIELDS["LEG"].items()} for _ in range(3)]}
            if self.p(0.5):
                a["ru0"] = self.value("p", pe)
        if pe and self.p(pe * 0.6) and k not in ("SHU", "TIE", "T3", "HVDC", "VL", "SUB") and a:
            a.pop(self.one(sorted(a)))
        if k == "TIE" and pe and self.p(pe * 0.5):
            a.pop(self.r.choice(["ucte", "h1", "h2"]))
        return a

    def add(self, k, vls=(), sub="", pe=0.0, **kw):
        uniq = self.p(self.prof.get("uniq", 0.0))
        i = self.fresh(k)
        ev = {"op": "add", "k": k, "id": i, "nm": self.txt("", "", "name " + i), "fic": self.p(0.15), "uniq": uniq,
              "a": self.attrs(k, pe), "ends": [self.end(v, pe) for v in vls], "sub": sub, "via": ""}
        if k in ("T3", "T2", "LINE", "TIE") and len(vls) > 1:  # two ends in one voltage level: distinct nodes
            seen = set()
            for e in ev["ends"]:
                while (e["vl"], e["node"]) in seen and e["node"] >= 0 and not (pe and self.p(pe * 0.3)):
                    e["node"] += 1
                    while e["node"] in self.used_nodes(e["vl"]):
                        e["node"] += 1
                seen.add((e["vl"], e["node"]))
        ev.update(kw)
        if "a_" in ev:
            ev["a"].update(ev.pop("a_"))
        return ev

    def add_switch(self, vl, n1=None, n2=None, pe=0.0, **a):
        if self.isnb(vl):
            ns = sorted(self.graph_nodes(vl)) or [0]
            if n1 is None:
                n1 = self.one(ns + [max(ns) + 1])
            if n2 is None:
                n2 = self.one([x for x in ns + [max(ns) + 1, max(ns) + 2] if x != n1])
            if pe and self.p(pe * 0.5):
                n1 = -1
            ends = [{"vl": vl, "node": n1, "bus": "", "cbus": ""}, {"vl": vl, "node": n2, "bus": "", "cbus": ""}]
        else:
            bs = self.buses(vl)
            if n1 is None:
                n1 = self.one(bs, "")
            if n2 is None:
                n2 = self.one([x for x in bs if x != n1], "")
            if pe and self.p(pe * 0.5):
                n2 = self.one(["nowhere", ""] + self.byk["BUS"])
            ends = [{"vl": vl, "node": -1, "bus": n1, "cbus": ""}, {"vl": vl, "node": -1, "bus": n2, "cbus": ""}]
        ev = self.add("SW", pe=pe)
        ev["ends"] = ends
        if self.isnb(vl):
            ev["via"] = self.r.choice(["", "breaker", "disconnector", "breaker"]) if "swk" not in a else ""
        ev["a"].update(a)
        if ev["via"]:
            ev["a"].pop("swk", None)
        return ev

    def add_ic(self, vl, n1=None, n2=None, pe=0.0):
        ns = sorted(self.graph_nodes(vl)) or [0]
        n1 = self.one(ns + [max(ns) + 1]) if n1 is None else n1
        n2 = self.one([x for x in ns + [max(ns) + 1] if x != n1]) if n2 is None else n2
        return {"op": "add", "k": "IC", "id": "", "nm": "", "fic": False, "uniq": False, "a": {}, "sub": "", "via": "",
                "ends": [{"vl": vl, "node": n1, "bus": "", "cbus": ""}, {"vl": vl, "node": n2, "bus": "", "cbus": ""}]}

    def equip(self, k, pe=0.0, near=None):
        """an add event of kind k somewhere sensible, or None"""
        if k == "SUB":
            return self.add("SUB", pe=pe)
        if k == "VL":
            s = self.one(self.byk["SUB"])
            return s and self.add("VL", sub=s, pe=pe, a_={"topo": self.r.choice(["NODE_BREAKER", "BUS_BREAKER"])})
        if k == "BUS":
            v = self.one(self.vls("BUS_BREAKER") if not self.p(pe) else self.vls())
            return v and self.add("BUS", [v], pe=0)
        if k == "SW":
            vs = [v for v in self.vls() if self.edge_count(v) < 18 and (self.isnb(v) or len(self.buses(v)) > 1)]
            v = self.one(vs)
            return v and self.add_switch(v, pe=pe)
        if k == "IC":
            v = self.one([v for v in self.vls("NODE_BREAKER") if self.edge_count(v) < 18])
            return v and self.add_ic(v)
        if k == "BBS":
            v = self.one(self.vls("NODE_BREAKER") if not self.p(pe) else self.vls())
            return v and self.add("BBS", [v], pe=pe)
        if k == "HVDC":
            return self.add("HVDC", pe=pe)
        vl = near or self.one(self.vls())
        if vl is None:
            return None
        if k in INJ:
            return self.add(k, [vl], pe=pe)
        if k in ("LINE", "TIE"):
            other = self.one(self.vls())
            if pe and self.p(pe * 0.3):
                other = self.one(["nowhere", ""])
            return self.add(k, [vl, other], pe=pe)
        if k in ("T2", "T3"):
            sub = self.st[vl]["own"]
            mine = [v for v in self.vls() if self.st[v]["own"] == sub]
            if pe and self.p(pe):
                mine = self.vls()
            n = 2 if k == "T2" else 3
            return self.add(k, [self.one(mine) for _ in range(n)], sub=sub, pe=pe)
        raise KeyError(k)

    def wire(self, vl, node, bbs):
        """switches between a feeder node and the busbar sections of a node/breaker voltage level"""
        if self.dead or not bbs:
            return
        style = self.r.randrange(0, 6)
        nodes = self.graph_nodes(vl)
        mid = max(nodes | {0}) + 1
        if style <= 1:
            self.do(self.add_switch(vl, node, self.one(bbs), swk=self.r.choice(["BREAKER", "BREAKER", "DISCONNECTOR", "LOAD_BREAK_SWITCH"]), open=self.p(0.25)))
        elif style <= 3:
            self.do(self.add_switch(vl, node, mid, swk="BREAKER", open=self.p(0.25)))
            for b in self.r.sample(bbs, min(len(bbs), self.r.choice([1, 2, 2]))):
                if not self.dead:
                    self.do(self.add_switch(vl, mid, b, swk="DISCONNECTOR", open=self.p(0.4)))
        elif style == 4:
            self.do(self.add_ic(vl, node, mid))
            if not self.dead:
                self.do(self.add_switch(vl, mid, self.one(bbs), swk="BREAKER", open=self.p(0.25)))
        elif self.p(0.5):
            self.do(self.add_ic(vl, node, self.one(bbs)))

    def put(self, k, vl=None):
        """adds an equipment and, in node/breaker voltage levels, wires it"""
        ev = self.equip(k, near=vl)
        if ev is None or self.dead:
            return None
        out = self.do(ev)
        if out["res"] != "ok" or self.dead:
            return None
        i = out["ret"]
        for e in ev["ends"]:
            if e["vl"] in self.st and self.isnb(e["vl"]) and not self.dead:
                bbs = [self.st[b]["ts"][0]["node"] for b in self.byk["BBS"] if self.st[b]["ts"][0]["vl"] == e["vl"]]
                if self.edge_count(e["vl"]) < 16 and self.p(0.85):
                    self.wire(e["vl"], e["node"], bbs)
        return i

    def template(self):
        """a network to start from"""
        saved, self.prof = self.prof, dict(self.prof, clash=0, uniq=0)
        try:
            self.template1()
        finally:
            self.prof = saved

    def template1(self):
        t = self.prof.get("tmpl", {})
        for _ in range(t.get("subs", 2)):
            if self.dead:
                return
            self.do(self.add("SUB"))
        topos = list(t.get("topos", ["NODE_BREAKER", "BUS_BREAKER", "NODE_BREAKER", "BUS_BREAKER"]))
        if t.get("shuffle", True):
            self.r.shuffle(topos)
        for j, topo in enumerate(topos):
            if self.dead:
                return
            out = self.do(self.add("VL", sub=self.byk["SUB"][j % len(self.byk["SUB"])], a_={"topo": topo}))
            v = out["ret"]
            if topo == "NODE_BREAKER":
                nb = self.r.choice([1, 2, 2, 3])
                for _ in range(nb):
                    if not self.dead:
                        self.do(self.add("BBS", [v]))
                bbs = [self.st[b]["ts"][0]["node"] for b in self.byk["BBS"] if self.st[b]["ts"][0]["vl"] == v]
                for a, b in zip(bbs, bbs[1:]):
                    if self.p(0.7) and not self.dead:
                        self.do(self.add_switch(v, a, b, swk="BREAKER", open=self.p(0.3), ret=self.p(0.5)))
            else:
                nb = self.r.choice([1, 2, 3, 3])
                for _ in range(nb):
                    if not self.dead:
                        self.do(self.add("BUS", [v]))
                bs = self.buses(v)
                for a, b in zip(bs, bs[1:]):
                    if self.p(0.7) and not self.dead:
                        self.do(self.add_switch(v, a, b, open=self.p(0.3)))
        kinds = list(t.get("kinds", ["LOAD", "GEN", "LINE", "LINE", "T2"]))
        for k in kinds:
            if self.dead:
                return
            self.put(k)
        for f in t.get("after", []):
            if not self.dead:
                ev = getattr(self, f)()
                if ev:
                    self.do(ev)

    # ---------------------------------------------------------------- operations
    def op_add(self):
        pe = self.prof.get("pe", 0.15) if self.p(self.prof.get("pbad", 0.4)) else 0.0
        kinds = self.prof.get("addkinds", ["SUB", "VL", "BUS", "SW", "IC", "BBS", "HVDC", "T3"] + INJ + BRANCH)
        k = self.least([("add", k, "") for k in kinds])[1]
        cap = {"SUB": 4, "VL": 6, "BUS": 10, "HVDC": 3, "T3": 3}.get(k, 6)
        if k not in ("SW", "IC") and len(self.byk[k]) >= cap and self.p(0.9):
            return None
        return self.equip(k, pe)

    def corrupt(self, ev):
        """the same request with something wrong in it (usually)"""
        r = self.r
        ev = copy.deepcopy(ev)
        a = ev["a"]
        ways = ["attr"] * 3 if a else []
        if ev["op"] == "add":
            ways += ["id"] + ["end"] * 2 * bool(ev["ends"])
        sub = [x for x in ("gen", "h1", "h2") if isinstance(a.get(x), dict)] + [x for x in ("secs", "steps", "legs", "temps", "pts") if a.get(x)]
        ways += ["sub"] * 2 * bool(sub)
        w = self.one(ways)
        bad = lambda x: self.one([NAN, 0, -8, -800, PMAX, 100000]) if isinstance(x, int) and not isinstance(x, bool) else x
        if w == "attr":
            f = self.one(sorted(a))
            if f in ("c1", "c2"):
                a[f] = self.one(self.byk["LOAD"] + ["nowhere", ""])
            elif f in ("rt",):
                a[f] = "@" if ev["op"] == "add" else ""
            elif f in ("pos", "n", "max"):
                a[f] = r.choice([-1 if f == "pos" else 0, 50, a[f] + 1 if isinstance(a[f], int) else 1])
            elif f not in ("steps", "secs", "legs", "temps", "pts", "low") and (self.p(0.3) or not isinstance(a[f], int) or isinstance(a[f], bool)):
                if f not in ("model", "tags", "gen", "ucte") or self.p(0.2) and f == "ucte":
                    a.pop(f)
            elif f in ("bps", "gps"):
                a[f] = NAN
            elif isinstance(a[f], int):
                a[f] = bad(a[f])
        elif w == "id":
            ev["id"] = self.one([x for x in sorted(self.st) if "#" not in x] + sorted(x for m in self.al.values() for x in m) + [""])
            ev["uniq"] = False
        elif w == "end":
            e = self.one(ev["ends"])
            x = r.choice(["vl", "at", "at"])
            if x == "vl":
                e["vl"] = self.one(["nowhere"] + self.vls())
            elif e["node"] >= 0 or ev["k"] == "BBS":
                e["node"] = self.one(sorted(self.used_nodes(e["vl"])) + [-1]) if e["vl"] in self.st else -1
            else:
                e["bus"] = self.one(self.byk["BUS"] + ["nowhere", ""])
                e["cbus"] = self.one(self.byk["BUS"] + ["nowhere", ""])
        elif w == "sub":
            f = self.one(sub)
            x = a[f]
            if isinstance(x, list):
                if self.p(0.15) and f != "legs":
                    a[f] = []
                    return ev
                x = self.one(x)
            g = self.one([y for y in sorted(x) if y not in ("id", "nm", "fic")])
            if g is None:
                return ev
            if f in ("secs", "h1", "h2") or (f == "legs" and g not in ("ru", "rs")):
                if f != "secs" or len(a[f]) > 0:
                    x.pop(g)
            elif self.p(0.5) or g == "d":
                x.pop(g)
            else:
                x[g] = bad(x[g])
        return ev

    def op_retry(self):
        """a refused creation, then the same with correct arguments"""
        if not self.cur:
            return None
        kinds = ["SUB", "VL", "BUS", "SW", "IC", "BBS", "HVDC", "T3"] + INJ + BRANCH
        x = self.r.random()
        saved, self.prof = self.prof, dict(self.prof, pbad=0, clash=0)
        try:
            if x < 0.75:
                k = self.least([("add", k, "") for k in kinds])[1]
                ev = self.equip(k, 0.0) if len(self.byk[k]) < 7 or k in ("SW", "IC") else None
            else:
                ev = [self.op_addtc, self.op_addlim, self.op_addrl][self.r.randrange(3)]()
        finally:
            self.prof = saved
        if not ev:
            return None
        for _ in range(self.r.choice([1, 1, 2])):
            self.do(self.corrupt(ev))
            if self.dead:
                return True
        if not self.cur:
            return True
        ev["retry"] = True
        self.do(ev)
        return True

    def op_addbad(self):
        kinds = self.prof.get("addkinds", ["SUB", "VL", "BUS", "SW", "IC", "BBS", "HVDC", "T3"] + INJ + BRANCH)
        return self.equip(self.one(kinds), 0.3)

    def least(self, sigs):
        """weighted choice that favours what has been exercised least"""
        w = [1.0 / (1 + sum(self.cov[s + (r,)] for r in ("ok", "err", "nil"))) for s in sigs]
        return self.r.choices(sigs, w)[0]

    def op_set(self, only=None):
        pe = self.prof.get("pe", 0.15)
        cands = []
        for i, s in self.st.items():
            k = s["k"]
            F = FIELDS.get(k, {})
            for f in F:
                if only == "dyn" and f not in DYN.get(k, ()):
                    continue
                cands.append((i, k, f))
            if k == "SHU" and only != "dyn":
                for f in (("bps", "gps", "max") if s["model"]["t"] == "LINEAR" else ("secb", "secg")):
                    cands.append((i + "#mod", "MOD", f))
            if k not in PART and only != "dyn" and self.p(0.1):
                cands.append((i, k, "fic"))
        if not cands:
            return None
        if only == "dyn" and not self.cur:
            return None
        sig = {}
        for c in cands:
            sig.setdefault((c[1], c[2]), []).append(c[0])
        keys = sorted(sig)
        w = [1.0 / (1 + self.cov[("setk", k, f)]) for k, f in keys]
        k, f = self.r.choices(keys, w)[0]
        self.cov[("setk", k, f)] += 1
        return self.set_ev(self.one(sig[(k, f)]), k, f, pe)

    def set_ev(self, i, k, f, pe):
        own = i.rsplit("#", 1)[0] if k in PART or k == "MOD" else ""
        ty = "b" if f == "fic" else FIELDS[k][f]
        ev = {"op": "set", "id": i, "own": own, "f": f, "at": 0, "c": ""}
        if ty == "step":
            s = self.st[i]
            ev["at"] = self.r.randrange(s["low"], s["high"] + 1) if not self.p(pe) else self.r.choice([s["low"] - 1, s["high"] + 1])
            ev["c"] = self.r.choice(["rho", "r", "x", "g", "b"] + (["alpha"] if k == "PTC" else []))
            ev["x"] = self.num("n", 0)
            return ev
        if ty == "date":
            return self.date(ev, pe)
        if f in ("secb", "secg"):
            ev["at"] = self.r.randrange(1, len(self.st[own]["model"]["secs"]) + 1)
        ev["x"] = self.value(ty, pe, i)
        return ev

    def op_setdyn(self):
        return self.op_set("dyn")

    def op_tapset(self):
        i = self.one(self.byk["RTC"] * 2 + self.byk["PTC"] * 3)
        if not i:
            return None
        k = self.st[i]["k"]
        f = self.one(sorted(FIELDS[k]))
        if f in DYN[k] and not self.cur:
            return None
        return self.set_ev(i, k, f, self.prof.get("pe", 0.15))

    def op_shuset(self):
        i = self.one(self.byk["SHU"])
        if not i or not self.cur:
            return None
        m = self.st[i]["model"]["t"] == "LINEAR"
        f = self.one(["n", "n", "n"] + (["bps", "gps", "max", "max"] if m else ["secb", "secg"]))
        return self.set_ev(i, "SHU", "n", self.prof.get("pe", 0.15)) if f == "n" else self.set_ev(i + "#mod", "MOD", f, self.prof.get("pe", 0.15))

    def op_limset(self):
        i = self.one(self.byk["LIM"])
        return i and self.set_ev(i, "LIM", "perm", self.prof.get("pe", 0.15))

    def op_tset(self):
        t = self.one(self.terms(None if self.p(0.05) else set(CONN) - {"BBS"}))
        if not t or not self.cur:
            return None
        return {"op": "tset", "t": t, "f": self.r.choice("pq"), "x": self.num("n", 0.1)}

    def op_con(self):
        t = self.one(self.terms())
        return t and self.cur and {"op": self.r.choice(["con", "dis"]), "t": t}

    def op_switch(self):
        s = self.one(self.byk["SW"])
        if not s or not self.cur:
            return None
        f = "open" if self.p(0.75) else "ret"
        x = not self.dy[s][f] if self.p(0.85) else self.dy[s][f]
        return {"op": "set", "id": s, "own": "", "f": f, "x": x, "at": 0, "c": ""}

    def op_setcb(self):
        ts = self.terms()
        t = self.one(ts)
        if not t or not self.cur:
            return None
        i, j = t.rsplit("/", 1)
        vl = self.st[i]["ts"][int(j)]["vl"]
        b = self.one(self.buses(vl), "nowhere") if self.p(0.85) else self.one(self.byk["BUS"] + ["nowhere", ""])
        if self.isnb(vl) and self.p(0.9):
            return None
        return {"op": "setcb", "t": t, "bus": b}

    def op_busv(self):
        vl = self.one(self.vls())
        if not vl or not self.cur:
            return None
        if self.isnb(vl):
            b = vl + "_" + str(self.one(sorted(self.graph_nodes(vl)), 0))
            cb, view = "", self.r.choice(["bv", "bb"])
        else:
            cb = self.one(self.buses(vl), "nowhere")
            b, view = cb, "bb"
        return {"op": "busv", "vl": vl, "view": view, "bus": b, "cbus": cb, "f": self.r.choice(["v", "ang"]), "x": self.num("p", 0.15)}

    # variants
    def vname(self, exist=0.7):
        return self.one(self.vs) if self.p(exist) else self.r.choice(["va", "vb", "vc", "vd"])

    def op_vclone(self):
        if len(self.vs) >= self.prof.get("maxv", 5) and self.p(0.8):
            return None
        n = self.r.choice([1, 1, 1, 2, 3, 0 if self.p(0.1) else 1])
        tg = [self.vname(0.25) for _ in range(n)]
        return {"op": "vclone", "src": self.vname(0.9), "tgts": tg, "ow": self.p(0.4), "single": self.p(0.5)}

    def op_vremove(self):
        v = self.vname(0.9)
        if self.prof.get("mt") and v == self.cur_of_others(v):
            return None
        return {"op": "vremove", "v": v}

    # concurrent runs: threads 1..n each on a variant of its own; nobody but thread 0 sees the answers meanwhile
    def widen(self, vl):
        """a new switch between two new nodes: nothing else changes, but the topology of the level has to be found out again"""
        n = max(self.graph_nodes(vl) | {0}) + 1
        self.nid += 1
        end = lambda x: {"vl": vl, "node": x, "bus": "", "cbus": ""}
        self.do({"op": "add", "k": "SW", "id": "cold%d" % self.nid, "nm": "", "fic": False, "uniq": False, "a": {"swk": "BREAKER", "open": False, "ret": False}, "ends": [end(n), end(n + 1)], "sub": "", "via": ""})

    def plan_concurrent(self, block, ops, cold=False):
        """the events of one concurrent run; block: variants of the threads 1.."""
        names = sorted(ops)
        w = [ops[x] for x in names]
        out, keep = [], self.th
        for k, v in enumerate(block):
            mine = [{"op": "vselect", "v": v}]
            if cold:
                mine.append({"op": "obs"})
            tries = 0
            while len(mine) < self.prof["burst"] and tries < 400:
                tries += 1
                name = self.r.choices(names, w)[0]
                ev = getattr(self, "op_" + name)()
                if ev:
                    mine.append(ev)
            for ev in mine:
                ev.update(th=k + 1, obs="d" + ("t" if self.p(0.25) else "") if self.p(self.prof.get("obsp", 0.5)) or ev["op"] in ("con", "dis") else "")
                if ev["op"] == "obs" and cold:
                    ev["obs"] = "dtl"
                ev.setdefault("own", "")
                if "t" in ev:
                    ev["tc"], ev["ti"] = ev["t"].rsplit("/", 1)[0], int(ev["t"].rsplit("/", 1)[1])
                if "k" in ev["obs"] and "t" not in ev["obs"]:
                    ev["obs"] += "t"
            mine.append({"op": "obs", "th": k + 1, "own": "", "obs": "dtk" if self.p(0.5) else "d"})
            out.append(mine)
        self.th = keep
        # the order of the threads in the script says nothing
        return [e for m in out for e in m]

    # several threads: which variant each one has selected, as far as the generator knows
    def follow_threads(self, ev, res):
        if ev["op"] == "reset":
            self.mton, self.tcur = False, {}
        if ev["op"] == "vmt" and res == "ok" and ev["on"] != self.mton:
            self.mton, self.tcur = ev["on"], {}
        self.tcur[ev["th"] if self.mton else 0] = self.cur

    def cur_of_others(self, v):
        """v when another thread works on it"""
        return v if self.mton and any(c == v for t, c in self.tcur.items() if t != self.th) else None

    def change_thread(self):
        self.th = self.r.randrange(0, self.prof["mt"])
        self.cur = self.tcur.get(self.th if self.mton else 0, "")

    def op_blind(self):
        """what needs a variant, asked by a thread that has none"""
        if self.cur:
            return None
        self.cur = self.vs[0]
        ev = getattr(self, "op_" + self.one(["setdyn", "tset", "switch", "con", "setcb", "busv"]))()
        self.cur = ""
        return ev

    def op_vselect(self):
        return {"op": "vselect", "v": self.vname(0.92)}

    def op_vmt(self):
        return {"op": "vmt", "on": not self.mton if self.prof.get("mt") and self.p(0.8) else self.p(0.5)}

    # names
    def anyid(self, alias=0.2):
        if self.p(alias):
            a = [x for m in self.al.values() for x in m]
            if a:
                return self.one(sorted(a))
        return self.one([i for i in sorted(self.st) if self.st[i]["k"] not in PART])

    def op_alias(self):
        i = self.anyid()
        if self.prof.get("reuse") and self.al and self.p(0.4):
            i = self.one(sorted(self.al))
        al = self.txt("al%d" % self.r.randrange(8), self.anyid(0.4))
        if self.lost and self.prof.get("reuse") and self.p(self.prof["reuse"]):
            al = self.one(self.lost)
        return {"op": "alias", "id": i, "al": al, "ty": self.txt("", "", "T1", "T2"), "uniq": self.p(0.25)}

    def op_rmalias(self):
        if self.al and self.p(0.85):
            i = self.one(sorted(self.al))
            a = self.one(sorted(self.al[i]))
            return {"op": "rmalias", "id": i if self.p(0.8) else self.anyid(), "al": a}
        return {"op": "rmalias", "id": self.anyid(), "al": self.r.choice(["al1", "al2", "nowhere"])}

    def op_prop(self):
        return {"op": "prop", "id": self.anyid(), "key": self.txt("k1", "k2", "k3"), "x": self.txt("v1", "v2", "")}

    def op_find(self):
        ids = {self.anyid() for _ in range(3)} | {self.r.choice(["nowhere", "al1", "al2", "al3", "S1", "V3", "B5", "LD7", "L8"])}
        return {"op": "q.find", "ids": sorted(ids | set(self.lost))}

    # parts
    def op_addtc(self):
        own = self.one(self.byk["T2"] + self.byk["T3"])
        if not own:
            return None
        pe = self.prof.get("pe", 0.15) if self.p(self.prof.get("pbad", 0.4)) else 0.0
        k = self.r.choice(["RTC", "PTC"])
        n = self.r.randrange(1, 5) if not self.p(pe * 0.3) else 0
        low = self.r.choice([0, 1, -2, 5])
        a = {"low": low, "pos": low + self.r.randrange(0, max(n, 1)), "reg": self.p(0.3), "db": self.value("z", pe), "steps": self.steps(k == "PTC", n, pe)}
        if self.p(pe):
            a["pos"] = self.r.choice([low - 1, low + n])
        if self.p(0.6):
            a["rt"] = self.anyref()
        if k == "RTC":
            a.update(lt=self.p(0.6), tv=self.value("p", pe))
        else:
            a.update(mode=self.r.choice(ENUM["ptcmode"]), rv=self.value("n", pe))
        if pe and self.p(pe):
            a.pop(self.one([f for f in sorted(a) if f not in ("steps",)]))
        return {"op": "addtc", "k": k, "own": own, "leg": 0 if self.st[own]["k"] == "T2" else self.r.randrange(1, 4), "a": a}

    def op_addlim(self):
        own = self.one([i for k in BRANCH + ["T3", "DL"] for i in self.byk[k]])
        if not own:
            return None
        pe = self.prof.get("pe", 0.15) if self.p(self.prof.get("pbad", 0.4)) else 0.0
        k = self.st[own]["k"]
        side = 0 if k == "DL" else self.r.randrange(1, 4 if k == "T3" else 3)
        n = self.r.choice([0, 1, 2, 3])
        durs = self.r.sample([60, 120, 300, 600, 1200, -1, 1], n)
        base = self.r.randrange(100, 2000) * 8
        temps = []
        for j, d in enumerate(sorted(durs, key=lambda x: -x if x > 0 else -10**9)):
            t = {"nm": self.txt("T%d'%d" % (d, j)), "v": base + 800 * (j + 1) if not self.p(pe * 0.4) else self.r.choice([NAN, 0, -8]), "d": d, "fic": self.p(0.2)}
            if self.p(pe * 0.2):
                t.pop(self.r.choice(["nm", "v", "d"]))
            temps.append(t)
        self.r.shuffle(temps)
        if n > 1 and self.p(0.3):
            # names that meet, with or without the wish to be unique
            nm = self.r.choice([temps[0].get("nm", "T"), "T"])
            for j, t in enumerate(temps):
                if "nm" in t and self.p(0.6):
                    t["nm"] = nm if self.p(0.7) else nm + "#%d" % self.r.randrange(2)
                if self.p(0.85):
                    t["uniq"] = True
        a = {"perm": base if not self.p(pe) else self.r.choice([NAN, 0, -8]), "temps": temps}
        if self.p(0.05):
            a.pop("perm")
        return {"op": "addlim", "own": own, "side": side, "lty": self.r.choice(LIMT), "a": a, "k": k}

    def op_addrl(self):
        own = self.one([i.rsplit("#", 1)[0] for i in self.byk["RL"]])
        if not own:
            return None
        pe = self.prof.get("pe", 0.15) if self.p(self.prof.get("pbad", 0.4)) else 0.0
        if self.p(0.4):
            a = {"minQ": self.value("lo", pe), "maxQ": self.value("hi", pe)}
            if self.p(pe):
                a.pop(self.r.choice(["minQ", "maxQ"]))
            return {"op": "addrl", "own": own, "rlk": "MIN_MAX", "a": a}
        ps = self.r.sample(range(-80, 400, 8), self.r.choice([2, 3, 4] if not self.p(pe) else [0, 1]))
        pts = [{"p": p, "minQ": self.num("lo", 0) * 8 // 8, "maxQ": self.num("hi", 0)} for p in ps]
        if self.p(0.1):  # a slope times the distance is not quite the difference
            p0 = self.r.randrange(-80, 80, 8)
            pts = [{"p": p0, "minQ": 0, "maxQ": 0}, {"p": p0 + 8 * 49, "minQ": -8 * self.r.choice([1, 2, 4]), "maxQ": 8 * self.r.choice([1, 2, 4])}]
        if pe and pts and self.p(pe):
            x = self.one(pts)
            if self.p(0.5):
                x[self.r.choice(["p", "minQ", "maxQ"])] = NAN
            else:
                x.pop(self.r.choice(["p", "minQ", "maxQ"]))
        if pe and len(pts) > 1 and self.p(pe):
            pts[1]["p"] = pts[0].get("p", 0)
        return {"op": "addrl", "own": own, "rlk": "CURVE", "a": {"pts": pts}}

    # removals
    def op_rm(self):
        kinds = self.prof.get("rmkinds", INJ + BRANCH + ["T3", "HVDC", "BBS"] + ["VL", "SUB"])
        k = self.one([k for k in kinds if self.byk[k]])
        if k is None:
            return None
        if k in ("VL", "SUB") and self.p(self.prof.get("keep", 0.7)):
            return None
        i = self.one(self.byk[k])
        if self.prof.get("reuse") and self.p(0.5):
            named = [x for x in sorted(self.al) if x in self.st and self.st[x]["k"] in kinds and (self.st[x]["k"] not in ("VL", "SUB") or self.p(0.3))]
            if named:
                i = self.one(named)
                k = self.st[i]["k"]
        reg = self.regulated()
        if self.prof.get("avoid_regulated", True):
            gone = self.gone(i)
            for g in gone:
                if reg[g] - {g} - {x for x in self.st if x in gone or (self.st[x]["k"] in PARTS and any(x.startswith(g + "#") for g in gone))}:
                    return None
        return {"op": "rm", "id": i, "k": k}

    def gone(self, i):
        """objects a removal takes away with it"""
        k = self.st[i]["k"]
        if k == "VL":
            return {c for kk in CONN for c in self.byk[kk] if any(t["vl"] == i for t in self.st[c]["ts"])} | {i}
        if k == "SUB":
            out = {i}
            for v in self.byk["VL"]:
                if self.st[v]["own"] == i:
                    out |= self.gone(v)
            return out
        return {i}

    def op_rmtap(self):
        i = self.one(self.byk["RTC"] + self.byk["PTC"] if self.p(0.7) else self.byk["LIM"])
        return i and {"op": "rm", "id": i, "own": i.rsplit("#", 1)[0], "k": "TAP"}

    def op_rmnil(self):
        i = self.one(self.byk["BUS"] + self.byk["SW"] + ["nowhere"])
        return {"op": "rm", "id": i, "k": "NIL"}

    def op_rmsw(self):
        s = self.one(self.byk["SW"])
        if not s:
            return None
        return {"op": "rmsw", "vl": self.st[s]["own"] if self.p(0.9) else self.one(self.byk["VL"]), "id": s if self.p(0.93) else "nowhere"}

    def op_rmallsw(self):
        v = self.one(self.vls("BUS_BREAKER") if self.p(0.9) else self.vls())
        return v and {"op": "rmallsw", "vl": v}

    def op_rmbus(self):
        b = self.one(self.byk["BUS"])
        if not b:
            return None
        return {"op": "rmbus", "vl": self.st[b]["own"] if self.p(0.9) else self.one(self.byk["VL"]), "id": b if self.p(0.93) else "nowhere"}

    def op_rmallbus(self):
        v = self.one(self.vls("BUS_BREAKER") if self.p(0.9) else self.vls())
        return v and {"op": "rmallbus", "vl": v}

    def op_rmic(self):
        v = self.one([v for v in self.vls("NODE_BREAKER") if self.st[v].get("ics")])
        if not v or self.p(0.1):
            v = self.one(self.vls())
            return v and {"op": "rmic", "vl": v, "n1": 0, "n2": 1}
        a, b = self.one(sorted(self.st[v]["ics"])).split("-")
        if self.p(0.4):
            a, b = b, a
        return {"op": "rmic", "vl": v, "n1": int(a), "n2": int(b)}

    # questions
    def op_trav(self):
        t = self.one(self.terms())
        if not t or not self.cur:
            return None
        ts, sw = self.terms(), self.byk["SW"]
        return {"op": "q.trav", "t": t, "stopT": self.r.sample(ts, min(len(ts), self.r.choice([0, 0, 0, 1, 2]))),
                "stopS": self.r.sample(sw, min(len(sw), self.r.choice([0, 0, 1]))), "closed": self.p(0.6)}

    def nbvl(self):
        return self.one([v for v in self.vls("NODE_BREAKER") if self.graph_nodes(v)])

    def op_ntrav(self):
        v = self.nbvl()
        if not v or not self.cur:
            return None
        ns = sorted(self.graph_nodes(v))
        return {"op": "q.ntrav", "vl": v, "node": self.one(ns), "closed": self.p(0.6), "stopN": self.r.sample(ns, min(len(ns), self.r.choice([0, 0, 1, 2])))}

    def op_eqt(self):
        v = self.nbvl() if self.p(0.95) else self.one(self.vls())
        return v and self.cur and {"op": "q.eqt", "vl": v, "node": self.one(sorted(self.graph_nodes(v)), 0)}

    def op_nodes(self):
        v = self.one(self.vls("NODE_BREAKER") if self.p(0.95) else self.vls())
        return v and self.cur and {"op": "q.nodes", "vl": v}

    def op_shuq(self):
        s = self.one(self.byk["SHU"])
        return s and {"op": "q.shu", "id": s, "n": self.r.randrange(0, self.st[s]["model"]["max"] + 2)}

    def op_rlq(self):
        s = self.one(self.byk["RL"])
        if not s:
            return None
        x = self.st[s]
        p = self.r.randrange(-100, 450)
        if x["rlk"] == "CURVE":
            pts = x["pts"]
            if self.p(0.6):
                p = self.one(pts)["p"]
            elif self.p(0.6):
                a = self.r.randrange(0, len(pts) - 1)
                p = (pts[a]["p"] + pts[a + 1]["p"]) // 2
        return {"op": "q.rl", "id": s.rsplit("#", 1)[0], "p": p}

    # limits against flows: values the comparison of which needs no rounding
    def flow(self, t):
        """events that give terminal t a flow, and its bus a voltage"""
        r = self.r
        a, b = r.choice([(3, 4), (4, 3), (6, 8), (0, 5), (5, 0), (12, 5), (r.randrange(0, 30), r.randrange(0, 30))])
        for f, x in (("p", a), ("q", b)):
            if self.p(0.9) and not self.dead:
                self.do({"op": "tset", "t": t, "f": f, "x": x * 80 * r.choice([1, -1]) if self.p(0.95) else NAN}, "s")
        if self.dead or not self.cur or self.p(0.2):
            return
        o = self.do({"op": "obs"}, "sdt")["o"]
        if self.dead:
            return
        i, j = t.rsplit("/", 1)
        vl = self.st[i]["ts"][int(j)]["vl"]
        tt = o["tp"][self.cur]["tt"].get(t, {})
        nb = self.isnb(vl)
        b = tt.get("bv") if nb or self.p(0.3) else tt.get("bb")
        if b:
            self.do({"op": "busv", "vl": vl, "view": "bv" if b == tt.get("bv") and b != tt.get("bb") else "bb", "bus": b,
                     "cbus": "" if nb else (tt.get("bb") or ""), "f": "v", "x": 80 * r.randrange(1, 101) if self.p(0.93) else NAN})

    def op_lim(self):
        """a flow on a side of a branch, limits around it, and the questions"""
        own = self.one([i for k in BRANCH for i in self.byk[k]])
        if not own or not self.cur:
            return None
        r = self.r
        side = r.choice([1, 2])
        t = "%s/%d" % (own, side - 1)
        lty = r.choice(LIMT)
        if self.p(0.75):
            self.flow(t)
        if self.dead or not self.cur or own not in self.st:
            return True
        red = r.choice([8, 8, 8, 4, 2, 6, 16, 10])
        d = self.dy[own]["t"][side - 1]
        if lty == "ACTIVE_POWER":
            f = d["p"] // 8 if d["p"] != NAN else 100
        elif lty == "APPARENT_POWER":
            f = int(round(((d["p"] / 8) ** 2 + (d["q"] / 8) ** 2) ** 0.5)) if NAN not in (d["p"], d["q"]) else 100
        else:
            o = self.do({"op": "q.i", "t": t}, "s")
            if self.dead:
                return True
            f = o["ret"] // 1000 if isinstance(o["ret"], int) and o["ret"] > 0 else 100
        f = min(max(abs(f) if self.p(0.8) else f, 1), 10 ** 6)
        unit = 4
        lim = lambda m: max(unit, int(f * 8 / red * m) // unit * unit) * 8
        exact = lambda: max(int(f * 8 // red), 1) * 8  # the limit the flow just reaches, where red divides
        if self.p(0.85):
            perm = exact() if self.p(0.35) else lim(r.choice([0.3, 0.8, 1, 1.2, 2]))
            n = r.choice([0, 1, 2, 3, 4])
            vals = [exact() if self.p(0.3) else lim(r.choice([0.5, 0.9, 1, 1.1, 1.5, 3])) for _ in range(n)]
            vals = sorted(vals) if self.p(0.7) else vals
            if vals and self.p(0.3):
                vals[-1] = PMAX
            durs = sorted(r.sample([60, 120, 300, 600, 1200, 0, 1], n), reverse=True)
            temps = [{"nm": self.txt("T%d" % x), "v": v, "d": x, "fic": self.p(0.2)} for x, v in zip(durs, vals)]
            r.shuffle(temps)
            self.do({"op": "addlim", "own": own, "side": side, "lty": lty, "a": {"perm": perm if self.p(0.93) or temps else NAN, "temps": temps},
                     "k": self.st[own]["k"]})
        for _ in range(r.choice([1, 2, 3])):
            if not self.dead:
                self.do({"op": "q.lim", "id": own, "side": side if self.p(0.85) else 3 - side, "lty": lty if self.p(0.9) else r.choice(LIMT), "red": red}, "s")
        if not self.dead and self.p(0.6):
            self.do({"op": "q.ovl", "id": own, "red": red if self.p(0.5) else 8}, "s")
        return True

    # electrical states: parameters, voltages and flows on a lattice where they are exact
    def op_eset(self):
        r = self.r
        c = [(i, k) for k in ("LINE", "HALF", "HALF", "DL", "DL", "T2") for i in self.byk[k]]
        if not c:
            return None
        i, k = r.choice(c)
        s = self.st[i]
        F = {"LINE": "r x g1 b1 g2 b2", "HALF": "r x g1 b1 g2 b2", "DL": "r x g b", "T2": "r x g b ru1 ru2"}[k].split()
        wild = [f for f in F if not self.onlattice(f, s[f])]
        f = r.choice(wild or F)
        return {"op": "set", "id": i, "own": i.rsplit("#", 1)[0] if k == "HALF" else "", "f": f, "at": 0, "c": "", "x": self.lattice(f)}

    def onlattice(self, f, x):
        return x in (800, 1600, 3200) if f[:2] == "ru" else abs(x) <= 16 and x % 8 == 0 if f in "rx" else abs(x) <= 8 and x % 4 == 0

    def lattice(self, f):
        return self.r.choice([800, 1600, 3200]) if f[:2] == "ru" else self.r.choice([0, 8, 8, 16, -8]) if f in "rx" else self.r.choice([0, 4, 8, -4, -8])

    def latstep(self, ptc):
        s = {f: self.r.choice([0, 0, 400, 800, -400]) for f in ("r", "x", "g", "b")}
        s["rho"] = self.r.choice([4, 8, 8, 16])
        if ptc:
            s["alpha"] = self.r.choice([0, 720, -720, 1440, 720])
        return s

    def op_eaddtc(self):
        ev = None
        if self.byk["T2"]:
            ev = self.op_addtc()
        if not ev or self.st[ev["own"]]["k"] != "T2":
            return None
        ev["a"]["steps"] = [self.latstep(ev["k"] == "PTC") for _ in range(3)]
        low = ev["a"].get("low", 0)
        ev["a"].update(low=low, pos=low + self.r.randrange(3))
        return ev

    def op_etap(self):
        i = self.one([x for x in self.byk["RTC"] + self.byk["PTC"] if "#rtc" == x[-4:] or "#ptc" == x[-4:]])
        if not i or not self.cur:
            return None
        k = self.st[i]["k"]
        if self.p(0.6):
            return self.set_ev(i, k, "pos", 0.05)
        s = self.st[i]
        st = self.latstep(k == "PTC")
        c = self.one(sorted(st))
        return {"op": "set", "id": i, "own": i.rsplit("#", 1)[0], "f": "step", "at": self.r.randrange(s["low"], s["high"] + 1), "c": c, "x": st[c]}

    def op_ebusv(self, t=None):
        t = t or self.one(self.terms({"DL", "TIE"}))
        if not t or not self.cur:
            return None
        i, j = t.rsplit("/", 1)
        vl = self.st[i]["ts"][int(j)]["vl"]
        o = self.do({"op": "obs"}, "sdt")["o"]
        if self.dead:
            return True
        tt = o["tp"][self.cur]["tt"].get(t, {})
        nb = self.isnb(vl)
        b, view = (tt.get("bv"), "bv") if nb or self.p(.2) else (tt.get("bb"), "bb")
        if not b:
            return None
        for f in ("v", "ang"):
            if not self.dead and self.p(0.95):
                x = self.r.choice([8, 16, 32, 64]) if f == "v" else self.r.choice([0, 720, -720, 1440])
                self.do({"op": "busv", "vl": vl, "view": view, "bus": b, "cbus": "" if nb else (tt.get("bb") or ""), "f": f, "x": x if self.p(0.97) else NAN})
        return True

    def op_etset(self, t=None):
        t = t or self.one(self.terms({"DL", "TIE"}))
        if not t or not self.cur:
            return None
        for f in "pq":
            if not self.dead and self.p(0.95):
                self.do({"op": "tset", "t": t, "f": f, "x": 8 * self.r.randrange(-8, 9) if self.p(0.97) else NAN}, "s")
        return True

    def op_ebnd(self):
        """a state near a boundary, and what is computed at the boundary"""
        i = self.one(self.byk["DL"] + self.byk["TIE"])
        if not i or not self.cur:
            return None
        half = 0 if self.st[i]["k"] == "DL" else self.r.choice([1, 2])
        t = "%s/%d" % (i, max(half, 1) - 1)
        self.op_etset(t)
        self.dead or self.op_ebusv(t)
        self.dead or self.do({"op": "q.bnd", "id": i, "half": half}, "s")
        return True

    def op_sv(self):
        r = self.r
        how = r.choice(["line", "t2", "t2s", "dl", "dls", "half1", "half2", "raw"])
        kinds = {"line": ["LINE", "TIE"], "t": ["T2"], "d": ["DL"], "h": ["TIE"]}
        ids = [i for k in kinds.get(how, kinds.get(how[0], [])) for i in self.byk[k]]
        if how != "raw" and not ids:
            return None
        g = lambda: r.choice([[3, 4], [1, 0], [0, 2], [-2, 1], [r.randrange(-6, 7), r.randrange(-6, 7)]])
        v, i = g(), g()
        if v == [0, 0]:
            v = [2, -1]
        ev = {"op": "q.sv", "id": self.one(ids, ""), "how": how, "side": r.choice([1, 1, 2]), "v": v, "i": i if self.p(.95) else [0, 0], "plain": self.p(0.5)}
        if how == "raw":
            ev.update({f: self.lattice(f) for f in ("r", "x", "g1", "b1", "g2", "b2")}, rho=r.choice([4, 8, 8, 16]), al=r.randrange(0, 4))
        return ev

    def op_bnd(self):
        i = self.one(self.byk["DL"] + self.byk["TIE"])
        return i and self.cur and {"op": "q.bnd", "id": i, "half": (0 if self.st[i]["k"] == "DL" else self.r.choice([1, 2])) if self.p(0.97) else self.r.choice([0, 1])}

    def op_ovl(self):
        own = self.one([i for k in BRANCH for i in self.byk[k]])
        return own and self.cur and {"op": "q.ovl", "id": own, "red": self.r.choice([8, 4, 6])}

    def op_i(self):
        t = self.one(self.terms())
        return t and self.cur and {"op": "q.i", "t": t}

    def op_obs(self):
        return {"op": "obs"}

    def op_move(self):
        return {"op": "move"}

    # ---------------------------------------------------------------- extensions
    HOSTS = {"detail": ["LOAD"], "slackTerminal": ["VL"], "branchStatus": CONN, "position": CONN, "busbarSectionPosition": ["BBS"],
             "activePowerControl": ["GEN", "BAT"], "coordinatedReactiveControl": ["GEN"], "generatorRemoteReactivePowerControl": ["GEN"],
             "hvdcAngleDroopActivePowerControl": ["HVDC"], "hvdcOperatorActivePowerRange": ["HVDC"], "twoWindingsTransformerPhaseAngleClock": ["T2"],
             "threeWindingsTransformerPhaseAngleClock": ["T3"], "voltagePerReactivePowerControl": ["SVC"], "entsoeArea": ["SUB"],
             "mergedXnode": ["LINE", "TIE"], "xnode": ["DL"], "measurements": CONN, "discreteMeasurements": CONN + ["SW", "SUB", "VL", "BUS", "HVDC", "NET"]}
    XF = {"detail": dict(fp="n", fq="n", vp="n", vq="n"), "branchStatus": dict(status="e:bst"), "busbarSectionPosition": dict(bi="u", si="u"),
          "activePowerControl": dict(part="b", droop="n"), "coordinatedReactiveControl": dict(qp="n"),
          "generatorRemoteReactivePowerControl": dict(tq="n", en="b"), "hvdcAngleDroopActivePowerControl": dict(p0="n", droop="n", en="b"),
          "hvdcOperatorActivePowerRange": dict(o12="z", o21="z"), "twoWindingsTransformerPhaseAngleClock": dict(pac="clk"),
          "threeWindingsTransformerPhaseAngleClock": dict(l2="clk", l3="clk"), "voltagePerReactivePowerControl": dict(slope="z"),
          "entsoeArea": dict(code="e:area"), "mergedXnode": dict(rdp="unit", xdp="unit", p1="n", q1="n", p2="n", q2="n", l1="e:str", l2="e:str", code="e:code"),
          "xnode": dict(code="e:code")}

    def xval(self, ty, pe):
        r = self.r
        if ty == "u":
            return r.randrange(0, 30)
        if ty == "clk":
            return r.choice([12, 13, 40]) if self.p(pe) else r.randrange(0, 12)
        if ty == "unit":
            return r.choice([9, -1, NAN]) if self.p(pe) else r.randrange(0, 9)
        if ty == "e:bst":
            return r.choice(["IN_OPERATION", "PLANNED_OUTAGE", "FORCED_OUTAGE"])
        if ty == "e:area":
            return r.choice(["FR", "BE", "D4", "ES"])
        if ty == "e:code":
            return "" if self.p(pe) else self.txt("XX", "YY1", "ZZ2")
        return self.value(ty, pe)

    def exts(self):
        return [(i.split("#ext:")[0], i.split("#ext:")[1]) for i in self.byk["EXT"]]

    def feeder(self, pe):
        return {"nm": "" if self.p(pe * 0.3) else self.txt("fa", "fb", "fc"), "o": self.r.randrange(0, 50), "d": self.r.choice(["TOP", "BOTTOM", "UNDEFINED"])}

    def op_extadd(self):
        pe = self.prof.get("xpe", 0.15)
        r = self.r
        if self.p(0.2) and self.exts():
            id, xn = self.one(self.exts())  # a replacement
        else:
            xn = self.one(self.prof["xset"]) if "xset" in self.prof and self.p(0.3) else self.one(sorted(self.HOSTS))
            hosts = [i for k in self.HOSTS[xn] for i in self.byk[k]]
            if self.p(pe * 0.4):
                hosts = [i for k in CONN + ["SW", "SUB", "VL", "BUS", "HVDC"] for i in self.byk[k]] + ["nowhere"]
            id = self.one(hosts)
        if "xset" not in self.prof or self.p(0.7):
            pass
        elif self.exts():  # one more on an object that has some
            id, got = self.one(self.exts())
            more = [x for x in sorted(self.HOSTS) if x != got and self.st[id]["k"] in self.HOSTS[x]]
            if more:
                xn = self.one(more)
        if not id:
            return None
        a = {}
        if xn == "slackTerminal":
            t = self.one(self.rterms(vl=id) if not self.p(pe) else self.rterms())
            if t and not self.p(pe * 0.4):
                a = {"t": t}
        elif xn == "position":
            fs = [["f0"], ["f1"], ["f1", "f2"], ["f1", "f2", "f3"]][r.randrange(4)] if not self.p(pe) else r.sample(["f0", "f1", "f2", "f3"], r.randrange(0, 4))
            a = {f: self.feeder(pe) for f in fs}
        elif xn in self.XF:
            a = {f: self.xval(t, pe * 0.5) for f, t in self.XF[xn].items() if not self.p(pe * 0.3)}
            if xn == "generatorRemoteReactivePowerControl":
                t = self.one(self.rterms())
                if t:
                    a["t"] = t
        return {"op": "extadd", "id": id, "xn": xn, "a": a}

    MT = ["ANGLE", "ACTIVE_POWER", "APPARENT_POWER", "REACTIVE_POWER", "CURRENT", "VOLTAGE", "FREQUENCY", "OTHER"]
    DT = ["TAP_POSITION", "SWITCH_POSITION", "SHUNT_COMPENSATOR_SECTION", "OTHER"]
    TC = ["RATIO_TAP_CHANGER", "PHASE_TAP_CHANGER"] + ["%s_TAP_CHANGER_%d" % (x, i) for x in ("RATIO", "PHASE") for i in (1, 2, 3)]

    def meas(self, id, xn, pe):
        r = self.r
        items = sorted(self.st[id + "#ext:" + xn].get("items", {}))
        ev = {"op": "extset", "id": id, "xn": xn, "x": "", "mid": self.one(items, "m0")}
        f = r.choice(["new"] * 5 + ["rm", "value", "value", "valid", "prop", "rmprop", "clean"] + (["sd"] if xn == "measurements" else []))
        ev["f"] = f
        k = self.st[id]["k"]
        dv = lambda: dict(self.one([dict(vt="BOOLEAN", vx=r.choice(["true", "false"])), dict(vt="INT", vx=str(r.randrange(-5, 20))), dict(vt="STRING", vx=self.txt("", "on", "a b"))]))
        if f == "new":
            ev["mid"] = self.one(items, "m0") if self.p(pe) and items else "m%d" % self.nid
            self.nid += 1
            if ev["mid"] == "" or (self.p(0.1) and "" not in items):
                ev["mid"] = "" if "" not in items else "m%d" % self.nid
            if xn == "measurements":
                a = {"type": r.choice(self.MT), "value": self.num("N", 0.1), "valid": self.p(0.6), "sd": self.num("N", 0.1)}
                if (k in INJ + ["BBS"]) == self.p(pe):
                    a["side"] = r.choice(["ONE", "TWO"] + (["THREE"] if k == "T3" else []))
                if self.p(0.2):
                    a.pop(self.one(["type", "valid", "sd", "value"] if self.p(pe) else ["sd"]))
            else:
                a = {"type": r.choice(self.DT if k in ("T2", "T3", "SW") or self.p(pe) else self.DT[2:]), "valid": self.p(0.7)}
                if a["type"] == "TAP_POSITION" or self.p(0.1):
                    a["tc"] = r.choice(self.TC if self.p(pe) else (self.TC[:2] if k == "T2" else self.TC[2:]))
                if not self.p(pe * 0.5):
                    a.update(dv())
                if self.p(pe * 0.4):
                    a.pop(self.one(["type", "tc", "valid"]), None)
            if self.p(0.3):
                a.update(pk=r.choice(["k1", "k2", ""] if self.p(pe) else ["k1", "k2"]), pv=self.txt("p", "q"))
            ev["a"] = a
        elif f == "value" and xn == "measurements" or f == "sd":
            ev["x"] = self.num("N", 0.15)
        elif f == "value":
            ev.update(dv())
        elif f == "valid":
            ev["x"] = self.p(0.5)
        elif f in ("prop", "rmprop"):
            ev["c"] = r.choice(["k1", "k2", "k3", ""] if f == "prop" and self.p(pe) else ["k1", "k2", "k3"])
            ev["x"] = self.txt("p", "q", "")
        return ev

    def op_extset(self):
        pe = self.prof.get("xpe", 0.15)
        es = self.exts()
        if self.p(0.12):
            vl = self.one(self.vls())
            if self.p(0.4):
                t = self.one(self.rterms(vl=vl))
                if t:
                    return {"op": "extset", "id": vl, "xn": "slackAttach", "f": self.r.choice(["bv", "bb"]), "x": t}
            if self.p(0.15):
                return {"op": "extset", "id": vl, "xn": "slackNone", "f": "reset", "x": ""}
            return {"op": "extset", "id": vl, "xn": "slackReset", "f": "reset", "x": self.one(self.rterms(vl=vl), "") if self.p(0.6) else ""}
        if not es:
            return None
        id, xn = self.one([e for e in es if e[1] in self.prof["xset"]] or es) if "xset" in self.prof and self.p(0.6) else self.one(es)
        if self.p(pe * 0.1):
            id = "nowhere"
        ev = {"op": "extset", "id": id, "xn": xn}
        if xn == "slackTerminal":
            ev.update(f=self.r.choice(["t", "tc"]), x=self.one(self.rterms(vl=id) if not self.p(pe) else self.rterms(), "") if self.p(0.7) else "")
            return ev
        if xn == "position":
            c = self.r.choice(["nm", "o", "d"])
            have = [f for f in ("f0", "f1", "f2", "f3") if f in self.st.get(id + "#ext:position", {})]
            ev.update(f=self.one(have if have and not self.p(pe) else ["f0", "f1", "f2", "f3"]), c=c,
                      x=self.feeder(0)[c])
            return ev
        if xn in ("measurements", "discreteMeasurements"):
            return self.meas(id, xn, pe) if id in self.st else None
        if xn == "generatorRemoteReactivePowerControl":
            return None
        f = self.one(sorted(self.XF[xn]))
        ev.update(f=f, x=self.xval(self.XF[xn][f], pe))
        return ev

    def op_extdyn(self):
        """the extensions that have values per variant, without operations that add or remove them"""
        e = self.one([e for e in self.exts() if e[1] in ("detail", "slackTerminal")])
        if not e:
            return None
        if e[1] == "slackTerminal":
            x = self.one(self.rterms(vl=e[0]), "")
            return x and {"op": "extset", "id": e[0], "xn": e[1], "f": "t", "x": x}
        f = self.one(sorted(self.XF["detail"]))
        return {"op": "extset", "id": e[0], "xn": e[1], "f": f, "x": self.xval(self.XF["detail"][f], 0.1)}

    def op_extrm(self):
        es = self.exts()
        if not es:
            return None
        id, xn = self.one(es)
        if self.p(0.1):
            xn = self.one(sorted(self.HOSTS))
        return {"op": "extrm", "id": id, "xn": xn}

    # ---------------------------------------------------------------- saving and loading
    def op_xml(self):
        r = self.r
        px = self.prof.get("xml", {})
        ev = {"op": "xml", "lvl": r.choice(px.get("lvl", [""])), "anon": self.p(px.get("anon", 0)), "ver": r.choice(px.get("ver", [""])), "strict": self.p(0.4),
              "swap": self.p(px.get("swap", 0.8)), "twice": self.p(0.3)}
        if self.p(0.15):
            ev["bsv"] = False
        if self.p(0.15):
            ev["ext"] = sorted(r.sample(sorted(self.HOSTS), 3))
        if not self.cur:
            return None
        if px.get("opts"):
            self.xml_options(ev)
        if px.get("relabel") and self.p(px["relabel"]):
            # the document claims another version than its own
            ev.update(anon=False, ver="", swap=False, twice=False, relabel=r.choice(["1.0", "1.1", "1.2", "1.3", "1.4", "1.4", "1.5", "1.6"]))
        if not ev["anon"] and self.p(0.2):
            ev["file"] = True
        return ev

    def op_save(self):
        """what a thread saves and loads: its own variant, into a network of its own"""
        r = self.r
        ev = {"op": "xml", "lvl": r.choice(["", "", "NB", "BB", "BR"]), "anon": self.p(0.15), "ver": r.choice(["", "", "1.3", "1.4"]), "strict": False, "swap": False, "twice": self.p(0.3)}
        ev["copy"], ev["mine"] = not ev["anon"], True
        if not ev["anon"] and self.p(0.2):
            ev["file"] = True
        return ev if self.cur else None

    def xml_options(self, ev):
        """options of the saving and of the loading, and changes of the document in between"""
        r = self.r
        there = sorted({s["xn"] for s in self.st.values() if s["k"] == "EXT"})
        some = lambda k: sorted(set(r.sample(there, min(len(there), r.randrange(1, k + 1))) + r.sample(sorted(self.HOSTS), 1))) if there else sorted(r.sample(sorted(self.HOSTS), 2))
        if self.p(0.5):
            ev["par"] = r.choice([1, 2])
        if self.p(0.3):
            ev["indent"] = self.p(0.3)
        if self.p(0.4):
            ev["bsv"] = self.p(0.3)
        ev.pop("ext", None)
        # of an object with several extensions, one may be kept and the other not
        many = {}
        for i, x in self.exts():
            many.setdefault(i, []).append(x)
        many = [v for i, v in sorted(many.items()) if len(v) > 1]
        some1 = lambda k: sorted({self.one(sorted(self.one(many)))}) if many and self.p(0.4) else some(k)
        if self.p(0.35):
            ev["ext"] = some1(3)
        if self.p(0.35):
            ev["iext"] = some1(3)
            ev["twice"] = False
        if self.p(0.3):
            ev["ethrow"] = self.p(0.7)
        if self.p(0.3):
            ev["alien"] = self.one([i for i, s in sorted(self.st.items()) if s["k"] in ("SUB", "VL", "LOAD", "LINE", "BBS", "SW", "NET")], "S1")
            if self.p(0.5):
                ev["ithrow"] = self.p(0.7)
            if "iext" in ev and self.p(0.3):
                ev["iext"] = sorted(ev["iext"] + ["alien"])
        elif self.p(0.1):
            ev["ithrow"] = True
        if self.p(0.3):
            of = ev.get("ext") or there or sorted(self.HOSTS)
            slack = {"1.3": "1.0", "1.4": "1.1", "1.5": "1.2", "": "1.2"}.get(ev["ver"], "1.0")
            good = lambda x: slack if x == "slackTerminal" else "1.0"
            ev["xv"] = {x: good(x) if self.p(0.8) else r.choice(["1.0", "1.1", "1.2", "2.0"]) for x in r.sample(of, min(len(of), r.randrange(1, 3)))}
            if self.p(0.15):
                ev["xv"][r.choice(sorted(self.HOSTS))] = "1.0"
        if self.p(0.1):
            ev["trunc"] = r.choice([r.randrange(0, 1000), 999, 1000, 995])
            ev["twice"] = False
        elif self.p(0.3):
            self.xml_cut(ev)

    def xml_cut(self, ev):
        """an attribute that is needed goes missing, or cannot be read"""
        r = self.r
        ks = {s["k"] for s in self.st.values()}
        el = r.choice(sorted(x for k in ks for x in CUTEL.get(k, ())) or ["substation"])
        ev.pop("alien", None)
        ev["cut"] = el
        ev["cutbad"] = self.p(0.3) and el in CUTQ
        ev["cutat"] = r.choice(CUTQ[el] if ev["cutbad"] else CUTQ.get(el, []) + CUTT.get(el, []) or ["id"])
        if el in CUTID and not ev["cutbad"] and self.p(0.2):
            ev["cutat"] = "id"
        # the other switches do without
        ev["cutby"] = "node1" if el == "switch" and ev["cutat"] in ("kind", "retained") else ""
        ev["twice"] = False

    # ---------------------------------------------------------------- walk
    # ---------------------------------------------------------------- systematic sweeps
    EDGES = [NAN, 0, 8, -8, PMAX, NMAX]

    def edges(self, i, k, f):
        """values worth giving to a numeric attribute: the usual suspects, and the neighbourhood of the other attributes"""
        base = i.rsplit("#", 1)[0] if k == "MOD" else i
        own = dict(self.st.get(base, {}), **self.dy.get(base, {}))
        near = sorted({v + d for g, v in own.items() if g in FIELDS.get(k, {}) and isinstance(v, int) and not isinstance(v, bool) and abs(v) < 900000000 for d in (-1, 0, 1)})
        return self.EDGES + near

    ALLSETS = [(k, f) for k in sorted(FIELDS) for f in sorted(FIELDS[k])] + [(k, "fic") for k in sorted(FIELDS) if k not in PART and k != "MOD"]

    def date(self, ev, pe):
        r = self.r
        bad = self.p(pe)
        if bad and self.p(0.3):
            return dict(ev, x=r.choice(["", "never", "12/03/2020"]), dt=[])
        mo = r.randrange(1, 13)
        d = r.choice([1, 28, r.randrange(1, 29), 29 if bad or mo != 2 else 28, 30 if bad or mo != 2 else 28])
        if bad and self.p(0.3):
            mo = r.choice([0, 13])
        z = r.choice([0, 1, -1])
        return dict(ev, x="", dt=[r.choice([1999, 2000, 2020, 2021, 2100]), mo, d if not bad or self.p(0.7) else r.choice([0, 32]), r.choice([0, 12, 23, r.randrange(24)]), r.randrange(60), r.choice([0, 59]),
                                  r.choice([0, 0, 123000, 999000, 1, 100000]), z, abs(z) * r.randrange(13), abs(z) * r.choice([0, 0, 30, 45])])

    def set_edges(self, i, k, f):
        own = i.rsplit("#", 1)[0] if k in PART or k == "MOD" else ""
        ty = "b" if f == "fic" else FIELDS[k][f]
        ev = {"op": "set", "id": i, "own": own, "f": f, "at": 0, "c": ""}
        if ty == "b":
            xs = [False, True, False]
        elif ty.startswith("e:"):
            xs = ENUM[ty[2:]]
        elif ty == "tag":
            xs = ["ta", "ta"]
        elif ty in ("rt", "rtt"):
            own_t = self.one(self.rterms(), "")
            xs = ["", "@", own_t, "@", ""]
        elif ty == "fd":
            xs = [-1, 0, 5]
        elif ty == "date":
            return [dict(ev, x="", dt=d) for d in ([], [2100, 2, 29, 0, 0, 0, 0, 0, 0, 0], [2000, 2, 29, 0, 0, 0, 0, 0, 0, 0], [2019, 0, 1, 0, 0, 0, 0, 0, 0, 0], [2019, 12, 31, 23, 59, 59, 999999, -1, 0, 30],
                                                   [2019, 4, 31, 0, 0, 0, 0, 0, 0, 0], [2024, 12, 0, 0, 0, 0, 0, 0, 0, 0], [2024, 1, 1, 0, 0, 0, 1000, 1, 14, 0])]
        elif ty == "sec":
            m = self.st[i]["model"]["max"] if self.st[i]["model"]["t"] == "LINEAR" else len(self.st[i]["model"]["secs"])
            xs = [m, m + 1, 0, m + 2, 1]
        elif ty == "max":
            xs = [0, 1, 7, 1, 2]
        elif ty in ("pos", "low"):
            s = self.st[i]
            xs = [s["low"] - 1, s["high"] + 1, s["low"], s["high"]] if ty == "pos" else [s["low"] + 3, -5, 0]
        elif ty == "step":
            s = self.st[i]
            return [dict(ev, at=at, c=c, x=self.num("n", 0)) for c in ["rho", "r", "x", "g", "b"] + (["alpha"] if k == "PTC" else []) for at in (s["low"], s["high"], s["low"] - 1, s["high"] + 1)] \
                + [dict(ev, at=s["low"], c="rho", x=NAN)]
        else:
            xs = self.edges(i, k, f) if ty not in ("n", "h") else [NAN, 0, -8, PMAX]
            if f in ("secb", "secg"):
                n = len(self.st[own]["model"]["secs"])
                return [dict(ev, at=at, x=x) for at, x in [(1, NAN), (n, 8), (n, NAN), (1, 0)]]
        return [dict(ev, x=x) for x in xs if not (x in (PMAX, NMAX) and ty in ("h", "H"))]

    def sweep_set(self, steps):
        sigs = collections.defaultdict(list)
        for i, s in self.st.items():
            for f in FIELDS.get(s["k"], {}):
                sigs[(s["k"], f)].append(i)
            if s["k"] == "SHU":
                for f in (("bps", "gps", "max") if s["model"]["t"] == "LINEAR" else ("secb", "secg")):
                    sigs[("MOD", f)].append(i + "#mod")
            if s["k"] not in PART:
                sigs[(s["k"], "fic")].append(i)
        k0, parts = self.idx
        if self.p(0.5) and self.cur:
            self.do({"op": "vclone", "src": self.cur, "tgts": ["swp"], "ow": False, "single": True})
        n = 0
        turn = [self.ALLSETS[j] for j in range(k0 % parts, len(self.ALLSETS), parts)]
        spare = [self.ALLSETS[j] for j in range((k0 + 1) % parts, len(self.ALLSETS), parts)]
        for k, f in turn + spare:
            if n >= steps or self.dead:
                return
            if (k, f) not in sigs:
                continue
            i = self.one(sigs[(k, f)])
            if i.split("#mod")[0] not in self.st:
                continue
            evs = self.set_edges(i, k, f)
            if len(evs) > 14:
                evs = self.r.sample(evs, 14)
            for ev in evs:
                if self.dead:
                    return
                self.do(ev)
                n += 1
                if self.p(0.06) and len(self.vs) > 1 and not self.dead:
                    self.do({"op": "vselect", "v": self.one(self.vs)})

    def twists(self, ev):
        """every way of spoiling one argument of a request"""
        out = []

        def add(path, act):
            e = copy.deepcopy(ev)
            x = e
            for y in path[:-1]:
                x = x[y]
            if act == "pop":
                x.pop(path[-1])
            else:
                x[path[-1]] = act
            out.append(e)

        def leaves(x, path):
            for y in (sorted(x) if isinstance(x, dict) else range(len(x))):
                v, q = x[y], path + [y]
                if isinstance(v, (dict, list)):
                    if v or y == "gen":
                        leaves(v, q)
                    if isinstance(v, list) and y not in ("legs", "tags"):
                        add(q, [])
                elif isinstance(v, bool) or isinstance(v, str):
                    if y in ("rt", "c1", "c2"):
                        add(q, "@" if y == "rt" and ev["op"] == "add" else "")
                        if y != "rt":
                            add(q, "nowhere")
                    elif y not in ("id", "nm", "fic", "model", "side", "lt", "ty", "kind", "topo", "swk"):
                        add(q, "pop")
                elif isinstance(v, int):
                    if y in ("pos", "n", "max"):
                        for z in ([-1] if y == "pos" else [0]) + [v + 1, 50]:
                            add(q, z)
                        continue
                    if y in ("low",):
                        continue
                    if isinstance(x, dict):
                        add(q, "pop")
                    for z in ([NAN] if path[-1:] in (["h1"], ["h2"]) or y in ("bps", "gps") else [NAN, 0, -8, PMAX]):
                        if y != "d":
                            add(q, z)
                    sib = sorted({w for g, w in x.items() if g != y and isinstance(w, int) and not isinstance(w, bool) and abs(w) < 900000000} if isinstance(x, dict) else [])
                    for w in sib[:6]:
                        if y not in ("d", "bps", "gps") and path[-1:] not in (["h1"], ["h2"]):
                            add(q, w + 1)
                            add(q, w - 1)

        leaves(ev["a"], ["a"])
        if ev["op"] == "add" and ev["k"] != "IC":
            for x in [self.one([y for y in sorted(self.st) if "#" not in y]), self.one([a for m in self.al.values() for a in m], ""), ""]:
                e = copy.deepcopy(ev)
                e.update(id=x, uniq=False)
                out.append(e)
            for j, d in enumerate(ev["ends"]):
                add(["ends", j, "vl"], "nowhere")
                if d["vl"] in self.st and self.isnb(d["vl"]):
                    for x in sorted(self.used_nodes(d["vl"]))[:1] + [-1]:
                        add(["ends", j, "node"], x)
                elif d["vl"] in self.st:
                    for b, c in (("", ""), ("nowhere", ""), ("", "nowhere"), (self.one([x for x in self.byk["BUS"] if self.st[x]["own"] != d["vl"]], "nowhere"), "")):
                        e = copy.deepcopy(ev)
                        e["ends"][j].update(bus=b, cbus=c)
                        out.append(e)
        return out

    def sweep_add(self, steps):
        kinds = ["SUB", "VL", "BUS", "SW", "IC", "BBS", "HVDC", "T3"] + INJ + BRANCH + ["TC", "LIM", "RL"]
        k0, parts = self.idx
        n = 0
        saved, self.prof = self.prof, dict(self.prof, pbad=0, clash=0, pe=0.0)
        try:
            for t in range(3 * len(kinds)):
                if n >= steps or self.dead:
                    return
                k = kinds[(k0 + t) % len(kinds)]
                ev = {"TC": self.op_addtc, "LIM": self.op_addlim, "RL": self.op_addrl}[k]() if k in ("TC", "LIM", "RL") else self.equip(k, 0.0)
                if not ev:
                    continue
                tw = self.twists(ev)
                part = tw[(k0 // len(kinds)) % 3::3]
                self.r.shuffle(part)
                if len(part) > 12:
                    part = self.r.sample(part, 12)
                refused = False
                for e in part:
                    if self.dead:
                        return
                    out = self.do(e)
                    n += 1
                    if out["res"] == "ok":
                        # the twisted request was a right one: the next ones need another identity and another place
                        ev2 = {"TC": self.op_addtc, "LIM": self.op_addlim, "RL": self.op_addrl}[k]() if k in ("TC", "LIM", "RL") else self.equip(k, 0.0)
                        if not ev2:
                            break
                        ev = ev2
                        break
                    refused = True
                if refused and not self.dead and self.cur:
                    ev["retry"] = True
                    self.do(ev)
                    n += 1
        finally:
            self.prof = saved

    def walk(self, steps):
        if self.prof.get("sweep"):
            getattr(self, "sweep_" + self.prof["sweep"])(steps)
            if not self.dead:
                self.do({"op": "obs"}, self.prof.get("fullobs", "sdatvlk"))
            return self.events
        ops = self.prof["ops"]
        names = sorted(ops)
        if self.prof.get("mt") and self.p(0.8):
            self.do({"op": "vmt", "on": True})
        w = [ops[x] for x in names]
        n = 0
        tries = 0
        while n < steps and not self.dead and tries < steps * 20:
            tries += 1
            if self.prof.get("mt") and self.p(0.5):
                self.change_thread()
            name = self.r.choices(names, w)[0]
            ev = getattr(self, "op_" + name)()
            if not ev:
                continue
            if ev is True:
                n += 2
                continue
            obs = None
            if name == "obs":
                obs = self.prof.get("fullobs", "sdatvlk")
            if not self.cur and name != "blind" and ev["op"] not in ("vselect", "vclone", "vremove", "obs", "alias", "rmalias", "prop", "q.find", "vmt"):
                continue
            self.do(ev, obs)
            n += 1
            if self.fresh_loss and not self.dead and self.prof.get("reuse"):
                self.fresh_loss = False
                self.do(dict(self.op_find(), own=""))
        if not self.dead:
            self.do({"op": "obs"}, self.prof.get("fullobs", "sdatvlk"))
        return self.events

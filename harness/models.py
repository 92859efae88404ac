"""Small models of the specification: what sets the stage, and the alphabet of operations explored exhaustively from there."""
NAN = -1000000000
I0 = "InitialVariant"


def ev(op, **kw):
    e = {"op": op, "th": 0, "own": "", "ret": "", "res": "ok"}
    e.update(kw)
    if "t" in e:
        c, i = e["t"].rsplit("/", 1)
        e["tc"], e["ti"] = c, int(i)
    return e


def end(vl, at):
    return {"vl": vl, "node": at if isinstance(at, int) else -1, "bus": "" if isinstance(at, int) else at, "cbus": ""}


def add(k, id, *ends, sub="", nm="", uniq=False, fic=False, **a):
    return ev("add", k=k, id=id, nm=nm, fic=fic, uniq=uniq, a=a, ends=list(ends), sub=sub, via="")


def sub(id="S"):
    return add("SUB", id, tso="", tags=[])


def vl(id, topo, s="S", nv=3200):
    return add("VL", id, sub=s, nv=nv, topo=topo, lo=NAN, hi=NAN)


def nb(id, s="S"):
    return vl(id, "NODE_BREAKER", s)


def bb(id, *buses, s="S"):
    return [vl(id, "BUS_BREAKER", s)] + [add("BUS", b, end(id, "")) for b in buses]


def sw(id, v, a, b, kind="BREAKER", open=False, ret=False):
    if not isinstance(a, int):  # the adder of a bus/breaker level knows nothing of kinds
        return add("SW", id, end(v, a), end(v, b), swk=kind, open=open, ret=False)
    return add("SW", id, end(v, a), end(v, b), swk=kind, open=open, ret=ret)


def ic(v, a, b):
    return add("IC", "", end(v, a), end(v, b))


def load(id, v, at):
    return add("LOAD", id, end(v, at), lt="UNDEFINED", p0=8, q0=16)


def bbs(id, v, at):
    return add("BBS", id, end(v, at))


def gen(id, v, at, **kw):
    return add("GEN", id, end(v, at), **dict(dict(minP=0, maxP=800, rs=NAN, es="OTHER", tp=80, tq=8, tv=3200, on=True), **kw))


def line(id, v1, a1, v2, a2):
    return add("LINE", id, end(v1, a1), end(v2, a2), r=8, x=16, g1=1, b1=2, g2=3, b2=4)


def t2(id, v1, a1, v2, a2, s="S"):
    return add("T2", id, end(v1, a1), end(v2, a2), sub=s, r=8, x=16, g=1, b=2, ru1=3200, ru2=1600, rs=NAN)


def t3(id, v, *ats, s="S"):
    return add("T3", id, *[end(v, a) for a in ats], sub=s, legs=[dict(r=8, x=8, g=i, b=i, ru=3200 - i, rs=NAN) for i in range(3)])


def vsc(id, v, at):
    return add("VSC", id, end(v, at), loss=8, on=True, tv=3200, tq=8)


def hvdc(id, c1, c2):
    return add("HVDC", id, r=8, nv=3200, maxP=800, p=8, mode="SIDE_1_RECTIFIER_SIDE_2_INVERTER", c1=c1, c2=c2)


def set_(id, f, x, own="", at=0, c=""):
    return ev("set", id=id, own=own, f=f, x=x, at=at, c=c)


def flip(id, f="open"):
    return [set_(id, f, True), set_(id, f, False)]


def clone(s, *t, ow=False):
    return ev("vclone", src=s, tgts=list(t), ow=ow, single=len(t) == 1)


def sel(v, **kw):
    return ev("vselect", v=v, **kw)


def vrm(v, **kw):
    return ev("vremove", v=v, **kw)


def rm(id, k, **kw):
    return ev("rm", id=id, k=k, **kw)


def alias(id, al, ty="", uniq=False):
    return ev("alias", id=id, al=al, ty=ty, uniq=uniq)


def rmalias(id, al):
    return ev("rmalias", id=id, al=al)


def find(*ids):
    return ev("q.find", ids=list(ids))


def con(t):
    return [ev("con", t=t), ev("dis", t=t)]


def rtc(own, leg=0, low=0, pos=0, reg=False, n=3, **kw):
    return ev("addtc", k="RTC", own=own, leg=leg, a=dict(dict(low=low, pos=pos, reg=reg, db=8, tv=3200, lt=True, steps=[dict(rho=8 + i, r=i, x=i, g=i, b=i) for i in range(n)]), **kw))


def ptc(own, leg=0, low=0, pos=0, reg=False, n=3, **kw):
    return ev("addtc", k="PTC", own=own, leg=leg, a=dict(dict(low=low, pos=pos, reg=reg, db=8, rv=8, mode="FIXED_TAP", steps=[dict(rho=8, r=i, x=i, g=i, b=i, alpha=8 * i) for i in range(n)]), **kw))


def cat(*xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


def model(name, setup, ops, depth=1000, obs="sda", thorough=None, first=0, limit=None):
    return {"limit": limit, "first": first, "name": name, "setup": cat(*setup), "ops": cat(*ops), "depth": depth, "obs": obs, "thorough": thorough}


M = {}
OBJ = [sub(), bb("V", "B1", "B2"), load("L", "V", "B1"), sw("K", "V", "B1", "B2")]
M["V01"] = [
    model("three variants, a set point and a switch", OBJ + [clone(I0, "a"), clone(I0, "b")],
          [sel(I0), sel("a"), sel("b"), set_("L", "p0", 80), set_("L", "p0", 88), flip("K"), clone("a", "b", ow=True), clone("b", I0, ow=True)], thorough=1),
    model("objects that come and go, and tap positions", [sub(), bb("V", "B1", "B2"), t2("T", "V", "B1", "V", "B2"), clone(I0, "a")],
          [sel(I0), sel("a"), rtc("T"), set_("T#rtc", "pos", 1, own="T"), set_("T#rtc", "pos", 2, own="T"), set_("T#rtc", "low", 1, own="T"), set_("T#rtc", "low", 0, own="T"),
           rm("T#rtc", "TAP", own="T"), clone("a", I0, ow=True), vrm("a"), clone(I0, "a")]),
]
M["V02"] = [
    model("every history of three names", OBJ[:3],
          [clone(I0, "a"), clone(I0, "b"), clone("a", "b"), clone("b", "a", ow=True), clone("a", I0, "b", ow=True), clone(I0, "a", "b"), clone("zz", "a"), vrm("a"), vrm("b"), vrm(I0),
           sel("a"), sel("b"), sel(I0), sel("zz"), set_("L", "p0", 80)], thorough=1),
    model("recycled slots", OBJ[:3] + [clone(I0, "a", "b", "c")],
          [vrm("a"), vrm("b"), vrm("c"), clone(I0, "a"), clone(I0, "b"), clone(I0, "c"), sel("a"), sel("c"), set_("L", "p0", 80)]),
]
T = dict(th=1)
M["V03"] = [
    model("two threads", OBJ[:3] + [clone(I0, "a")],
          [ev("vmt", on=True), ev("vmt", on=False), ev("vmt", on=True, th=1), ev("vmt", on=False, th=1), sel(I0), sel("a"), sel(I0, th=1), sel("a", th=1),
           set_("L", "p0", 80), dict(set_("L", "p0", 88), th=1), clone(I0, "a", ow=True), dict(clone("a", I0, ow=True), th=1)]),
]
M["I01"] = [
    model("two names, two substations, aliases", [],
          [sub("x"), sub("y"), add("SUB", "x", uniq=True, tso="", tags=[]), rm("x", "SUB"), rm("y", "SUB"), alias("N", "x"), alias("N", "y", "ty"), alias("x", "y"), alias("x", "z", "ty"), alias("y", "z", "ty"),
           alias("N", "x", uniq=True), rmalias("N", "x"), rmalias("N", "y"), rmalias("x", "y"), rmalias("x", "z"), rmalias("y", "z"), find("x", "y", "z", "x#0", "N", "zz")], depth=6, obs="sdl", thorough=8),
]
M["A01"] = [
    model("refused operations between accepted ones", OBJ + [sw("K2", "V", "B2", "B1"), t2("T", "V", "B1", "V", "B2"), rtc("T")],
          [set_("L", "p0", 80), set_("L", "p0", NAN), set_("T#rtc", "pos", 1, own="T"), set_("T#rtc", "pos", 7, own="T"), set_("T#rtc", "reg", True, own="T"), set_("T#rtc", "rt", "@", own="T"), set_("T#rtc", "db", -8, own="T"), set_("T#rtc", "rt", "T/0", own="T"),
           flip("K"), add("LOAD", "L2", end("V", "nowhere"), lt="UNDEFINED", p0=8, q0=8), add("LOAD", "L", end("V", "B1"), lt="UNDEFINED", p0=8, q0=8), load("L2", "V", "B2"), rm("L2", "LOAD"),
           ev("rmbus", vl="V", id="B1"), rm("V", "VL"), rm("S", "SUB"), ev("setcb", t="L/0", bus="B2"), ev("setcb", t="L/0", bus="B1"), ev("setcb", t="L/0", bus="zz"), clone(I0, I0), vrm(I0), sel("zz"), alias("L", "S"),
           rtc("T", low=0, pos=9), add("SUB", "S", tso="", tags=[])], depth=5, thorough=7),
]
M["E01"] = [
    model("a generator and its limits", [sub(), bb("V", "B"), gen("G", "V", "B")],
          [[set_("G", "minP", x) for x in (NAN, -8, 0, 8)], [set_("G", "maxP", x) for x in (NAN, -8, 0, 8)], [set_("G", "tv", x) for x in (NAN, 0, -8, 3200)], [set_("G", "tq", x) for x in (NAN, 8)], flip("G", "on"),
           [set_("G", "rs", x) for x in (NAN, 0, 8)]]),
    model("a static compensator and a shunt", [sub(), bb("V", "B"), add("SVC", "C", end("V", "B"), bmin=0, bmax=8, vs=3200, qs=8, mode="OFF"),
                                              add("SHU", "H", end("V", "B"), on=False, tv=NAN, db=NAN, model="LINEAR", bps=8, max=3, n=1)],
          [[set_("C", "mode", x) for x in ("OFF", "VOLTAGE", "REACTIVE_POWER")], [set_("C", "vs", x) for x in (NAN, 3200)], [set_("C", "qs", x) for x in (NAN, 8)],
           flip("H", "on"), [set_("H", "tv", x) for x in (NAN, 0, 3200)], [set_("H", "db", x) for x in (NAN, -8, 0)], [set_("H", "n", x) for x in (0, 3, 4)]]),
    model("limits of a voltage level, a converter station and a dc line", [sub(), bb("V", "B"), vsc("C1", "V", "B"), vsc("C2", "V", "B"), hvdc("H", "C1", "C2")],
          [[set_("V", "lo", x) for x in (NAN, 0, 8, 80)], [set_("V", "hi", x) for x in (NAN, 0, 8)], [set_("V", "nv", x) for x in (NAN, 0, 3200)], flip("C1", "on"), [set_("C1", "tv", x) for x in (NAN, 0, 8)],
           [set_("C1", "tq", x) for x in (NAN, 8)], [set_("C1", "loss", x) for x in (NAN, -1, 0, 800, 801)], [set_("H", "p", x) for x in (NAN, -8, 0)], [set_("H", "maxP", x) for x in (NAN, -8, 800)]]),
]
M["K01"] = [
    model("a transformer with both tap changers", [sub(), bb("V", "B1", "B2"), t2("T", "V", "B1", "V", "B2"), rtc("T", rt="T/0"), ptc("T", rt="T/0")],
          [[set_("T#rtc", "pos", x, own="T") for x in (0, 2, 3, -1)], [set_("T#ptc", "pos", x, own="T") for x in (0, 2, 3)], [set_("T#rtc", "reg", x, own="T") for x in (True, False)],
           [set_("T#ptc", "reg", x, own="T") for x in (True, False)], [set_("T#ptc", "mode", x, own="T") for x in ("CURRENT_LIMITER", "FIXED_TAP")], [set_("T#rtc", "db", x, own="T") for x in (NAN, 8)],
           [set_("T#rtc", "lt", x, own="T") for x in (True, False)], [set_("T#rtc", "low", x, own="T") for x in (0, -1)]], thorough=1),
    model("three legs", [sub(), bb("V", "B1", "B2"), t3("T", "V", "B1", "B2", "B1"), rtc("T", 1, rt="T/0"), rtc("T", 2, rt="T/0")],
          [[set_("T#rtc%d" % i, "reg", x, own="T") for i in (1, 2, 3) for x in (True, False)], rtc("T", 3, rt="T/0"), rtc("T", 3, rt="T/0", reg=True), rm("T#rtc1", "TAP", own="T"), rm("T#rtc3", "TAP", own="T"),
           [set_("T#rtc2", "pos", x, own="T") for x in (0, 2)], set_("T#rtc2", "low", 1, own="T")]),
]
M["T01"] = [
    model("six nodes, four switches open or closed, retained or not", [sub(), nb("V"), bbs("S1", "V", 0), bbs("S2", "V", 1), load("L", "V", 3), line("LN", "V", 4, "V", 5),
                                                                     sw("K1", "V", 0, 2), sw("K2", "V", 1, 2), sw("K3", "V", 2, 3), sw("K4", "V", 2, 4), ic("V", 5, 1)],
          [flip("K1"), flip("K2"), flip("K3"), flip("K4"), flip("K1", "ret"), flip("K3", "ret")], obs="sdtl", thorough=1),
    model("edges that come and go", [sub(), nb("V"), bbs("S1", "V", 0), load("L", "V", 2), sw("K0", "V", 0, 1)],
          [sw("K1", "V", 1, 2), sw("K2", "V", 0, 2, open=True), sw("K3", "V", 2, 3, ret=True), ic("V", 2, 3), ev("rmic", vl="V", n1=2, n2=3), ev("rmic", vl="V", n1=3, n2=2), ev("rmsw", vl="V", id="K0"), ev("rmsw", vl="V", id="K1"), ev("rmsw", vl="V", id="K2"), ev("rmsw", vl="V", id="K3"),
           line("LN", "V", 3, "V", 4), rm("LN", "LINE"), flip("K2"), flip("K3")], depth=5, obs="sdtl", thorough=9),
]
M["T02"] = [
    model("three buses, three switches, two equipments", [sub(), bb("V", "B1", "B2", "B3"), sw("K1", "V", "B1", "B2"), sw("K2", "V", "B2", "B3", open=True), load("L", "V", "B1"), line("LN", "V", "B2", "V", "B3")],
          [flip("K1"), flip("K2"), [ev("setcb", t="L/0", bus=b) for b in ("B1", "B3")], con("L/0"), [ev("setcb", t="LN/0", bus=b) for b in ("B1", "B2")], con("LN/1"), con("LN/0")], obs="sdtl", thorough=1),
    model("buses and switches that come and go", [sub(), bb("V", "B1", "B2"), line("LN", "V", "B1", "V", "B2")],
          [add("BUS", "B3", end("V", "")), sw("K1", "V", "B1", "B3"), sw("K2", "V", "B1", "B2"), ev("rmsw", vl="V", id="K1"), ev("rmsw", vl="V", id="K2"), ev("rmbus", vl="V", id="B3"), ev("rmbus", vl="V", id="B1"), load("L", "V", "B3"), rm("L", "LOAD"), flip("K1"), flip("K2"),
           ev("rmallsw", vl="V"), ev("setcb", t="LN/0", bus="B3"), ev("setcb", t="LN/0", bus="B1")], depth=7, obs="sdtl", thorough=40),
]
def one_of_each(v, at, u, ut):
    """one object of every kind that has a terminal; the other ends of the branches are elsewhere"""
    here, there = end(v, at), end(u, ut)
    return [load("LD", v, at), gen("GE", v, at), add("BAT", "BA", here, p0=8, q0=8, minP=0, maxP=80), add("SHU", "SH", here, on=False, tv=NAN, db=NAN, model="LINEAR", bps=8, max=3, n=1),
            add("SVC", "SV", here, bmin=0, bmax=8, vs=3200, qs=8, mode="OFF"), add("DL", "DL", here, p0=0, q0=0, r=8, x=16, g=4, b=-8, ucte="X"), add("LCC", "LC", here, loss=8, pf=4), vsc("VS", v, at),
            line("LN", v, at, u, ut), t2("TR", u, ut, v, at), add("T3", "TT", there, here, there, sub="S", legs=[dict(r=8, x=8, g=i, b=i, ru=3200 - i, rs=NAN) for i in range(3)])]


# what makes a bus is the number of feeders and branches: every pair of kinds
M["T01"].append(model("every pair of kinds on two joined nodes", [sub(), bb("U", "BU"), nb("V"), sw("K", "V", 0, 1)],
                      [[x for x in one_of_each("V", 0, "U", "BU")] + [bbs("BB", "V", 0)], [dict(x, id=x["id"] + "2") for x in one_of_each("V", 1, "U", "BU")]], depth=2, obs="sdt", thorough=2))
M["T02"].append(model("every pair of kinds on two joined buses", [sub(), bb("U", "BU"), bb("V", "B1", "B2"), sw("K", "V", "B1", "B2")],
                      [[x for x in one_of_each("V", "B1", "U", "BU")], [dict(x, id=x["id"] + "2") for x in one_of_each("V", "B2", "U", "BU")]], depth=2, obs="sdt", thorough=2))
M["C01"] = [
    model("four buses, a ring of lines, a dc line", [sub(), bb("V1", "B1"), bb("V2", "B2"), bb("V3", "B3"), bb("V4", "B4"), line("L12", "V1", "B1", "V2", "B2"), line("L23", "V2", "B2", "V3", "B3"), t2("T", "V1", "B1", "V3", "B3"),
                                                     vsc("C1", "V3", "B3"), vsc("C2", "V4", "B4"), hvdc("H", "C1", "C2")],
          [con("L12/0"), con("L12/1"), con("L23/1"), con("T/0"), con("C1/0"), con("C2/0")], obs="sdtk", thorough=1),
    model("links that come and go", [sub(), bb("V1", "B1"), bb("V2", "B2"), bb("V3", "B3"), line("L12", "V1", "B1", "V2", "B2"), vsc("C1", "V2", "B2"), vsc("C2", "V3", "B3"), load("D", "V3", "B3"), line("L33", "V3", "B3", "V3", "B3")],
          [line("L23", "V2", "B2", "V3", "B3"), rm("L23", "LINE"), rm("L12", "LINE"), line("L12", "V1", "B1", "V2", "B2"), hvdc("H", "C1", "C2"), rm("H", "HVDC"), clone(I0, "a", ow=True), sel("a"), sel(I0), con("L33/0")], depth=6, obs="sdatk", thorough=9),
]
M["S01"] = [
    model("two busbar sections, breakers and disconnectors", [sub(), nb("V"), bbs("S1", "V", 0), bbs("S2", "V", 1), sw("D1", "V", 0, 2, "DISCONNECTOR"), sw("D2", "V", 1, 2, "DISCONNECTOR", open=True), sw("K", "V", 2, 3), load("L", "V", 3),
                                                              sw("K2", "V", 1, 4), sw("D3", "V", 4, 3, "DISCONNECTOR")],
          [con("L/0"), flip("D1"), flip("D2"), flip("K"), flip("K2"), flip("D3")], obs="sdt", thorough=1),
    model("a load break switch and parallel breakers", [sub(), nb("V"), bbs("S1", "V", 0), sw("K1", "V", 0, 1), sw("K2", "V", 0, 1), sw("B1", "V", 1, 2, "LOAD_BREAK_SWITCH"), sw("K3", "V", 0, 2, open=True), line("L", "V", 2, "V", 3), ic("V", 3, 0), load("L0", "V", 5), sw("K5", "V", 5, 2)],
          [con("L/0"), con("L/1"), con("L0/0"), flip("B1"), flip("K1"), flip("K3")], obs="sdt"),
    model("connections in two variants", [sub(), bb("V", "B1", "B2"), line("L", "V", "B1", "V", "B2"), load("D", "V", "B1"), clone(I0, "a")],
          [con("L/0"), con("L/1"), con("D/0"), sel(I0), sel("a"), ev("setcb", t="D/0", bus="B2")], obs="sdat"),
]
M["W01"] = [
    model("walks through two levels", [sub(), nb("V"), bb("W", "B1", "B2"), bbs("S1", "V", 0), sw("K1", "V", 0, 1), sw("K2", "V", 1, 2, open=True), line("L", "V", 2, "W", "B1"), sw("K3", "W", "B1", "B2"), load("D", "W", "B2"), t2("T", "V", 3, "W", "B2"), ic("V", 3, 1)],
          [flip("K1"), flip("K2"), flip("K3"), con("L/1"), con("D/0"),
           [ev("q.trav", t=t, stopT=st, stopS=ss, closed=c) for t, st, ss, c in (("S1/0", [], [], False), ("S1/0", [], [], True), ("D/0", ["L/1"], [], False), ("L/0", [], ["K1"], True), ("T/1", ["T/0"], ["K3"], False))],
           [ev("q.ntrav", vl="V", node=x, closed=c, stopN=s) for x, c, s in ((0, False, []), (2, True, []), (3, False, [1]))], [ev("q.eqt", vl="V", node=x) for x in (0, 1, 2)], ev("q.nodes", vl="V")], obs="sdtv", thorough=1),
]
M["R01"] = [
    model("everything that can hang on a level", [sub(), nb("V"), bb("W", "B1", "B2")],
          [load("L", "V", 0), line("LN", "V", 1, "W", "B1"), sw("K", "V", 0, 1), vsc("C1", "W", "B1"), vsc("C2", "W", "B2"), hvdc("H", "C1", "C2"), rm("L", "LOAD"), rm("LN", "LINE"), ev("rmsw", vl="V", id="K"), rm("C1", "VSC"), rm("C2", "VSC"), rm("H", "HVDC"),
           rm("V", "VL"), rm("W", "VL"), rm("S", "SUB"), ev("rmbus", vl="W", id="B2")], depth=5, obs="sdtl", thorough=8),
]
# a level or a substation goes away with every kind of object that may be in it, or at its border
M["R01"].append(model("every kind of object in what is removed", [sub(), nb("V"), bb("U", "BU"), sub("S2"), bb("W", "BW", s="S2"), vsc("C2", "W", "BW")],
                      [one_of_each("V", 0, "U", "BU"), [dict(x, id=x["id"] + "W") for x in one_of_each("V", 0, "W", "BW") if x["k"] in ("LINE", "T2", "T3")], bbs("BB", "V", 0), sw("K", "V", 0, 1), ic("V", 0, 1), hvdc("H", "VS", "C2"), ptc("TT", 1),
                       rm("V", "VL"), rm("U", "VL"), rm("W", "VL"), rm("S", "SUB"), rm("S2", "SUB")], depth=3, obs="sdtl", thorough=3))
LIM = lambda own, side, lty, perm, *temps, k="LINE": ev("addlim", own=own, side=side, lty=lty, k=k, a=dict(perm=perm, temps=[dict(nm="T%d" % d, v=v, d=d, fic=False) for d, v in temps]))
# temporary limits in the order of their names, those marked "!" without the wish for a name of their own
ULIM = lambda names, side: ev("addlim", own="L", side=side, lty="CURRENT", k="LINE", a=dict(perm=800, temps=[dict(dict(nm=x.strip("!"), v=1600 + 8 * i, d=60 * (i + 1)), **({} if x.endswith("!") else dict(uniq=True))) for i, x in enumerate(names.split())]))
M["L01"] = [
    model("flows around the limits of a line", [sub(), bb("V", "B1", "B2"), line("L", "V", "B1", "V", "B2"), LIM("L", 1, "ACTIVE_POWER", 800, (60, 1600), (600, 1200)), LIM("L", 2, "APPARENT_POWER", 800, (60, 1600)), ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="v", x=3200)],
          [[ev("tset", t="L/0", f="p", x=x) for x in (NAN, 792, 800, 1200, -1600)], [ev("tset", t="L/1", f=f, x=x) for f in "pq" for x in (NAN, 480, 640)],
           [ev("q.lim", id="L", side=s, lty=ty, red=r) for s, ty, r in ((1, "ACTIVE_POWER", 8), (1, "ACTIVE_POWER", 4), (2, "APPARENT_POWER", 8))], con("L/0"), [set_("L#lim1ACTIVE_POWER", "perm", x, own="L") for x in (NAN, 0, 800)],
           [LIM("L", 1, "ACTIVE_POWER", 800), LIM("L", 1, "ACTIVE_POWER", NAN, (60, 80))]], obs="sdt"),
    model("names of limits that meet", [sub(), bb("V", "B1", "B2"), line("L", "V", "B1", "V", "B2")],
          [ULIM("T T#0 T", s) for s in (1, 2)] + [ULIM(t, 1) for t in ("T! T T", "T#1! T! T T", "T! T", "T! T!", "T T T T")] + [rm("L#lim%dCURRENT" % i, "TAP", own="L") for i in (1, 2)]
          + [clone(I0, "a", ow=True), vrm("a"), set_("L#lim1CURRENT", "perm", 8, own="L")], obs="sd"),
]
M["Q01"] = [
    model("sections of two shunts", [sub(), bb("V", "B"), add("SHU", "H", end("V", "B"), on=False, tv=NAN, db=NAN, model="LINEAR", bps=8, gps=16, max=3, n=1),
                                     add("SHU", "J", end("V", "B"), on=False, tv=NAN, db=NAN, model="NON_LINEAR", secs=[{"b": 8}, {"b": 24, "g": 16}, {"b": 8}], n=1)],
          [[set_("H", "n", x) for x in (0, 1, 3, 4)], [set_("H#mod", "max", x, own="H") for x in (2, 3, 0)], [set_("H#mod", "bps", x, own="H") for x in (8, 16, 0, NAN)], [set_("J", "n", x) for x in (0, 1, 3, 4)],
           [ev("q.shu", id=h, n=x) for h in "HJ" for x in (0, 2, 5)], [set_("J#mod", "secb", x, own="J", at=2) for x in (24, 32)]]),
]
XA = lambda id, xn, **a: ev("extadd", id=id, xn=xn, a=a)
M["P01"] = [
    model("extensions come and go", [sub(), bb("V", "B1"), gen("G", "V", "B1"), load("D", "V", "B1"), clone(I0, "a")],
          [XA("G", "activePowerControl", part=True, droop=8), ev("extset", id="G", xn="activePowerControl", f="part", x=False), ev("extrm", id="G", xn="activePowerControl"), XA("D", "detail", fp=8, fq=8, vp=8, vq=8),
           ev("extset", id="D", xn="detail", f="fp", x=16), ev("extrm", id="D", xn="detail"), rm("D", "LOAD"), load("D", "V", "B1"), sel(I0), sel("a"), XA("G", "detail", fp=8, fq=8, vp=8, vq=8)], depth=5, thorough=7),
]


# every attribute of an extension at the edges of what it accepts, given to the adder or set later
XE = [("H", "hvdcOperatorActivePowerRange", dict(o12=8, o21=8), (-1, 0, 1, NAN)), ("H", "hvdcAngleDroopActivePowerControl", dict(p0=8, droop=8), (-8, 0, NAN)), ("G", "coordinatedReactiveControl", dict(qp=8), (-1, 0, 800, 801, NAN)),
      ("C", "voltagePerReactivePowerControl", dict(slope=8), (-1, 0, 1, NAN)), ("L", "mergedXnode", dict(rdp=4, xdp=4), (-1, 0, 8, 9, NAN)), ("L", "mergedXnode", dict(p1=8, q1=8, p2=8, q2=8), (-8, 0, NAN)),
      ("T", "twoWindingsTransformerPhaseAngleClock", dict(pac=3), (0, 11, 12)), ("TT", "threeWindingsTransformerPhaseAngleClock", dict(l2=3, l3=3), (0, 11, 12)), ("S1", "busbarSectionPosition", dict(bi=1, si=1), (0, 1)),
      ("D", "detail", dict(fp=8, fq=8, vp=8, vq=8), (-8, 0, NAN)), ("G", "activePowerControl", dict(droop=8), (-8, 0, NAN))]
XR = {"mergedXnode": dict(rdp=4, xdp=4, p1=8, q1=8, p2=8, q2=8, l1="a", l2="b", code="XX")}


def edges_of_extensions():
    out = []
    for id, xn, fs, edges in XE:
        base = dict(XR.get(xn, {}), **fs)
        out.append([XA(id, xn, **base)] + [XA(id, xn, **dict(base, **{f: x})) for f in fs for x in edges] + [XA(id, xn, **{g: y for g, y in base.items() if g != f}) for f in fs])
        out.append([ev("extset", id=id, xn=xn, f=f, x=x) for f in fs for x in edges])
    return out


M["P01"].append(model("every attribute of an extension at its edges", [sub(), bb("V", "B1", "B2"), nb("W"), bbs("S1", "W", 0), gen("G", "V", "B1"), load("D", "V", "B1"), add("SVC", "C", end("V", "B1"), bmin=0, bmax=8, vs=3200, qs=8, mode="OFF"),
                                                                      line("L", "V", "B1", "V", "B2"), t2("T", "V", "B1", "V", "B2"), t3("TT", "V", "B1", "B2", "B1"), vsc("C1", "V", "B1"), vsc("C2", "V", "B2"), hvdc("H", "C1", "C2"),
                                                                      [XA(id, xn, **dict(XR.get(xn, {}), **fs)) for id, xn, fs, _ in XE]],
                      edges_of_extensions(), depth=1, thorough=2))


SV = lambda how, id="", side=1, v=(3, 4), i=(1, -2), plain=False, **raw: ev("q.sv", id=id, how=how, side=side, v=list(v), i=list(i), plain=plain, **raw)
BND = lambda id, half: ev("q.bnd", id=id, half=half)
HALF = lambda id, **kw: dict(dict(id=id, nm="", fic=False, r=8, x=16, g1=4, b1=-4, g2=8, b2=4), **kw)
STEPS = [dict(rho=8, r=0, x=400, g=0, b=800, alpha=0), dict(rho=16, r=800, x=0, g=-400, b=0, alpha=720), dict(rho=4, r=0, x=0, g=400, b=-800, alpha=1440)]
VOLT = lambda b, v, a: [ev("busv", vl="V", view="bb", bus=b, cbus=b, f="v", x=v), ev("busv", vl="V", view="bb", bus=b, cbus=b, f="ang", x=a)]
M["M01"] = [
    model("a dangling line, its parameters, its flows and its voltage", [sub(), bb("V", "B1"), add("DL", "D", end("V", "B1"), p0=0, q0=0, r=8, x=16, g=4, b=-8, ucte="X"), VOLT("B1", 16, 720), clone(I0, "a")],
          [[set_("D", f, x) for f, x in (("r", 0), ("r", 8), ("x", -8), ("x", 16), ("g", 8), ("g", 4), ("b", 0), ("b", -8))], [ev("tset", t="D/0", f=f, x=x) for f, x in (("p", 16), ("p", -24), ("q", 8))], ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="v", x=64),
           ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="ang", x=-720), con("D/0"), sel("a"), sel(I0), BND("D", 0), [SV(h, "D", s, plain=p) for h in ("dl", "dls") for s in (1, 2) for p in (True, False)]], depth=5, thorough=7),
    model("the halves of a tie line", [sub(), bb("V", "B1", "B2"), add("TIE", "T", end("V", "B1"), end("V", "B2"), ucte="X", h1=HALF("h1"), h2=HALF("h2", r=16, x=-8, g1=0)), VOLT("B1", 16, 0), VOLT("B2", 32, 1440),
                                       [ev("tset", t="T/%d" % k, f=f, x=x) for k, f, x in ((0, "p", 16), (0, "q", -8), (1, "p", -24), (1, "q", 40))]],
          [[set_("T#half%d" % h, f, x, own="T") for h in (1, 2) for f, x in (("r", 8), ("r", 0), ("x", 16), ("b1", 8), ("g2", -4))], [ev("tset", t="T/%d" % k, f="p", x=x) for k in (0, 1) for x in (NAN, 32)], con("T/1"), BND("T", 1), BND("T", 2),
           [SV(h, "T", s) for h in ("half1", "half2", "line") for s in (1, 2)]], depth=4, thorough=6),
    model("a transformer and its tap changers", [sub(), bb("V", "B1", "B2"), add("T2", "T", end("V", "B1"), end("V", "B2"), sub="S", r=8, x=8, g=4, b=-8, ru1=1600, ru2=3200, rs=NAN),
                                                 ev("addtc", k="RTC", own="T", leg=0, a=dict(low=0, pos=0, reg=False, db=8, tv=3200, lt=True, steps=[{f: x for f, x in q.items() if f != "alpha"} for q in STEPS])),
                                                 ev("addtc", k="PTC", own="T", leg=0, a=dict(low=0, pos=1, reg=False, db=8, rv=8, mode="FIXED_TAP", steps=STEPS)), clone(I0, "a")],
          [[set_("T#rtc", "pos", x, own="T") for x in (0, 1, 2)], [set_("T#ptc", "pos", x, own="T") for x in (0, 1, 2)], set_("T", "ru1", 3200), set_("T", "x", -8), rm("T#rtc", "TAP", own="T"), set_("T#ptc", "step", 0, own="T", at=1, c="alpha"), sel("a"), sel(I0),
           [SV(h, "T", s, plain=p) for h, p in (("t2", True), ("t2", False), ("t2s", False)) for s in (1, 2)]], depth=4, thorough=6),
    model("parameters given", [sub()], [SV("raw", side=s, v=v, i=i, r=r, x=x, g1=g, b1=-4, g2=8, b2=b, rho=rho, al=al) for s in (1, 2) for v, i in (((3, 4), (0, 0)), ((0, -2), (5, 1))) for r, x in ((0, 8), (16, -8)) for g, b in ((4, 0), (0, -8))
                                        for rho, al in ((8, 0), (16, 1), (4, 3))], depth=2),
]


def xml(**kw):
    return ev("xml", **dict(dict(lvl="", anon=False, ver="", strict=True, swap=True, twice=True, ext=["detail", "activePowerControl"], ret={"tp": {}}), **kw))


XS = [sub(), bb("V", "B1", "B2"), nb("W"), bbs("S1", "W", 0), sw("K", "V", "B1", "B2"), sw("J", "W", 0, 1), load("D", "V", "B1"), gen("G", "W", 1)]
XO = [flip("K"), flip("J"), con("D/0"), alias("D", "al", "ty"), rmalias("D", "al"), ev("prop", id="D", key="k", x="v"), t2("T", "V", "B1", "V", "B2"), rm("T", "T2"), rtc("T"), set_("T#rtc", "pos", 2, own="T"), rm("T#rtc", "TAP", own="T"),
      XA("D", "detail", fp=8, fq=8, vp=8, vq=8), ic("W", 1, 2), ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="v", x=3200)]
M["X01"] = [model("a trip after every change", XS, XO + [xml(), xml(swap=False)], depth=4, obs="sdt", thorough=6)]
M["X03"] = [model("an anonymous trip after every change", XS, XO + [xml(anon=True), xml(anon=True, swap=False)], depth=4, obs="sdt", thorough=6)]
M["X04"] = [model("a trip in every version", XS, XO + [xml(ver=v, strict=st) for v in ("1.0", "1.1", "1.2", "1.3", "1.4", "1.5") for st in (True, False)]
                  + [xml(relabel=v, swap=False, twice=False) for v in ("1.0", "1.1", "1.2", "1.3", "1.4", "1.6")], depth=3, obs="sdt", thorough=5)]
OPTS = [dict(par=1), dict(par=2, ext=["detail", "slackTerminal"], iext=["detail", "position"]), dict(ext=["detail"]), dict(ext=["activePowerControl"]), dict(iext=["detail"]), dict(iext=["activePowerControl"]), dict(ext=["coordinatedReactiveControl"]), dict(iext=["coordinatedReactiveControl"]), dict(par=1, iext=["detail"], ithrow=True, alien="D"),
        dict(alien="D"), dict(alien="T"), dict(alien="D", ithrow=True), dict(alien="V", iext=["alien", "detail"], ithrow=True), dict(ethrow=True), dict(par=1, ethrow=True), dict(par=2, ethrow=True, ext=["detail"]), dict(indent=False), dict(par=1, indent=False, bsv=False),
        dict(bsv=False), dict(xv={"detail": "1.0"}), dict(xv={"detail": "1.1"}), dict(xv={"position": "1.0"}, ext=["detail", "activePowerControl"]), dict(trunc=0), dict(trunc=500), dict(trunc=999), dict(trunc=1000),
        dict(cut="load", cutat="p0", cutby="", cutbad=False), dict(cut="switch", cutat="retained", cutby="node1", cutbad=False), dict(cut="switch", cutat="node2", cutby="", cutbad=True)]
M["X05"] = [model("a trip with every option after every change", XS,
                  [flip("K"), XA("D", "detail", fp=8, fq=8, vp=8, vq=8), XA("G", "activePowerControl", part=True, droop=8), XA("G", "coordinatedReactiveControl", qp=8), XA("G", "generatorRemoteReactivePowerControl", tq=8, t="G/0", en=True), rm("D", "LOAD"), t2("T", "V", "B1", "V", "B2"),
                   ev("tset", t="T/0", f="p", x=80)] + [xml(**dict(dict(ext=[], swap=i % 2 == 0, twice=False), **o)) for i, o in enumerate(OPTS)], depth=3, obs="sdt", thorough=5)]
# each thing that some version does not have, alone in an otherwise plain network
OLDLEG = lambda i: dict(r=8, x=8, g=8 if i == 0 else 0, b=0, ru=3200, rs=NAN)
XV = [sub(), bb("V", "B1", "B2"), nb("W"), bbs("S1", "W", 0), sw("K", "W", 0, 1), load("D", "W", 1), gen("G", "V", "B1"), line("L", "V", "B1", "V", "B2"), t2("T", "V", "B1", "V", "B2"),
      add("T3", "Y", end("V", "B1"), end("V", "B2"), end("V", "B1"), sub="S", legs=[OLDLEG(i) for i in range(3)], ru0=3200),
      add("TIE", "I", end("V", "B1"), end("V", "B2"), ucte="U", **{"h%d" % i: dict(id="hh%d" % i, nm="", fic=False, r=8, x=16, g1=1, b1=2, g2=3, b2=4) for i in (1, 2)}),
      add("DL", "DL", end("V", "B1"), p0=80, q0=8, r=8, x=16, g=4, b=-8, ucte="X")]
XSHU = lambda **a: add("SHU", "H", end("V", "B1"), **dict(dict(on=False, tv=NAN, db=NAN, model="LINEAR", bps=8, max=3, n=1), **a))
XSVC = lambda **a: add("SVC", "C", end("V", "B1"), **dict(dict(bmin=0, bmax=8, vs=3200, qs=8, mode="OFF"), **a))
XVF = [alias("D", "al"), alias("D", "al", "ty"), alias("Y", "al"), alias("G", "al", "ty"), alias("N", "al", "ty"), [LIM(o, i, ty, 800, (60, 1600), k=k) for k, o, n in (("LINE", "L", 2), ("TIE", "I", 2), ("T2", "T", 2), ("T3", "Y", 3)) for i in range(1, n + 1)
        for ty in ("ACTIVE_POWER", "APPARENT_POWER", "CURRENT")], [LIM("DL", 0, ty, 800, k="DL") for ty in ("ACTIVE_POWER", "APPARENT_POWER", "CURRENT")], [rtc("Y", i) for i in (1, 2, 3)], [ptc("Y", i) for i in (1, 2, 3)], rtc("T", db=0, tv=NAN), ptc("T", db=NAN),
       set_("Y#leg1", "g", 16, own="Y"), set_("Y#leg2", "g", 8, own="Y"), set_("Y#leg3", "b", 8, own="Y"), set_("Y#leg2", "rs", 8, own="Y"), set_("T", "rs", 8), set_("G", "rs", 8), set_("D", "fic", True), set_("K", "fic", True), set_("B1", "fic", True),
       XSHU(), XSHU(gps=8), XSHU(model="NON_LINEAR", secs=[{"b": 8}, {"b": 24, "g": 16}]), XSHU(on=True, tv=3200, db=8), XSHU(tv=3200), XSHU(rt="D/0"), XSVC(), XSVC(rt="D/0"),
       add("DL", "E", end("V", "B1"), p0=80, q0=8, r=8, x=16, g=4, b=-8, ucte="", gen=dict(minP=0, maxP=80, tp=16, tq=8, tv=3200, on=True)),
       ev("busv", vl="W", view="bv", bus="W_0", cbus="", f="v", x=3200), ev("busv", vl="W", view="bv", bus="W_0", cbus="", f="ang", x=8)]
M["X04"].append(model("each thing that some version does not have", XV, [cat(*XVF), [xml(ver=v, swap=False, twice=False) for v in ("1.0", "1.1", "1.2", "1.3", "1.4", "1.5")],
                      [xml(ver=v, strict=False, twice=False) for v in ("1.0", "1.1", "1.2", "1.3", "1.4")], [xml(relabel=v, swap=False, twice=False) for v in ("1.0", "1.1", "1.2", "1.3", "1.4", "1.6")]], depth=2, obs="sdt", first=len(cat(*XVF))))
XN = [sub(), nb("W"), bbs("S1", "W", 0), bbs("S2", "W", 1), sw("J", "W", 0, 2), sw("K", "W", 1, 2, ret=True), sw("M", "W", 0, 1, "DISCONNECTOR"), load("D", "W", 2), bb("V", "B1", "B2"), line("L", "W", 3, "V", "B1"), sw("Q", "W", 1, 3), sw("R", "V", "B1", "B2")]
M["X02"] = [model("a trip at every level after every change", XN,
                  [flip("J"), flip("K"), flip("M"), flip("Q"), flip("R"), set_("J", "ret", True), set_("K", "ret", False), con("L/1"), ev("tset", t="D/0", f="p", x=80),
                   [xml(lvl=l) for l in ("BB", "BR")], xml(lvl="NB", swap=False)], depth=4, obs="sdt", thorough=6)]


def graph_model(name, nv, ne, depth, thorough, xs=(5,), objs=(1, -1), queries=True, maxv=None):
    V, E = range(nv), range(ne)
    ops = [dict(op="addV")] + [dict(op="addVi", v=v) for v in V] + [dict(op="addE", a=a, b=b, x=x) for a in V for b in V for x in xs] + [dict(op="rmE", e=e) for e in E] + [dict(op="rmV", v=v) for v in V]
    ops += [dict(op="setV", v=v, x=x) for v in V for x in objs] + [dict(op="rmAllE"), dict(op="rmAllV"), dict(op="rmIso")]
    if queries:
        ops += [dict(op="trav", v=v, stopE=se, stopV=sv, met=[]) for v in V for se, sv in (([], []), ([0], []), ([], [(v + 1) % nv]))]
        ops += [dict(op="paths", v=v, to=[1], noE=[]) for v in V] + [dict(op="between", a=0, b=v) for v in V] + [dict(op="getE", e=0), dict(op="getV", v=0)]
    return dict(name=name, setup=[], ops=ops, depth=depth, obs="", thorough=thorough, maxv=maxv or nv, maxe=ne)


M["G01"] = [graph_model("three vertices, three edges", 3, 3, 5, 6), graph_model("two vertices, two edges, complete", 2, 2, 1000, 1), graph_model("three vertices, two edges, construction and removal only", 3, 2, 7, 12, objs=(1,), queries=False)]


# every value that depends on the variant, of every kind of object, different in each of three variants; then variants come and go
def values_of(k):
    """events that give every variant-dependent value the k-th value"""
    h = 8 * k
    odd = k % 2 == 1
    out = [set_("LD", "p0", h), set_("LD", "q0", h + 1), set_("GE", "tp", h), set_("GE", "tq", h + 1), set_("GE", "tv", 800 * k), set_("GE", "on", odd), set_("BA", "p0", h), set_("BA", "q0", h + 1),
           set_("SH", "n", k), set_("SH", "tv", 800 * k), set_("SH", "db", h), set_("SH", "on", odd), set_("SV", "vs", 800 * k), set_("SV", "qs", h), set_("SV", "mode", ("OFF", "VOLTAGE", "REACTIVE_POWER")[k % 3]),
           set_("DL", "p0", h), set_("DL", "q0", h + 1), [set_("DL#gen", f, x, own="DL") for f, x in (("tp", h), ("tq", h + 1), ("tv", 800 * k), ("on", odd))],
           set_("VS", "tv", 800 * k), set_("VS", "tq", h), set_("VS", "on", odd), set_("HV", "p", h), set_("HV", "mode", ("SIDE_1_RECTIFIER_SIDE_2_INVERTER", "SIDE_1_INVERTER_SIDE_2_RECTIFIER")[k % 2]),
           [set_(t, f, x, own=o) for o, t in (("TR", "TR#rtc"), ("TT", "TT#rtc1"), ("TT", "TT#rtc2"), ("TT", "TT#rtc3")) for f, x in (("pos", k % 3), ("db", h), ("tv", 800 * k))], set_("TR#rtc", "reg", odd, own="TR"),
           [set_("TR#ptc", f, x, own="TR") for f, x in (("pos", k % 3), ("db", h), ("rv", h + 1))],
           set_("K", "open", odd), set_("J", "open", k == 2), set_("J", "ret", k == 1), [ev("tset", t=t, f=f, x=x) for t in ("LD/0", "LN/0", "LN/1", "TT/2", "SB/0") for f, x in (("p", h), ("q", h + 1)) if t != "SB/0"],
           ev("dis" if odd else "con", t="LN/0"), ev("setcb", t="LD/0", bus="B%d" % (1 + k % 2)), ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="v", x=800 * k), ev("busv", vl="V", view="bb", bus="B1", cbus="B1", f="ang", x=h),
           [ev("extset", id="LD", xn="detail", f=f, x=h + i) for i, f in enumerate(("fp", "fq", "vp", "vq"))],
           ev("extset", id="V", xn="slackTerminal", f="t", x=("LD/0", "GE/0", "LN/0")[k % 3])]
    return cat(*out)


VKINDS = cat(sub(), bb("V", "B1", "B2"), bb("U", "BU"), nb("W"), bbs("SB", "W", 0), sw("J", "W", 0, 1), load("WL", "W", 1), sw("K", "V", "B1", "B2"),
             [dict(x, a=dict(x["a"], gen=dict(minP=0, maxP=800, tp=80, tq=8, tv=3200, on=True))) if x["k"] == "DL" else x for x in one_of_each("V", "B1", "U", "BU")],
             vsc("VT", "U", "BU"), hvdc("HV", "VS", "VT"), rtc("TR", rt="TR/0"), ptc("TR", rt="TR/0"), rtc("TT", 1, rt="TR/0"), rtc("TT", 2, rt="TR/0"), rtc("TT", 3, rt="TR/0"),
             XA("LD", "detail", fp=8, fq=8, vp=8, vq=8), XA("V", "slackTerminal", t="LD/0"))
M["V01"].append(model("every value of every kind, and variants that come and go",
                      [VKINDS, clone(I0, "a"), clone("a", "b"), cat(*[[sel(v)] + values_of(k) for v, k in ((I0, 1), ("a", 2), ("b", 3))]), sel(I0)],
                      [vrm("a"), vrm("b"), clone(I0, "a"), clone(I0, "b"), clone("a", "b"), clone("b", "a"), clone("a", "b", ow=True), clone("b", "a", ow=True), clone("a", I0, ow=True), clone(I0, "c"), clone("b", "c"), vrm("c")], obs="da", limit=9000))

"""What each check generates: the networks to start from and the operations to perform on them."""
INJ = ["LOAD", "GEN", "BAT", "SHU", "SVC", "DL", "LCC", "VSC"]
BRANCH = ["LINE", "TIE", "T2"]
NB2 = ["NODE_BREAKER", "NODE_BREAKER"]
BB2 = ["BUS_BREAKER", "BUS_BREAKER"]
MIX = NB2 + BB2
ALLK = INJ + BRANCH + ["LINE", "T3", "HVDC", "LOAD", "GEN"]
MEAS = ["measurements", "discreteMeasurements"]
AFTER = ["op_addtc", "op_addtc", "op_addlim", "op_addrl"]
VAR = dict(vclone=2, vremove=1, vselect=3)


def prof(ops, kinds=ALLK, topos=MIX, after=AFTER, obs=None, subs=2, **kw):
    return dict(kw, obs=obs if obs is not None else {}, ops=ops, tmpl={"kinds": kinds, "topos": topos, "after": after, "subs": subs})


ALLOPS = dict(add=4, set=8, setdyn=8, tset=3, con=6, switch=8, setcb=2, busv=2, vclone=2, vremove=1, vselect=3, alias=2, rmalias=1, prop=1, find=1,
              addtc=2, addlim=1, addrl=1, rm=2, rmtap=.5, rmnil=.2, rmsw=1, rmallsw=.1, rmbus=.5, rmallbus=.1, rmic=.3, trav=2, ntrav=2, eqt=1,
              nodes=1, shuq=1, rlq=1, obs=2, lim=.5)
FULL = {"t": 0.3, "a": 0.3, "l": 0.1, "k": 0.2, "v": 0.2}
XOPS = dict(xml=5, add=5, set=6, setdyn=6, tset=4, con=2, switch=4, setcb=1, busv=4, vclone=.6, vselect=.6, vremove=.2, alias=3, rmalias=.3, prop=3, addtc=4, addlim=3, addrl=3,
            rm=.5, rmtap=.2, rmsw=.2, rmbus=.1, extadd=7, extset=4, tapset=2, shuset=1)

SWEPT = dict(kinds=INJ + ["DL", "SHU", "SHU", "GEN"] + BRANCH + ["T2", "T3", "T3", "HVDC", "TIE"], after=["op_addtc"] * 7 + ["op_addlim"] * 2)

# property -> [(name, profile, quick traces, steps)]
PROFILES = {
    "V01": [("dynamic", prof(dict(setdyn=14, set=2, tset=5, con=5, switch=6, setcb=2, busv=3, vclone=4, vremove=2, vselect=6, addtc=1, rm=.7, rmbus=.3, rmsw=.5, add=2, extadd=3, extdyn=4),
                             obs={"a": 0.8, "t": 0.1}, xset=["detail", "slackTerminal"]), 110, 55)],
    "V02": [("bookkeeping", prof(dict(vclone=10, vremove=6, vselect=8, vmt=2, setdyn=5, tset=2, switch=2, con=2, add=.5, rm=.3, set=.5), kinds=["LOAD", "GEN", "T2", "SHU"],
                                 obs={"a": 0.8, "t": 0.05}, maxv=7), 130, 50)],
    "V03": [("threads", prof(dict(vclone=5, vremove=3, vselect=12, vmt=1.5, setdyn=9, tset=3, switch=5, con=4, setcb=1, busv=2, blind=8, add=.5, rm=.3, set=.5, obs=.5),
                             obs={"a": 0.6, "t": 0.1}, maxv=7, mt=4), 120, 60)],
    "I01": [("names", prof(dict(alias=8, rmalias=5, prop=3, find=6, add=10, rm=5, rmsw=1.5, rmbus=1.5, rmic=.5, rmallbus=.2, rmallsw=.2, addtc=.5, move=2, vclone=.6, vselect=1, vremove=.4),
                           obs={"l": 0.4}, clash=0.15, uniq=0.25, keep=0.4, reuse=0.3), 100, 45)],
    "A01": [("refusals", prof(dict(ALLOPS, retry=10, add=4, set=10, setdyn=4, addtc=3, addlim=2, addrl=2, alias=3, vclone=3, trav=0, ntrav=0, eqt=0, nodes=0, find=1), obs={"a": 0.5, "l": 0.25, "t": 0.3},
                              pe=0.4, pbad=0.9, clash=0.2), 70, 50),
            ("wrong values", prof({}, sweep="set", obs={"a": 0.7, "l": 0.1}, **SWEPT), 36, 60),
            ("wrong creations", prof({}, sweep="add", obs={"a": 0.4, "l": 0.3, "t": 0.2}), 28, 60)],
    "E01": [("attributes", prof(dict(set=14, setdyn=10, tset=2, add=6, addtc=1, addlim=1, addrl=1, vclone=1.5, vselect=2, vremove=.5, rmtap=.2, rm=.5, con=1), pe=0.35, pbad=0.6,
                                obs={"a": 0.4}, subs=1, topos=["BUS_BREAKER", "NODE_BREAKER"]), 80, 60),
            ("edges", prof({}, sweep="set", obs={"a": 0.1}, subs=1, topos=["BUS_BREAKER", "NODE_BREAKER"], **SWEPT), 48, 60),
            ("creations", prof({}, sweep="add", obs={"a": 0.1}, subs=1, topos=["BUS_BREAKER", "NODE_BREAKER"]), 28, 60)],
    "K01": [("taps", prof(dict(tapset=16, addtc=4, rmtap=1, vclone=2, vselect=3, vremove=.7, set=1), kinds=["T2", "T2", "T3", "LOAD", "GEN"], after=["op_addtc"] * 5, obs={"a": 0.6}, pe=0.3, pbad=0.6, subs=1,
                          topos=["BUS_BREAKER", "NODE_BREAKER"]), 120, 60)],
    "T01": [("nodes", prof(dict(tset=2, switch=16, add=6, rmsw=2.5, rmic=1.5, rm=1.5, con=3, vclone=1.5, vselect=2, vremove=.5, nodes=1, busv=2, obs=1), topos=["NODE_BREAKER"] * 3,
                           kinds=["LOAD", "GEN", "LINE", "LINE", "T2", "BBS", "SW", "SW", "IC", "DL", "SW"], after=[], obs={"t": 0.75, "a": 0.15, "l": 0.05},
                           addkinds=["SW", "SW", "SW", "IC", "IC", "BBS", "LOAD", "LINE", "T2", "T3", "SHU", "LCC", "VSC", "DL", "BAT", "SVC"], sparse=True, rmkinds=["LOAD", "LINE", "BBS", "T2", "GEN", "VL"]), 90, 45)],
    "T02": [("buses", prof(dict(tset=2, switch=10, add=5, setcb=6, con=8, rmsw=2, rmbus=2, rmallsw=.3, rmallbus=.2, rm=1.5, vclone=2, vselect=2.5, vremove=.6, busv=2, obs=1), topos=["BUS_BREAKER"] * 3,
                           kinds=["LOAD", "GEN", "LINE", "LINE", "T2", "SW", "SW", "BUS", "BUS", "DL", "SW"], after=[], obs={"t": 0.75, "a": 0.2, "l": 0.05},
                           addkinds=["SW", "SW", "SW", "BUS", "BUS", "LOAD", "LINE", "T2", "T3", "SHU", "LCC", "VSC", "DL", "BAT", "SVC"], rmkinds=["LOAD", "LINE", "T2", "GEN", "VL"]), 110, 50)],
    "C01": [("components", prof(dict(switch=10, con=8, add=3, rm=2, rmbus=.7, rmsw=1, rmic=.4, setcb=1.5, vclone=1.5, vselect=2.5, vremove=.5, obs=1), topos=MIX + ["BUS_BREAKER"],
                                kinds=["LINE", "LINE", "LINE", "T2", "TIE", "LCC", "LCC", "VSC", "VSC", "HVDC", "HVDC", "T3", "LOAD"], after=[], obs={"k": 0.75, "t": 0.75, "a": 0.1},
                                addkinds=["LINE", "HVDC", "T2", "LCC", "VSC", "SW", "BUS", "IC", "T3"], rmkinds=["LINE", "HVDC", "T2", "TIE", "T3", "VL"]), 70, 40)],
    "S01": [("connect", prof(dict(con=18, switch=5, add=2, vclone=1.5, vselect=2, vremove=.4, setcb=2, rmsw=.5, setdyn=.5, tset=1), kinds=["LOAD", "GEN", "LINE", "LINE", "T2", "T3", "DL", "SHU", "LOAD", "BAT", "SW", "SW"],
                             after=[], obs={"t": 0.15, "a": 0.5}, addkinds=["SW", "SW", "IC", "LOAD", "LINE", "BBS"]), 100, 50)],
    "W01": [("walks", prof(dict(trav=12, ntrav=8, eqt=6, nodes=5, switch=6, con=2, add=2, vclone=.7, vselect=1, rmsw=.5, rmic=.4, rm=.5, rmbus=.3), obs={"v": 0.35, "t": 0.35},
                           addkinds=["SW", "SW", "IC", "LINE", "T3", "LOAD", "BUS", "BBS"], kinds=["LINE", "LINE", "T2", "TIE", "T3", "LOAD", "SW", "SW", "IC", "SW", "GEN", "DL"], after=[]), 90, 45)],
    "R01": [("removals", prof(dict(rm=12, rmtap=2, rmnil=.5, rmsw=4, rmallsw=.6, rmbus=3, rmallbus=.6, rmic=2, add=10, alias=4, find=3, prop=.5, addtc=2, addlim=1, addrl=1, vclone=1, vselect=1, con=2, switch=2, setdyn=1),
                              obs={"l": 0.3, "t": 0.35, "a": 0.3, "v": 0.05, "k": 0.05}, keep=0.5, reuse=0.4), 90, 45)],
    "L01": [("limits", prof(dict(lim=12, ovl=2, i=2, addlim=5, rmtap=1, con=1, switch=2, vclone=1, vselect=1, tset=1, busv=1, set=1, limset=2), kinds=["LINE", "LINE", "TIE", "T2", "T2", "LOAD", "DL", "T3"], after=[], obs={}, pe=0.2,
                            topos=["BUS_BREAKER", "NODE_BREAKER"], subs=1), 110, 70)],
    "Q01": [("reactive", prof(dict(addrl=8, rlq=14, shuq=12, shuset=10, add=2, vclone=1, vselect=2), kinds=["GEN", "BAT", "VSC", "DL", "SHU", "SHU", "SHU", "SHU"], after=["op_addrl"] * 4, obs={"a": 0.3}, pe=0.2,
                              addkinds=["SHU", "SHU", "GEN", "BAT"], topos=["BUS_BREAKER"], subs=1), 130, 60)],
    "M01": [("states", prof(dict(eset=9, eaddtc=3, etap=5, ebusv=2, etset=2, sv=20, ebnd=12, bnd=6, switch=1, con=1.5, setdyn=.5, set=.5, vclone=1.5, vselect=2, vremove=.4, tapset=.3, add=.3),
                            kinds=["LINE", "DL", "DL", "TIE", "TIE", "T2", "T2", "LOAD", "LINE", "SW"], after=["op_eaddtc"] * 2, subs=1, electric=1,
                            topos=["BUS_BREAKER", "NODE_BREAKER"], obs={"a": 0.2}), 110, 70)],
    "P01": [("extensions", prof(dict(extadd=14, extset=12, extrm=4, rm=2, rmtap=.3, add=1.5, vclone=3, vselect=4, vremove=1.5, setdyn=1, alias=.5, rmsw=.3, rmbus=.3, move=.5, switch=.5),
                                kinds=ALLK + ["DL", "SVC", "HVDC", "BBS", "SW"], after=[], obs={"a": 0.6, "l": 0.05}, xset=["detail", "slackTerminal", "measurements", "discreteMeasurements"]), 110, 60)],
    "X01": [("roundtrip", prof(XOPS, after=AFTER, xml={}, xset=MEAS, obs={"a": 0.1, "l": 0.1, "t": 0.1}, odd=0.1, wild=0.06), 90, 45)],
    "X02": [("levels", prof(dict(XOPS, switch=8, con=4, busv=4, rmsw=1), after=AFTER[:1], nobbs=1, xml={"lvl": ["BB", "BR", "BB", "BR", "NB"]}, obs={"a": 0.05, "l": 0.1, "t": 0.1}), 90, 45)],
    "X03": [("anonymised", prof(XOPS, after=AFTER, wild=0.06, nobbs=1, xml={"anon": 1, "lvl": ["", "", "BB", "BR"]}, xset=MEAS, obs={"a": 0.1, "l": 0.1, "t": 0.1}), 60, 45)],
    "X04": [("versions", prof(XOPS, after=AFTER, nobbs=1, xml={"ver": ["1.0", "1.1", "1.2", "1.3", "1.4", "1.5"], "lvl": ["", "", "", "BB", "BR"], "relabel": 0.25}, xset=MEAS, obs={"a": 0.1, "l": 0.1, "t": 0.1}), 90, 45)],
    "X05": [("options", prof(dict(XOPS, xml=9, extadd=10), after=AFTER[:2], nobbs=1, xml={"opts": 1, "ver": ["", "", "", "1.2", "1.3", "1.4", "1.5"], "lvl": ["", "", "NB", "BB", "BR"]}, xset=MEAS, obs={"a": 0.05, "l": 0.05, "t": 0.05}), 70, 45)],
}
# what the threads of a concurrent run do on their own variants
CONCURRENT = dict(prof(dict(setdyn=3, switch=2, con=1, extadd=6), obs={}, xset=["detail", "slackTerminal"]), burst=16, conc=dict(setdyn=14, switch=6, tset=4, con=5, setcb=2, busv=2, extdyn=3, trav=.5, obs=1, shuq=1, rlq=1, ovl=1, find=1, save=1.5))
# many writes at the same time, seldom looked at
STORM = dict(CONCURRENT, burst=200, obsp=0.02, conc=dict(setdyn=10, switch=10, tset=2, setcb=1, extdyn=1))
PROFILES["ALL"] = [("everything", prof(ALLOPS, obs=FULL), 100, 60)]

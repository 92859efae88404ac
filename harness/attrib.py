"""Which properties a divergence between a recorded execution and the specification speaks about."""

VOPS = {"vclone", "vremove", "vselect", "vmt"}
RMOPS = {"rm", "rmsw", "rmallsw", "rmbus", "rmallbus", "rmic"}
OPS = {
    "vclone": {"V02"}, "vremove": {"V02"}, "vselect": {"V02"}, "vmt": {"V02", "V03"},
    "alias": {"I01"}, "rmalias": {"I01"}, "prop": {"I01"}, "move": {"I01"}, "q.find": {"I01"},
    "add": {"E01", "I01"}, "set": {"E01"}, "tset": {"E01", "V01"}, "addtc": {"K01", "E01"}, "addlim": {"L01", "E01"}, "addrl": {"Q01", "E01"},
    "con": {"S01"}, "dis": {"S01"}, "setcb": {"T02", "S01"}, "busv": {"T01", "T02", "V01"},
    "rm": {"R01"}, "rmsw": {"R01"}, "rmallsw": {"R01"}, "rmbus": {"R01"}, "rmallbus": {"R01"}, "rmic": {"R01"},
    "extadd": {"P01"}, "extset": {"P01"}, "extrm": {"P01"},
    "q.trav": {"W01"}, "q.ntrav": {"W01"}, "q.eqt": {"W01"}, "q.nodes": {"W01", "T01"},
    "q.lim": {"L01"}, "q.ovl": {"L01"}, "q.i": {"L01"}, "q.rl": {"Q01"}, "q.shu": {"Q01"}, "q.sv": {"M01"}, "q.bnd": {"M01"},
}

GRAPHOPS = {"addV", "addVi", "addE", "rmE", "rmV", "setV", "rmAllE", "rmAllV", "rmIso", "getE", "getV", "trav", "paths", "between"}


def xprops(ev):
    out = set()
    if ev.get("anon"):
        out.add("X03")
    if ev.get("ver") or "relabel" in ev:
        out.add("X04")
    if ev.get("lvl") in ("BB", "BR"):
        out.add("X02")
    out = out or {"X01"}
    if any(k in ev for k in ("par", "iext", "ithrow", "ethrow", "xv", "alien", "trunc", "cut", "indent", "bsv", "ext")):
        out.add("X05")
    return out


def of_kind(tag):
    """properties the kind of object named by a tag belongs to"""
    k = tag.split(":", 1)[1].split(".")[0]
    f = tag.rsplit(".", 1)[-1]
    if f == "ACCI":
        return {"I01"}
    if k in ("RTC", "PTC"):
        return {"K01"}
    if k == "LIM":
        return {"L01"}
    if k == "RL":
        return {"Q01"}
    if k == "EXT":
        return {"P01"}
    if k == "SHU" and f in ("model", "n", "b", "g", "*"):
        return {"Q01", "E01"}
    return {"E01"}


def props(events, i, tags, prop):
    """properties the divergence at events[i] speaks about, within the trace events, found by the check of prop"""
    ev = events[i]
    op = ev["op"]
    if op in GRAPHOPS:
        return {"G01"}
    before = events[:i]
    if op == "xml":
        base = xprops(ev)
    else:
        base = set(OPS.get(op, set()))
    mt = any(e.get("th") for e in events[:i + 1]) or any(e["op"] == "vmt" for e in before)
    if mt and op in VOPS:
        base.add("V03")
    own = ev.get("own", "")
    if op == "set" and ("#rtc" in ev["id"] or "#ptc" in ev["id"]):
        base.add("K01")
    if op == "set" and "#lim" in ev["id"]:
        base.add("L01")
    if op == "rm" and own:
        base.add("L01" if "#lim" in ev["id"] else "K01")
    if op == "set" and ev["id"].endswith("#mod"):
        base.add("Q01")
    if op == "set" and ev["f"] in ("open", "ret"):
        base |= {"T01", "T02", "S01"}
    out = set()
    for t in tags:
        a = set()
        h = t.split(":", 1)[0]
        if h == "res":
            exp, got = t[4:].split(">")
            a |= base
            if got in ("crash", "hang"):
                a.add(prop)
            if op == "add":
                if any(e["op"] in RMOPS for e in before):
                    a.add("R01")
                if ev.get("retry"):
                    a.add("A01")
                if ev["k"] == "EXT":
                    a.add("P01")
                if any(e.get("vl") for e in ev.get("ends", [])):
                    a |= {"T01", "T02"}
            if ev.get("retry"):
                a.add("A01")
            if exp == "ok" and op in ("set", "tset", "con", "dis", "busv", "setcb") and any(e["op"] in VOPS for e in before):
                a |= {"V01", "V02"}
            if op in ("set", "tset") and ev["id" if op == "set" else "t"].startswith("SHU"):
                a.add("Q01")
        elif h in ("vs", "cur", "mt"):
            a |= {"V02"} | ({"V03"} if mt else set())
        elif h == "projerr":
            a |= base | {prop}
        elif h in ("st", "st+", "st-", "dyc", "dyo", "dyc-", "dyc+", "dyo-", "dyo+"):
            a |= base
            if op not in ("add", "xml") or h in ("dyo", "dyc"):
                a |= of_kind(t)
            if h.startswith("dyo") or (h.startswith("dy") and (op in VOPS or op in ("set", "tset", "extset", "busv", "con", "dis", "setcb"))):
                a.add("V01")
            if op in VOPS:
                a |= {"V01"}
            if mt and h.startswith("dy"):
                a.add("V03")
            if op in ("rm", "rmbus", "rmallbus", "rmsw", "rmallsw"):
                a.add("R01")
            if ".t" == t[-2:] and op == "set":
                a |= {"T02", "T01"}
        elif h in ("al", "pr"):
            a |= {"I01"} | base
        elif h == "ls":
            a |= {"I01"} | (base & {"R01", "X01", "X02", "X03", "X04", "X05"})
            if "bus" in t.lower() or "BB" in t or "BV" in t:
                a |= {"T01", "T02"}
        elif h in ("nb", "bb", "tp", "cc", "sc", "cp", "ve", "vc"):
            body = t[:-2] if t.endswith("@o") else t
            a |= {"nb": {"T01"}, "bb": {"T02"}, "tp": {"T01", "T02"}, "cc": {"C01"}, "sc": {"C01"}, "cp": {"C01"}}.get(h, {"W01"})
            if ":ve" in body or ":vc" in body or ":vt" in body or "visit" in body:
                a |= {"W01"}
            if t.endswith("@o") or op in VOPS:
                a |= {"V01"}
            a |= base & {"S01", "R01", "X01", "X02", "X03", "X04", "W01", "T01", "T02"}
        elif h in ("q", "ret"):
            a |= base
        elif h == "x":
            a |= base
        else:
            a |= base
        if ev["res"] == "err" and h not in ("res", "q", "ret"):
            a.add("A01")
        if any(e["op"] == "xml" and e.get("swap") for e in before):
            for e in before:
                if e["op"] == "xml" and e.get("swap"):
                    a |= xprops(e)
        if any(e["op"] == "move" for e in before) or op == "move":
            a.add("I01")
        out |= a
    return out

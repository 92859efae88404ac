"""Recorded executions as files for the trace checker: observations become differences."""
import json


def compress(events):
    """events of one trace (starting with reset) -> json lines"""
    st, dy, out = {}, {}, []
    for e in events:
        e = dict(e)
        o = e.get("o") or {}
        if "st" in o or "dy" in o:
            o = dict(o)
            if "st" in o:
                new = o["st"]
                o["st"] = {k: v for k, v in new.items() if st.get(k) != v}
                o["sx"] = [k for k in st if k not in new]
                st = new
            if "dy" in o:
                ds, dx = {}, {}
                for v, new in o["dy"].items():
                    old = dy.get(v, {})
                    ds[v] = {k: x for k, x in new.items() if old.get(k) != x}
                    gone = [k for k in old if k not in new]
                    if gone:
                        dx[v] = gone
                    dy[v] = new
                o["dy"], o["dx"] = ds, dx
            e["o"] = o
        out.append(json.dumps(e, separators=(",", ":")))
    return out

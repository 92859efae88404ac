"""Runs TLC on a trace checking module and reads what it printed."""
import glob, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = ":".join(["/opt/veriftools/tla/tla2tools.jar"] + sorted(glob.glob("/opt/veriftools/tla/*.jar")))


def tlc(module, cfg=None, env=None, workers=8, timeout=600, heap="8g", extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("TMPDIR", "/tmp"))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tags_of(s):
    return re.findall(r'"((?:[^"\\]|\\.)*)"', s)


def trace_check(module, path, timeout=600, workers=8):
    """-> dict(done=set of starts, diverge={start: (index, tags, detail)}, known=Counter, states, error)"""
    rc, out = tlc(module, env={"TRACE": path}, timeout=timeout, workers=workers)
    r = {"done": set(), "diverge": {}, "known": {}, "error": None, "out": out, "states": 0}
    for m in re.finditer(r'<<"DONE", (\d+)>>', out):
        r["done"].add(int(m.group(1)))
    for m in re.finditer(r'<<"KNOWN", "(\w+)">>', out):
        r["known"][m.group(1)] = r["known"].get(m.group(1), 0) + 1
    det = {}
    for m in re.finditer(r'<<\s*"(DIVERGE|DETAIL)",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>\n(?=\S)', out, re.S):
        t, i = int(m.group(2)), int(m.group(3))
        if m.group(1) == "DIVERGE":
            r["diverge"][t] = (i, tags_of(m.group(4)), "")
        else:
            det[t] = re.sub(r"\s+", " ", m.group(4))[:4000]
    for t in r["diverge"]:
        r["diverge"][t] = r["diverge"][t][:2] + (det.get(t, ""),)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r["states"] = int(m.group(2))
    if rc is None:
        r["error"] = "timeout"
    elif "Error:" in out:
        k = out.index("Error:")
        tr = re.findall(r"/\\ tr = (\d+)", out[k:])
        ii = re.findall(r"/\\ i = (\d+)", out[k:])
        msg = re.sub(r"\s+", " ", out[k:k + 1500])
        r["error"] = msg
        if tr and ii:
            r["where"] = (int(tr[-1]), int(ii[-1]))
    elif rc != 0 and "Finished" not in out:
        r["error"] = "TLC ended with %s: %s" % (rc, out[-800:])
    return r

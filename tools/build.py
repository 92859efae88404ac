#!/usr/bin/env python3
"""Builds the conformance driver from /repo's current working tree (unity build, cached by content hash)."""
import glob, hashlib, os, subprocess, sys, concurrent.futures, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "g++")
BOOST = []
for l in ("ATOMIC", "DATE_TIME", "FILESYSTEM", "SYSTEM"):
    BOOST += ["-DBOOST_%s_DYN_LINK" % l, "-DBOOST_%s_NO_LIB" % l]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", "/usr/include/libxml2"]
for e in ("entsoe", "iidm", "sld"):
    INC += ["-I%s/extensions/%s/include" % (REPO, e), "-I%s/extensions/%s/src" % (REPO, e)]
BASE = ["-include", "cmath", "-std=gnu++11", "-fPIC", "-w", "-D_GLIBCXX_ASSERTIONS"]

ALONE = ("ImportOptions.cpp", "TwoWindingsTransformerPhaseAngleClock")

def sources():
    src = []
    for d, _, fs in os.walk(REPO + "/src"):
        if "/test" in d[len(REPO):]:
            continue
        src += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    for e in ("entsoe", "iidm", "sld"):
        for d, _, fs in os.walk("%s/extensions/%s/src" % (REPO, e)):
            src += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and f not in ("Entsoe.cpp", "Iidm.cpp", "Sld.cpp")]
    return sorted(src)

def headers():
    hs = []
    for root in [REPO + "/include", REPO + "/src"] + [REPO + "/extensions/" + e for e in ("entsoe", "iidm", "sld")]:
        for d, _, fs in os.walk(root):
            hs += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".hxx", ".h"))]
    return sorted(hs)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(f):
    with open(f, "rb") as h:
        return h.read()

def cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")

def build(flavour="plain", jobs=None, verbose=False):
    """returns the path of the driver executable"""
    flags = {"plain": ["-O0"], "cov": ["-O0", "--coverage", "-fprofile-update=atomic"], "tsan": ["-O1", "-g1", "-fsanitize=thread"], "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]}[flavour]
    bdir = os.path.join(VERIF, ".build", flavour)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmd = [CXX] + BASE + flags + BOOST + INC
    src = sources()
    hh = sha(*[rd(h) for h in headers()], " ".join(cmd))
    n = 24
    blobs = []
    k = (len(src) + n - 1) // n
    alone = [f for f in src if any(x in f for x in ALONE)]  # known not to compile together with the others
    src = [f for f in src if f not in alone]
    for i in range(0, len(src), k):
        blobs.append(src[i:i + k])
    blobs += [[f] for f in alone]
    dsrc = sorted(glob.glob(VERIF + "/driver/*.cpp"))
    dhh = sha(hh, *[rd(h) for h in sorted(glob.glob(VERIF + "/driver/*.hpp"))])
    work = []  # (key, obj, kind, payload)
    objs = []
    for d in dsrc:
        key = sha("drv", dhh, rd(d), d)
        o = os.path.join(bdir, key + ".o")
        objs.append([o])
        work.append((o, [d]))
    for b in blobs:
        key = sha("blob", hh, *[x for f in b for x in (f, rd(f))])
        o = os.path.join(bdir, key + ".o")
        objs.append([o])
        work.append((o, b))
    res = {}
    def one(item):
        o, fs = item
        if os.path.exists(o + ".list"):
            l = rd(o + ".list").decode().split()
            if all(os.path.exists(x) for x in l):
                return o, l, ""
        if len(fs) == 1:
            unit = fs[0]
        else:
            unit = o[:-2] + ".unit.cpp"
            with open(unit, "w") as h:
                for f in fs:
                    h.write('#include "%s"\n' % f)
        rc, out = cc(cmd + ["-c", unit, "-o", o])
        l = [o]
        if rc != 0 and len(fs) > 1:  # sources that do not compile together are compiled one by one
            l = [os.path.join(bdir, sha(o, f) + ".o") for f in fs]
            with concurrent.futures.ThreadPoolExecutor(4) as ex2:
                for rc, out in ex2.map(lambda x: cc(cmd + ["-c", x[0], "-o", x[1]]), zip(fs, l)):
                    if rc != 0:
                        return o, None, out
        elif rc != 0:
            return o, None, out
        with open(o + ".list", "w") as h:
            h.write("\n".join(l))
        return o, l, ""
    allobj = []
    # biggest first
    work.sort(key=lambda it: -sum(os.path.getsize(f) for f in it[1]) - (200000 if it[1][0].startswith(VERIF) else 0))
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        for o, l, out in ex.map(one, work):
            if l is None:
                sys.stderr.write(out[-6000:] + "\n")
                raise SystemExit("BUILD-FAILED")
            allobj += l
    allobj.sort()
    exe = os.path.join(bdir, "driver-" + sha(*allobj))
    if not os.path.exists(exe):
        rc, out = cc([CXX] + flags + allobj + ["-o", exe + ".tmp", "-lxml2", "-lboost_date_time", "-lboost_filesystem", "-lboost_atomic", "-lboost_system", "-ldl", "-lpthread"])
        if rc != 0:
            sys.stderr.write(out[-6000:] + "\n")
            raise SystemExit("LINK-FAILED")
        os.rename(exe + ".tmp", exe)
    # drop what this tree does not use
    keep = set(allobj) | {o + ".list" for o, _ in work}
    if len(os.listdir(bdir)) > 400:
        for f in os.listdir(bdir):
            p = os.path.join(bdir, f)
            if p not in keep and p != exe and f != "lock" and not f.startswith("driver-"):
                os.unlink(p)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))

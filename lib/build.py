"""Builds the harnesses from /repo's current working tree into /verif/.build (content-hash cached)."""
import os, subprocess, hashlib, sys, glob, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(ROOT, ".build")
INC = os.path.join(OUT, "include")
LIBSRC = ["conn", "crypto", "event", "msg", "netaddr", "network", "stream", "type", "util"]

class BuildError(Exception):
    pass

def _gen_config():
    d = os.path.join(INC, "salticidae")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    t = open(os.path.join(REPO, "src/config.h.in")).read()
    import re
    on = {"SALTICIDAE_NORMAL_LOG", "SALTICIDAE_MSG_STAT", "SALTICIDAE_CBINDINGS"}
    def f(m):
        return ("#define %s" % m.group(1)) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    t = re.sub(r"#cmakedefine\s+(\w+)", f, t)
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)

def _digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]

def _libdeps():
    return glob.glob(REPO + "/include/salticidae/*.h") + glob.glob(REPO + "/src/*.h*")

def _compile(src, obj, flags, cxx="g++"):
    cmd = [cxx, "-c", src, "-o", obj + ".tmp"] + flags
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.replace(obj + ".tmp", obj)

BASE = ["-g1", "-O1", "-U_FORTIFY_SOURCE", "-w", "-include", "cstdint", "-fno-strict-aliasing"]

def small_blocks(n):
    """A copy of the public headers in which the blocks of the queues hold n elements instead of thousands, so that
    short histories cross block boundaries (None if the constant is not where it used to be)."""
    import re, shutil
    t = open(REPO + "/include/salticidae/queue.h").read()
    t, k = re.subn(r"(MPMCQ_SIZE\s*(?:=|\{|\()\s*)[^;)}]+", lambda m: m.group(1) + str(n), t, count=1)
    if not k:
        return None
    d = os.path.join(OUT, "inc-%d-%s" % (n, _digest(_libdeps(), "")))
    if not os.path.isdir(d):
        os.makedirs(OUT, exist_ok=True)
        tmp = d + ".%d" % os.getpid()
        shutil.copytree(REPO + "/include", tmp)
        open(tmp + "/salticidae/queue.h", "w").write(t)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d

def build(name, sources, sim=True, libs=True, flags=(), uv=False, std="c++14", link=(), incdir=None):
    """sources: harness files in /verif. sim: link the simulator and turn atomics into scheduling points."""
    _gen_config()
    os.makedirs(OUT, exist_ok=True)
    sd = os.path.join(ROOT, "sim")
    inc = ["-I", sd, "-I", os.path.join(ROOT, "harness"), "-I", INC, "-I", INC + "/salticidae", "-I", incdir or REPO + "/include"]
    inst = BASE + ["-std=" + std] + list(flags) + inc + (["-include", sd + "/vatomic.h"] if sim else [])
    plain = BASE + ["-std=c++17"] + list(flags) + ["-I", sd]
    hdrs = _libdeps() + glob.glob(sd + "/*.h") + glob.glob(os.path.join(ROOT, "harness", "*.h")) + [INC + "/salticidae/config.h"]
    jobs = []
    for s in sources:
        jobs.append((os.path.join(ROOT, s), inst))
    if libs:
        for s in (LIBSRC if libs is True else libs):
            jobs.append((REPO + "/src/%s.cpp" % s, inst))
        for s in glob.glob(REPO + "/src/*.cpp"):
            if libs is True and os.path.basename(s)[:-4] not in LIBSRC:
                jobs.append((s, inst))
    if sim:
        jobs.append((sd + "/vsim.cpp", plain))
    todo, objs = [], []
    for s, fl in jobs:
        k = _digest([s] + hdrs, " ".join(fl))
        o = os.path.join(OUT, "%s-%s.o" % (os.path.basename(s)[:-4], k))
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o, fl))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(_compile, s, o, fl) for s, o, fl in todo]:
            f.result()
    exe = os.path.join(OUT, "%s-%s" % (name, hashlib.sha256((" ".join(objs) + " ".join(flags) + str(uv)).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        cmd = ["g++", "-o", exe + ".tmp"] + objs + list(flags) + ["-lssl", "-lcrypto", "-lpthread", "-ldl"] + (["-luv"] if uv else []) + list(link)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.replace(exe + ".tmp", exe)
    return exe

def driver():
    return build("driver", ["sim/driver.cpp"])

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:new_delete_type_mismatch=0:detect_odr_violation=0"}
def driver_asan():
    return build("driver-asan", ["sim/driver.cpp"], flags=ASAN)

def driver_small(n=4, asan=False):
    """The network driver on queues with blocks of n elements (n must match Blk in the traces; falls back to the real size)."""
    d = small_blocks(n)
    return build("driver%d%s" % (n if d else 0, "-asan" if asan else ""), ["sim/driver.cpp"], flags=(ASAN if asan else []) + (["-DVSIM_BLK=%d" % n] if d else []), incdir=d)

def queue(n=0, asan=False):
    """The queue harness, with blocks of n elements (0: as they are)."""
    d = small_blocks(n) if n else None
    return build("queue%d%s" % (n if d else 0, "-asan" if asan else ""), ["harness/queue.cpp"], libs=["event", "util", "type", "netaddr"], flags=ASAN if asan else [], incdir=d)

def tcall(asan=False):
    return build("tcall" + ("-asan" if asan else ""), ["harness/tcall.cpp"], libs=["event", "util", "type", "netaddr"], flags=ASAN if asan else [])

def ref(asan=False):
    return build("ref" + ("-asan" if asan else ""), ["harness/ref.cpp"], libs=[], flags=ASAN if asan else [])

def codec(asan=False):
    return build("codec" + ("-asan" if asan else ""), ["harness/codec.cpp"], flags=ASAN if asan else [])

def conf(asan=False):
    return build("conf" + ("-asan" if asan else ""), ["harness/conf.cpp"], libs=["util", "type", "netaddr"], flags=ASAN if asan else [])

def evw(asan=False):
    return build("evw" + ("-asan" if asan else ""), ["harness/evw.cpp"], libs=["event", "util", "type", "netaddr"], flags=ASAN if asan else [])

if __name__ == "__main__":
    driver_asan(); print(driver())

"""Runs scenarios in the harness, validates the recorded traces with TLC, writes evidence."""
import os, sys, json, time, subprocess, random, re, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class InfraError(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = {}
        self.samples = []
        self.violations = []
        self.assumptions = []
    @property
    def thorough(self):
        return self.tier == "thorough"
    def n(self, quick, thorough):
        return thorough if self.thorough else quick
    def add(self, k, v):
        self.cov[k] = self.cov.get(k, 0) + v
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

# ---------------------------------------------------------------- harness runs
def run_scenarios(ctx, exe, scenarios, timeout=60, env=None, pre=None):
    """scenarios: list of (name, text). Returns {name: [event, ...]}."""
    d = tempfile.mkdtemp(dir=ctx.tmp)
    src = os.path.join(d, "in.txt")
    with open(src, "w") as f:
        for n, t in scenarios:
            f.write("=== %s\n%s\n" % (n, t.strip("\n")))
    nsh = max(1, min(NCPU, len(scenarios)))
    e = dict(os.environ, VSIM_TIMEOUT=str(timeout))
    if env:
        e.update(env)
    args = [exe] + ([os.path.join(ROOT, "sim/certs")] if pre is None else pre)
    ps = []
    for k in range(nsh):
        o = os.path.join(d, "out%d.txt" % k)
        ps.append((o, subprocess.Popen(args + [src, o, str(k), str(nsh)], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = {}
    for o, p in ps:
        _, err = p.communicate()
        if p.returncode:
            raise InfraError("harness exited with %d: %s" % (p.returncode, err[-2000:]))
        cur = None
        with open(o) as f:
            for line in f:
                if line.startswith("=== "):
                    cur = res.setdefault(line[4:].rstrip("\n"), [])
                elif line.startswith("{"):
                    try:
                        cur.append(json.loads(line))
                    except ValueError:
                        raise InfraError("bad trace line: " + line[:200])
    shutil.rmtree(d, ignore_errors=True)
    if len(res) != len(scenarios):
        raise InfraError("harness lost scenarios: %d of %d" % (len(res), len(scenarios)))
    return res

def enrich(tr):
    """Adds to each connection notification who is at the other end of its TCP connection."""
    nets, raws, rt = {}, {}, {}
    for e in tr:
        if e["ev"] == "conn" and e.get("uid", -1) > 0:
            nets.setdefault(e["uid"], set()).add((e["net"], e["c"]))
        elif e["ev"] in ("rawconn", "rawacc"):
            raws[e["uid"]] = e["raw"]; rt[e["uid"]] = e.get("tls", -1)
    out = []
    for e in tr:
        if e["ev"] == "conn":
            u = e["uid"]; e = dict(e); e["rn"] = 0; e["rr"] = raws.get(u, 0); e["rt"] = rt.get(u, -1)
            for (n, c) in nets.get(u, ()):
                if c != e["c"]:
                    e["rn"] = n
        out.append(e)
    return out

# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=NCPU, timeout=800, args=(), heap="6g", cwd=None):
    md = tempfile.mkdtemp(dir=ctx.tmp)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise InfraError("TLC timed out on " + module)
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout

def tlc_stats(out):
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def validate(ctx, module, traces, prop=None, chunk_events=400000, search=None):
    """traces: list of lists of events. Returns {index: (line, [labels])} for rejected traces.
    search: the specification searches for an explanation of the trace; a trace without one is rejected with this label."""
    bad, i = {}, 0
    prop = prop or ctx.prop
    while i < len(traces):
        j, n = i, 0
        while j < len(traces) and (n == 0 or n + len(traces[j]) <= chunk_events):
            n += len(traces[j]); j += 1
        part = traces[i:j]
        p = os.path.join(ctx.tmp, "traces.json")
        with open(p, "w") as f:
            json.dump(part, f, separators=(",", ":"))
        rc, out = tlc(ctx, module + ".tla", module + ".cfg", env={"TRACE": p, "PROP": prop})
        done = set(int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out))
        viol = re.findall(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out)
        for t, l, labs in viol:
            t = int(t)
            bad.setdefault(i + t - 1, (int(l), sorted(set(re.findall(r'"([^"]+)"', labs)))))
            done.add(t)
        if search and rc == 0:
            miss = [t for t in range(1, len(part) + 1) if t not in done and part[t - 1]]
            at = {}
            if miss:        # how far an explanation of the trace gets
                with open(p, "w") as f:
                    json.dump([part[t - 1] for t in miss[:6]], f)
                for t, l in re.findall(r'<<"AT", (\d+), (\d+)>>', tlc(ctx, module + ".tla", module + ".cfg", env={"TRACE": p, "PROP": prop, "SHOW": "1"})[1]):
                    k = miss[int(t) - 1]; at[k] = max(at.get(k, 0), int(l))
            for t in miss:
                bad.setdefault(i + t - 1, (min(at.get(t, 1), len(part[t - 1])), [search])); done.add(t)
        odd = re.findall(r"^/\\ (l|tid) = (\d+)$", out, re.M) if rc != 0 and "The error occurred when TLC was evaluating" in out else []
        if odd:     # an event for which the specification has no meaning: the trace is none of its behaviours
            at = dict(odd); t = int(at["tid"]); bad.setdefault(i + t - 1, (min(int(at["l"]), len(part[t - 1])), [prop + ".meaningless"]))
            if len([1 for v in bad.values() if v[1][0].endswith(".meaningless")]) >= 3: return bad
            traces = list(traces); traces[i + t - 1] = []
            continue
        if rc != 0 or len(done) != len([t for t in part if t]):
            open("/tmp/tlc-fail.txt", "w").write(out)
            raise InfraError("TLC failed on %s (rc=%d, %d/%d traces judged):\n%s" % (module, rc, len(done), len(part), out[-3000:]))
        g, d = tlc_stats(out)
        ctx.add("trace_states", d)
        ctx.add("events_validated", n)
        i = j
    ctx.add("traces_validated_against_impl", len(traces))
    return bad

def model_check(ctx, module, cfg, expect_ok=True, args=(), timeout=800, env=None):
    """Exhaustive (or simulated) exploration of a design model."""
    t = time.time()
    rc, out = tlc(ctx, module + ".tla", cfg, args=args, timeout=timeout, env=env)
    g, d = tlc_stats(out)
    ok = rc == 0
    ctx.add("states", d); ctx.add("transitions", g)
    ctx.cov.setdefault("models", []).append({"model": module, "config": cfg, "states": d, "transitions": g, "ok": ok, "wall_s": round(time.time() - t, 1)})
    if not ok and rc not in (10, 11, 12, 13):
        raise InfraError("TLC failed on %s/%s (rc=%d):\n%s" % (module, cfg, rc, out[-3000:]))
    return ok, out

# ---------------------------------------------------------------- verdicts
def replay_path(ctx, k):
    d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s-%d.txt" % (ctx.prop, ctx.tier, k))

def report(ctx, what, scenario, trace, line, labels):
    k = len(ctx.violations) + 1
    p = replay_path(ctx, k)
    with open(p, "w") as f:
        f.write("# property %s: %s\n# guards broken: %s at event %s\n" % (ctx.prop, what, ", ".join(labels), line))
        if scenario:
            f.write("# scenario (run with: python3 %s/check.py --replay %s)\n%s\n" % (ROOT, p, scenario))
        f.write("# trace\n")
        for i, e in enumerate(trace or []):
            f.write("%s%s\n" % (">>> " if i + 1 == line else "    ", json.dumps(e)))
    ctx.violations.append({"what": what, "labels": labels, "replay": p})
    print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
    print("  %s: %s" % (what, ", ".join(labels)))

def finish(ctx, level):
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": dict(ctx.cov), "wall_s": round(time.time() - ctx.t0, 2),
          "assumptions": ctx.assumptions, "violations": len(ctx.violations)}
    c = ev["coverage"]
    if "trace_states" in c:      # states and transitions of the trace specification count as well as those of the design models
        c["states"] = c.get("states", 0) + c["trace_states"]
        c["transitions"] = c.get("transitions", 0) + c["events_validated"]
    ev["coverage"]["samples"] = ctx.samples[:5]
    d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.close()
    return 1 if ctx.violations else 0

"""The properties and how each is decided."""
import os, glob, time, random
import core, build, scen_msg, scen_peer, scen_client, scen_lib, scen_codec, scen_conf, scen_event
from core import ROOT

def corpus(prop):
    out = []
    for p in sorted(glob.glob(os.path.join(ROOT, "corpus", prop, "*.txt"))):
        out.append((("asan:" if "asan" in os.path.basename(p) else "") + "corpus/" + os.path.basename(p), open(p).read().split("# trace")[0]))
    return out

def strip(text):
    return "\n".join(l for l in text.split("\n") if l and not l.startswith("#") and not l.startswith("==="))

class Traces:
    """Runs generated scenarios in the simulator and has TLC judge the recorded traces."""
    def __init__(self, module, gens, exe=build.driver, enrich=core.enrich, timeout=60, asan=2, exe_asan=build.driver_asan, pre=None, search=None, corpus=True):
        self.module, self.gens, self.exe, self.enrich, self.timeout = module, gens, exe, enrich, timeout
        self.exe_asan, self.pre, self.search, self.corpus = exe_asan, pre, search, corpus
        self.asan = asan        # every asan-th scenario runs with the address sanitizer (0: none)

    def judge(self, ctx, exe, sc):
        sa = [x for x in sc if x[0].startswith("asan:")]
        res = core.run_scenarios(ctx, exe, [x for x in sc if x not in sa], timeout=self.timeout, pre=self.pre) if len(sa) < len(sc) else {}
        if sa: res.update(core.run_scenarios(ctx, self.exe_asan(), sa, timeout=self.timeout, env=build.ASAN_ENV, pre=self.pre))
        tr = [self.enrich(res[n]) for n, _ in sc]
        idx = [k for k, t in enumerate(tr) if t]        # the harness skips the rest after repeated hangs
        bad = core.validate(ctx, self.module, [tr[k] for k in idx], search=self.search)
        if len(idx) < len(tr) and not bad:
            raise core.InfraError("scenarios were skipped")
        return tr, {idx[k]: v for k, v in bad.items()}

    def __call__(self, ctx):
        exe = self.exe()
        sc = [(n, strip(t)) for n, t in corpus(ctx.prop) if self.corpus is True or self.corpus + "-" in n]
        for g, nq, nt in self.gens:
            r = random.Random("%s/%s/%s" % (ctx.prop, g.__name__, ctx.seed))
            sc += [("%s%s/%d" % ("asan:" if self.asan and k % self.asan == 0 else "", g.__name__, k), strip(g(r, k))) for k in range(ctx.n(nq, nt))]
        ctx.add("scenarios", len(sc))
        cut = [0, 160] + list(range(1600, len(sc), 1500)) if len(sc) > 160 else [0]
        for i, j in zip(cut, cut[1:] + [len(sc)]):
            part = sc[i:j]
            tr, bad = self.judge(ctx, exe, part)
            for t in tr[:: max(1, len(tr) // 3)][:2]:
                ctx.samples.append({"scenario": part[tr.index(t)][0], "events": len(t), "last": t[-1] if t else {}})
            for t in tr:
                for e in t:
                    k = "ev_" + e["ev"]; ctx.cov.setdefault("events", {}); ctx.cov["events"][k] = ctx.cov["events"].get(k, 0) + 1
            if bad:
                again = [part[k] for k in sorted(bad)[:6]]
                tr2, bad2 = self.judge(ctx, exe, again)
                if not bad2:        # not even the simulator makes undefined behaviour deterministic
                    bad = {k: v for k, v in bad.items() if tr[k][v[0] - 1]["ev"] != "hang"}
                    if not bad: continue        # a slow machine, not a hang
                    k = sorted(bad)[0]
                    core.report(ctx, part[k][0], part[k][1], tr[k], bad[k][0], bad[k][1])
                for k in sorted(bad2)[:3]:
                    core.report(ctx, again[k][0], again[k][1], tr2[k], bad2[k][0], bad2[k][1])
                return

class Model:
    """Exhaustive TLC run of a design model; a violation there means the model is wrong, not the code."""
    def __init__(self, module, quick, thorough=None, args=()):
        self.module, self.quick, self.thorough, self.args = module, quick, thorough or quick, args
    def __call__(self, ctx):
        cfgs = ctx.n(self.quick, self.thorough)
        for cfg in cfgs.split():
          ok, out = core.model_check(ctx, self.module, cfg + ".cfg", args=self.args)
          if not ok:
              raise core.InfraError("the design model %s violates its specification:\n%s" % (self.module, out[-2500:]))

M = scen_msg
Q = scen_peer
L = scen_lib
QUE = dict(enrich=scen_lib.queue_results, pre=[], search="P15.linearizable")
def same(tr):
    return tr
SMALL = dict(exe=build.driver_small, exe_asan=lambda: build.driver_small(asan=True), corpus="small")
P = {
    "P01": [Model("Chan", "Chan2", "Chan1 Chan2"), Traces("TraceMsg", [(M.p01, 600, 20000)], asan=4), Traces("TraceMsg", [(M.p01s, 600, 20000)], asan=4, **SMALL)],
    "P02": [Traces("TraceMsg", [(M.p02, 400, 15000)], asan=4), Traces("TraceMsg", [(M.p02s, 600, 15000)], **SMALL)],
    "P03": [Model("Chan", "Chan2", "Chan1 Chan2"), Traces("TraceMsg", [(M.p03, 100, 3000)], asan=8), Traces("TraceMsg", [(M.p03s, 900, 20000)], asan=6, **SMALL)],
    "P04": [Model("Chan", "Chan2", "Chan1 Chan2"), Traces("TraceMsg", [(M.p04, 50, 1200)], asan=12), Traces("TraceMsg", [(M.p04s, 900, 20000)], asan=6, **SMALL)],
    "P05": [Model("ConnLife", "ConnLife1", "ConnLife1 ConnLife2"), Traces("TraceMsg", [(M.p05, 1200, 40000)])],
    "P06": [Model("ConnLife", "ConnLife1", "ConnLife1 ConnLife2"), Traces("TraceMsg", [(M.p06, 900, 25000), (M.p06f, 200, 5000)])],
    "P07": [Traces("TraceMsg", [(M.p07, 900, 25000)])],
    "P08": [Traces("TraceMsg", [(M.p08, 500, 12000)]), Traces("TracePeer", [(Q.p08, 200, 6000)], enrich=same), Traces("TraceClient", [(scen_client.p19, 100, 3000)], enrich=same)],
    "P09": [Model("MC_Peers", "MC_Peers2", "MC_Peers1 MC_Peers2 MC_Peers3"), Traces("TracePeer", [(Q.p09, 400, 10000), (Q.p09w, 150, 4000)], enrich=same)],
    "P10": [Model("MC_Peers", "MC_Peers2", "MC_Peers2 MC_Peers5"), Traces("TracePeer", [(Q.p10, 300, 10000)], enrich=same)],
    "P11": [Model("MC_Peers", "MC_Peers2", "MC_Peers2 MC_Peers4"), Traces("TracePeer", [(Q.p11, 300, 10000), (Q.p11p, 150, 4000)], enrich=same)],
    "P12": [Traces("TracePeer", [(Q.p12, 250, 8000), (Q.p12i, 150, 4000)], enrich=same),
            Traces("TracePeer", [(Q.p12h, 200, 6000), (Q.p12s, 150, 6000)], enrich=same, **SMALL)],
    "P13": [Model("MC_Peers", "MC_Peers2", "MC_Peers2 MC_Peers5 MC_Peers6"), Traces("TracePeer", [(Q.p13, 300, 10000), (Q.p13h, 250, 8000)], enrich=same)],
    "P14": [Model("MC_Peers", "MC_Peers2", "MC_Peers2 MC_Peers3"), Traces("TracePeer", [(Q.p14, 300, 10000), (Q.p14r, 150, 6000), (Q.p14g, 150, 6000)], enrich=same),
            Traces("TracePeer", [(Q.p14s, 300, 10000)], enrich=same, **SMALL)],
    "P19": [Traces("TraceClient", [(scen_client.p19, 800, 20000), (scen_client.p19f, 4, 40)], enrich=same),
            Traces("TraceClient", [(scen_client.p19s, 400, 10000)], enrich=same, **SMALL)],
    "P15": [Traces("TraceQueue", [(L.p15(2), 900, 12000), (L.p15b(2), 600, 12000), (L.p15n(2), 400, 10000), (L.p15f(2), 200, 40000)], exe=lambda: build.queue(2), exe_asan=lambda: build.queue(2, True), **QUE, corpus="s2"), Model("MC_MPMC", "MC_MPMC1 MC_MPMC4", "MC_MPMC1 MC_MPMC2 MC_MPMC3 MC_MPMC4"),
            Traces("TraceQueue", [(L.p15(3), 700, 12000)], exe=lambda: build.queue(3), exe_asan=lambda: build.queue(3, True), **QUE, corpus="s3"),
            Traces("TraceQueue", [(L.p15(4096), 200, 3000)], exe=build.queue, exe_asan=lambda: build.queue(0, True), **QUE, corpus="real")],
    "P16": [Model("EvQ", "EvQ1 EvQ2", "EvQ1 EvQ2 EvQ3"), Traces("TraceEvQueue", [(L.p16, 1000, 20000)], exe=lambda: build.queue(2), exe_asan=lambda: build.queue(2, True), enrich=same, pre=[], corpus="s2"),
            Traces("TraceEvQueue", [(L.p16, 500, 10000)], exe=build.queue, exe_asan=lambda: build.queue(0, True), enrich=same, pre=[], corpus="real")],
    "P17": [Model("TCall", "TCall3 TCall4", "TCall1 TCall2"), Traces("TraceTCall", [(L.p17, 1500, 30000)], exe=build.tcall, exe_asan=lambda: build.tcall(True), enrich=same, pre=[])],
    "P18": [Model("Arc", "Arc2", "Arc1 Arc2"), Traces("TraceRef", [(L.p18, 2500, 60000), (L.p18s, 200, 5000)], exe=build.ref, exe_asan=lambda: build.ref(True), enrich=same, pre=[])],
    "P20": [Traces("TracePeer", [(Q.p20, 250, 10000), (Q.p20t, 150, 5000)], enrich=same),
            Traces("TracePeer", [(Q.p20s, 200, 8000), (Q.p20m, 150, 5000)], enrich=same, **SMALL)],
    "P22": [Traces("TraceCodec", [(scen_codec.p22, 1200, 30000)], exe=build.codec, exe_asan=lambda: build.codec(True), enrich=same, pre=[])],
    "P23": [Traces("TraceConf", [(scen_conf.p23, 1500, 40000)], exe=build.conf, exe_asan=lambda: build.conf(True), enrich=same, pre=[])],
    "P24": [Traces("TraceEvent", [(scen_event.p24, 1500, 40000)], exe=build.evw, exe_asan=lambda: build.evw(True), enrich=same, pre=[])],
    "P21": [Model("ConnLife", "ConnLife1", "ConnLife1 ConnLife2"), Traces("TraceMsg", [(M.p21, 1000, 30000)]), Traces("TraceMsg", [(M.p21s, 500, 15000)], **SMALL)],
}
LEVEL = "model_checking"
ASSUME = ["threads interleave at synchronisation operations, system calls and callbacks (sequentially consistent memory)",
          "sockets, clock and libuv are replaced by a deterministic work-alike with TCP semantics"]

def run(prop, tier, seed):
    ctx = core.Ctx(prop, tier, seed)
    ctx.assumptions = list(ASSUME)
    try:
        for part in P[prop]:
            t = time.time()
            part(ctx)
            ctx.cov.setdefault("parts", []).append({"part": type(part).__name__ + ":" + getattr(part, "module", ""), "wall_s": round(time.time() - t, 1)})
            if ctx.violations:
                break
        rc = core.finish(ctx, LEVEL)
    finally:
        ctx.close()
    print("%s %s: %s in %.1fs %s" % (prop, tier, "held" if rc == 0 else "VIOLATED", time.time() - ctx.t0,
          {k: v for k, v in ctx.cov.items() if isinstance(v, int)}))
    return rc

def replay(path):
    text = open(path).read()
    prop = [l for l in text.split("\n") if l.startswith("# property ")][0].split()[2].rstrip(":")
    sc = strip(text.split("# trace")[0])
    gen = text.split("\n")[0].split(": ")[1].replace("asan:", "")
    ctx = core.Ctx(prop, "quick", 1)
    for part in P[prop]:
        if isinstance(part, Traces) and part.gens[0][0].__name__.split("_")[-1] == (gen.split("/")[0].split("_")[-1] if "_" in gen else part.gens[0][0].__name__):
            tr, bad = part.judge(ctx, part.exe(), [(("asan:" if ": asan:" in text.split("\n")[0] else "") + "replay", sc)])
            for k, e in enumerate(tr[0]):
                print((">>> " if 0 in bad and bad[0][0] == k + 1 else "    ") + str(e))
            print("rejected: %s" % (bad[0],) if bad else "accepted")
            ctx.close()
            return 1 if bad else 0
    return 2

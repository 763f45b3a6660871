#!/usr/bin/env python3
"""survey.py PROP N [seed]: runs N scenarios of a property's generators and groups what is rejected."""
import sys, os, random, collections, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, props
prop, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "1"
for part in props.P[prop]:
    if not isinstance(part, props.Traces): continue
    ctx = core.Ctx(prop, "quick", seed); exe = part.exe()
    for g, _, _ in part.gens:
        r = random.Random("%s/%s/%s" % (prop, g.__name__, seed))
        sc = [("%s/%d" % (g.__name__, k), props.strip(g(r, k))) for k in range(n)]
        groups = collections.defaultdict(list)
        for i in range(0, n, 1500):
            tr, bad = part.judge(ctx, exe, sc[i:i + 1500])
            for k, (l, labs) in bad.items():
                e = tr[k][l - 1]; key = ",".join(labs)
                if e["ev"] in ("crash", "fatal"):
                    key += " " + str({x: e[x] for x in e if x not in ("ms",)})
                    f = tempfile.mktemp()
                    core.run_scenarios(ctx, exe, [sc[i + k]], env={"VSIM_STDERR": f})
                    t = open(f).read() if os.path.exists(f) else ""
                    key += " " + " | ".join(x[-120:] for x in t.split("\n") if "ssert" in x or "terminate" in x or "what" in x)[:300]
                groups[key].append((i + k, l, len(tr[k])))
        print(g.__name__, "rejected", sum(map(len, groups.values())), "of", n)
        d = "/tmp/survey"; os.makedirs(d, exist_ok=True)
        for key, v in sorted(groups.items(), key=lambda x: -len(x[1])):
            v.sort(key=lambda x: x[2])
            f = "%s/%s-%s-%d.txt" % (d, prop, g.__name__, v[0][0])
            open(f, "w").write("# property %s\n%s\n" % (prop, sc[v[0][0]][1]))
            print("%5d  %s   e.g. %s (event %d)" % (len(v), key, f, v[0][1]))
    ctx.close()

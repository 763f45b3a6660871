#!/usr/bin/env python3
"""survey_asan.py PROP N [seed]: like survey.py with the address sanitizer; groups reports by their first frames in the library."""
import sys, os, random, collections, subprocess, tempfile, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, props, build
prop, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "1"
exe = build.driver_asan()
for part in props.P[prop]:
    if not isinstance(part, props.Traces): continue
    ctx = core.Ctx(prop, "quick", seed)
    for g, _, _ in part.gens:
        r = random.Random("%s/%s/%s" % (prop, g.__name__, seed))
        sc = [("%s/%d" % (g.__name__, k), props.strip(g(r, k))) for k in range(n)]
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:new_delete_type_mismatch=0"}
        res = core.run_scenarios(ctx, exe, sc, env=env)
        bad = [x for x in sc if res[x[0]] and res[x[0]][-1]["ev"] in ("crash", "hang", "fatal")]
        print(g.__name__, "crashed", len(bad), "of", n); gr = collections.defaultdict(list)
        for x in bad[:20]:
            f = tempfile.mktemp(); core.run_scenarios(ctx, exe, [x], env=dict(env, VSIM_STDERR=f))
            t = open(f).read() if os.path.exists(f) else ""
            m = re.findall(r"(AddressSanitizer: [\w-]+|Assertion .*)", t)[:1] + [a for a in re.findall(r"/repo/(\S+:\d+)", t)][:4]
            gr[str(m) + str(res[x[0]][-1])].append(x)
        for k, v in gr.items():
            f = "/tmp/survey/asan-%s-%s.txt" % (prop, v[0][0].replace("/", "-")); open(f, "w").write("# property %s\n%s\n" % (prop, v[0][1])); print(len(v), k, f)
    ctx.close()

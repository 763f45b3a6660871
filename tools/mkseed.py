#!/usr/bin/env python3
"""mkseed.py SPEC: SPEC is a python file defining ID, PROP, EDITS [(file, old, new[, k])], NEEDS, BREAKS. Writes seeded/ID/{patch.diff,meta.json,demo.sh}
from the scratch clone /tmp/sd, and says which removed lines are not lines of the original repository."""
import sys, os, json, subprocess
ns = {}; exec(open(sys.argv[1]).read(), ns)
W = "/tmp/sd"; D = "/verif/seeded/" + ns["ID"]; os.makedirs(D, exist_ok=True)
git = lambda *a: subprocess.check_output(["git", "-C", W] + list(a), text=True)
git("checkout", "-q", "--", ".")
for e in ns["EDITS"]:
    f, old, new = e[:3]; k = e[3] if len(e) > 3 else 0
    s = open(W + "/" + f).read(); pos = -1
    for _ in range(k + 1):
        pos = s.find(old, pos + 1); assert pos >= 0, (f, old)
    if k == 0 and s.count(old) > 1: print("ambiguous", f, old)
    open(W + "/" + f, "w").write(s[:pos] + new + s[pos + len(old):])
d = git("diff"); open(D + "/patch.diff", "w").write(d)
f = None
for l in d.split("\n"):
    if l.startswith("--- a/"): f = l[6:]; base = git("show", "66a1c3d:" + f)
    elif l.startswith("-") and l[1:] + "\n" not in base: print("NOT ORIGINAL:", l)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
open(D + "/demo.sh", "w").write(r'''#!/bin/bash
# builds demo.cpp against the headers and library of the tree it is run in; exit 0 iff the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -w -include cstdint -I$r/include -I$r/_build/include -I$r/_build/include/salticidae \
    "$d/demo.cpp" -o "$t/demo" $r/_build/libsalticidae.a -luv -lssl -lcrypto -lpthread || exit 3
cd "$t" && timeout 120 ./demo 2>"$t/err"
r=$?
[ $r -eq 0 ] || tail -5 "$t/err"
exit $r
''')
git("checkout", "-q", "--", ".")

#!/usr/bin/env python3
"""Measures the checks: applies each mutant in a scratch clone and runs the check of its property there."""
import os, sys, subprocess, shutil, time, importlib
sys.path.insert(0, os.path.dirname(__file__))
mod = importlib.import_module(os.environ.get("MUTANTS", "mutants")); M = mod.M
W = os.environ.get("MT", "/tmp/mt")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
if not os.path.isdir(W): subprocess.check_call(["cp", "-a", "/repo", W])
for m in M:
    mid, prop, f, old, new = m[:5]; k = m[5] if len(m) > 5 else 0
    if want and not any(mid.startswith(w) or w == prop for w in want): continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    src = subprocess.check_output(["git", "-C", W, "show", "HEAD:" + f], text=True)
    n = src.count(old)
    if n <= k: print(mid, "NOT FOUND", flush=True); continue
    pos = -1
    for _ in range(k + 1): pos = src.find(old, pos + 1)
    open(W + "/" + f, "w").write(src[:pos] + new + src[pos + len(old):])
    for p in prop.split(","):
        t = time.time()
        r = subprocess.run(["python3", "check.py", p] + (["--tier", "thorough"] if os.environ.get("THOROUGH") else []), cwd=V, env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
        why = [l for l in (r.stdout + r.stderr).split("\n") if "VIOLATION" in l or "rejected" in l or "label" in l or "error:" in l][:2]
        print("%-5s %-4s %-7s %5.1fs %s" % (mid, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, " | ".join(why)[:220]), flush=True)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])

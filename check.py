#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                   re-run a recorded counterexample"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return props.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return props.run(a[0], tier, seed)
    except Exception as e:      # never a verdict: the machinery itself failed
        import traceback
        traceback.print_exc()
        print("ERROR property=%s %s" % (a[0], str(e)[:300]))
        return 2
if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())

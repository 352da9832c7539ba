#!/usr/bin/env python3
"""vpreplay.py replays/<PROP>/<harness>.<variant>.vals: builds the harness with the real code and runs one counterexample."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpcheck as v

f = sys.argv[1]
name, vi = os.path.basename(f)[:-len(".vals")].rsplit(".", 1)
h = v.Harness(os.path.join(v.HARN, name + ".c"), os.environ.get("VERIF_TIER", "quick"))
w = v.Work()
try:
    h, var = v.split_variant(h, h.variants[int(vi)])
    ok, txt = v.replay(v.build_native(w, h, var, vi), f)
    print(txt)
    print("reproduced" if ok else "not reproduced")
finally:
    w.close()
sys.exit(1 if ok else 0)

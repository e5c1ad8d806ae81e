"""Development aid: findings of the named obligations in full.  usage: ob.py FN [BITS]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sav import build, obligations as ob
from sav.ctx import Ctx
from sav.par import isolated
c = Ctx(build.dump(sys.argv[2] if len(sys.argv) > 2 else "64"))
t = ob.table()
names = [n for n in t if n == sys.argv[1] or sys.argv[1].endswith("*") and n.startswith(sys.argv[1][:-1])]
if 1:
    for n, r in isolated(lambda n: ob.check(c, t[n]), names):
        print(n, "paths", r.paths, "panics", r.panics, "leaves", r.leaves, "steps", r.steps, "findings", len(r.findings))
        for f in r.findings[:int(os.environ.get("N", "4"))]:
            print("  *", sorted(f.labels))
            print("   ", f.text[:int(os.environ.get("W", "1500"))])
            print("    UNDER", (f.under or "")[-1500:])

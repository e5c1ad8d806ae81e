"""Development aid: path summaries of one function.  usage: show.py FN [BITS] [N]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sav import build
from sav.ctx import Ctx, Anchor
from sav.spec import show


def main():
    fn = sys.argv[1]
    bits = sys.argv[2] if len(sys.argv) > 2 else "64"
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 40
    c = Ctx(build.dump(bits))
    try:
        ps = c.paths(fn)
    except Anchor as e:
        print("ANCHOR", e)
        return
    print(len(ps), "paths")
    for p in ps[:n]:
        print("-", p.kind, ", ".join("%s%s" % ("" if v else "!", show(x)) for x, v in p.facts.trail())[:700])
        if p.kind == "ret":
            print("    =>", show(p.value)[:700])
            for k, v in p.outs.items():
                print("    out", k, show(v)[:300])
        for L in p.state.loop_list():
            print("    loop", L.site, {str(k): show(v[2])[:80] for k, v in L.mus.items()})
            for st, vals in L.backs[:4]:
                print("       back", {str(k): show(v)[:200] for k, v in vals.items()},
                      "under", ", ".join("%s%s" % ("" if v else "!", show(x)) for x, v in st.facts.trail()[-4:])[:300])


main()

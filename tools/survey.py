"""Development aid: every obligation on one tree (SAV_REPO), grouped by property.

usage: survey.py [BITS] [-p PATCH] [-v]   (with -p: a scratch copy of /repo with the patch applied)
"""
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def prepare(patch):
    d = os.environ.get("SURVEY_DIR", "/tmp/survey-tree")
    os.makedirs(d, exist_ok=True)
    subprocess.run("cd /repo && tar cf - --exclude=./target --exclude=./.git . | (cd %s && rm -rf ./src && tar xf -)" % d,
                   shell=True, check=True)
    if patch:
        subprocess.run(["git", "apply", "--directory=", "--unsafe-paths", patch], cwd=d, check=True)
    os.environ["SAV_REPO"] = d
    os.environ.setdefault("SAV_CACHE", "/tmp/survey-cache")


def work(a):
    dump, kind, n, bits = a
    from sav import obligations as ob, analyse
    t0 = time.time()
    if kind == "ob":
        r = ob.check(C, ob.table()[n], bits)
        return kind, n, [(f.fn, sorted(f.labels), f.text, f.under) for f in r.findings], time.time() - t0
    f, cov = analyse.special(n, C, bits)
    return kind, n, f, time.time() - t0


def survey(bits="64", jobs=8):
    from sav import build, ctx, obligations as ob, props, analyse
    from sav.par import isolated
    dump = build.dump(bits)
    tasks = [(dump, "ob", n, bits) for n in ob.table()]
    tasks.sort(key=lambda x: 0 if x[2] in ("decoding_sci::decode_with_type", "C07") else 1)
    global C
    C = ctx.Ctx(dump)
    res = [r for _, r in isolated(work, tasks, jobs)]
    res += [work((dump, "sp", n, bits)) for n in analyse.SPECIAL if n != "C22"]
    by, slow = {}, []
    for kind, n, fs, dt in res:
        slow.append((dt, n))
        for f in fs:
            if kind == "ob":
                F = ob.Finding(f[0], f[1], f[2], None, f[3], bits)
                for p in props.PROPS:
                    if n in props.needed(p, [n]) and props.relevant(p, F):
                        by.setdefault(p, []).append(F)
            else:
                by.setdefault(n, []).append(ob.Finding(f["fn"], f["labels"], f["text"], None, f.get("under"), bits))
    return by, sorted(slow, reverse=True)


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    patch = args[args.index("-p") + 1] if "-p" in args else None
    bits = args[0] if args and args[0] in ("64", "32", "64ns", "64da") else "64"
    if patch or "-r" in args:
        prepare(os.path.abspath(patch) if patch else None)
    by, slow = survey(bits)
    kn = open(os.path.join(ROOT, "known-findings.txt")).read().splitlines()
    for p in sorted(by):
        fs = [f for f in by[p] if "KNOWN-FINDING: property=%s %s" % (p, f.key()) not in kn]
        if fs:
            print(p, len(fs), "|", fs[0].fn, sorted(fs[0].labels), fs[0].text[:200])
            if verbose:
                for f in fs[:12]:
                    print("    ", f.fn, sorted(f.labels), f.text[:500], "UNDER", (f.under or "")[-300:])
    print("slowest", [(round(a, 1), b) for a, b in slow[:4]])


if __name__ == "__main__":
    main()

"""try.py SEED [PROP...]: runs checks on a scratch copy of /repo with a planted bug applied (development aid)"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE, CACHE = "/tmp/try-tree", "/tmp/try-cache"


def main():
    seed = sys.argv[1]
    d = os.path.join(ROOT, "seeded", seed)
    props = sys.argv[2:] or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    shutil.rmtree(TREE, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", TREE])
    subprocess.check_call(["git", "-C", TREE, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", TREE, "apply", os.path.join(d, "patch.diff")])
    ev = os.path.join(ROOT, "evidence")
    for p in props:
        old = {f: open(os.path.join(ev, f)).read() for f in os.listdir(ev)} if os.path.isdir(ev) else {}
        r = subprocess.run([os.path.join(ROOT, "bin", "check"), p], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, SAV_REPO=TREE, SAV_CACHE=CACHE))
        print("%s %s -> %d" % (seed, p, r.returncode))
        print("\n".join("   " + x[:300] for x in r.stdout.splitlines()[:8]))
        for f, s in old.items():
            open(os.path.join(ev, f), "w").write(s)
    shutil.rmtree(TREE)


main()

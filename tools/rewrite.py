"""Development aid: rewrites every place of the crate in one behaviour-preserving way (benign/rewriter) and requires
every property to stay quiet.

usage: rewrite.py [-32] [RULE[+RULE...] ...]     (no rule: all of them)
"""
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = os.environ.get("REWRITE_TREE", "/tmp/rw-tree")
BIN = "/tmp/rewriter-target/debug/rewriter"
RULES = re.findall(r'self\.is\("([a-z-]+)"\)', open(os.path.join(ROOT, "benign/rewriter/src/main.rs")).read())
RULES = list(dict.fromkeys(RULES))
FILES = [f for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f not in ("tests.rs",)]


def compiles():
    r = subprocess.run(["cargo", "check", "--offline", "-q", "--lib"], cwd=TREE, capture_output=True, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=TREE + "-target", RUSTFLAGS="-Awarnings"))
    return r.returncode == 0


BASE = {}


def rewrite(rule, f, places):
    open(TREE + "/src/" + f, "w").write(BASE[f])
    sel = "all" if places is None else ",".join(map(str, places)) or "none"
    r = subprocess.run([BIN, rule, TREE + "/src/" + f, sel], capture_output=True, text=True)
    if r.stderr:
        print(r.stderr[:300])
    return int(r.stdout or 0)


def good(rule, f, places):
    """the places of f that still compile when rewritten together"""
    rewrite(rule, f, places)
    if compiles():
        return places
    if len(places) == 1:
        return []
    h = len(places) // 2
    a, b_ = good(rule, f, places[:h]), good(rule, f, places[h:])
    both = a + b_
    if both and a and b_:
        rewrite(rule, f, both)
        if not compiles():
            return a
    return both


def run(rule, bits):
    subprocess.run("mkdir -p %s && cd /repo && tar cf - --exclude=./target --exclude=./.git . | (cd %s && rm -rf ./src && tar xf -)"
                   % (TREE, TREE), shell=True, check=True)
    total = used = 0
    for f in FILES:
        BASE[f] = open("/repo/src/" + f).read()
        for one in rule.split("+"):
            n = rewrite(one, f, None)
            if not n:
                open(TREE + "/src/" + f, "w").write(BASE[f])
                continue
            total += n
            if compiles():
                used += n
            else:
                g = good(one, f, list(range(n)))
                rewrite(one, f, g)
                used += len(g)
            BASE[f] = open(TREE + "/src/" + f).read()
    subprocess.run("rustfmt --edition 2021 src/*.rs", cwd=TREE, shell=True, capture_output=True)
    r = subprocess.run([sys.executable, ROOT + "/tools/survey.py", bits, "-v"], capture_output=True, text=True,
                       env=dict(os.environ, SAV_REPO=TREE, SAV_CACHE=TREE + "-cache"))
    lines = [x for x in (r.stdout + r.stderr).splitlines() if not x.startswith("slowest")]
    print("%s (%s): %d of %d places: %s" % (rule, bits, used, total, "ALARM" if lines else "quiet"), flush=True)
    seen = set()
    for x in lines:
        if x[:90] not in seen and len(seen) < 25:
            seen.add(x[:90])
            print("    " + x[:260])


subprocess.run(["cargo", "build", "-q", "--offline"], cwd=ROOT + "/benign/rewriter", check=True,
               env=dict(os.environ, CARGO_TARGET_DIR="/tmp/rewriter-target"))
want = [a for a in sys.argv[1:] if not a.startswith("-")] or RULES
for w in want:
    run(w, "32" if "-32" in sys.argv else "64")

"""Development aid: all checks on every rewrite of benign/edits.py (names as arguments select)."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.setrecursionlimit(20000)


def main():
    ns = {}
    for f in ("edits.py", "more.py", "third.py", "fourth.py", "fifth.py", "sixth.py", "seventh.py", "eighth.py"):
        exec(open(os.path.join(ROOT, "benign", f)).read(), ns)
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    os.environ.setdefault("SURVEY_DIR", "/tmp/benign-tree")
    os.environ.setdefault("SAV_CACHE", "/tmp/benign-cache")
    import survey
    kn = open(os.path.join(ROOT, "known-findings.txt")).read().splitlines()
    bad = 0
    for name, edits in ns["E"]:
        if want and name not in want:
            continue
        survey.prepare(None)
        d = os.environ["SAV_REPO"]
        ok = True
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(name, "PATTERN", s.count(a), a[:80])
                ok = False
                break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        if "-t" in sys.argv:
            r = subprocess.run(["cargo", "+stable", "test", "--offline", "--lib", "-q"], cwd=d, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR="/tmp/survey-test"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(name, "tests", r.returncode, "" if not r.returncode else r.stdout[-800:])
            continue
        out = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "survey.py"), "64"] +
                             (["-v"] if "-v" in sys.argv else []), text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=os.environ).stdout
        if any(a.startswith("-32") for a in sys.argv):
            out += subprocess.run([sys.executable, os.path.join(ROOT, "tools", "survey.py"), "32"], text=True,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=os.environ).stdout
        lines = [x for x in out.splitlines() if not x.startswith("slowest")]
        bad += bool(lines)
        print("%s: %s" % (name, "quiet" if not lines else "ALARM"), flush=True)
        for x in lines[:60 if "-v" in sys.argv else 3]:
            print("    " + x[:700], flush=True)
    print(bad, "alarms")


if __name__ == "__main__":
    main()

"""Entry point of every check: sav.run <property> [quick|thorough]"""
import json
import os
import subprocess
import sys
import time

from . import build

ROOT = build.ROOT
BITS = {"quick": ["64"], "thorough": ["64", "32"]}
EXTRA_BITS = {"C07": ["64", "32"], "C26": ["64", "32"]}
COMPARED = {"C22": ["64", "32", "64ns", "64da"]}   # configurations that must agree with each other


def known():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("KNOWN-FINDING: "):
                out.append(line)
    return out


def analyse(pid, bits, dump):
    """run the analysis of one dump in its own process (term tables are per target)"""
    p = subprocess.run([sys.executable, "-m", "sav.analyse", pid, bits, dump], cwd=ROOT,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("analysis failed: " + p.stderr[-3000:])
    return json.loads(p.stdout)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BITS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    results = []
    skipped = []
    try:
        for bits in COMPARED.get(pid) or (EXTRA_BITS.get(pid) if tier == "quick" else None) or BITS[tier]:
            try:
                results.append(analyse(pid, bits, build.dump(bits)))
            except build.SourceError as e:
                # a configuration that does not compile has no behaviour to judge
                if not results:
                    raise
                print("NOTE: the crate does not compile in the %s configuration, which is not analysed" % bits)
                skipped.append((bits, str(e)))
    except build.BuildError as e:
        print("cannot analyse the current tree: %s" % e)
        return 2
    findings = [f for r in results for f in r["findings"]]
    if pid in COMPARED:
        common = set.intersection(*[{f["group"] for f in r["findings"]} for r in results])
        findings = [f for f in findings if f["group"] not in common]
        findings += [{"fn": "the crate", "labels": ["parity"], "text": "does not compile in the %s configuration" % b,
                      "where": None, "under": e[-1500:], "bits": b, "key": "does not compile: " + b,
                      "rule": "every configuration compiles"} for b, e in skipped]
    kn = known()
    shown, new = [], []
    for f in findings:
        line = "KNOWN-FINDING: property=%s %s" % (pid, f["key"])
        if line in kn:
            if line not in shown:
                shown.append(line)
        else:
            new.append(f)
    for line in shown:
        print(line)
    cov = {}
    for r in results:
        for k, v in r["coverage"].items():
            if isinstance(v, int):
                cov[k] = cov.get(k, 0) + v
            elif isinstance(v, list):
                cov.setdefault(k, [])
                cov[k] += [x for x in v if x not in cov[k]]
            else:
                cov[k] = v
    obligations = cov.get("obligations", 0)
    cov["obligations"] = obligations
    cov["discharged"] = max(0, obligations - len(findings))
    cov["checker_cmd"] = "bin/check %s %s" % (pid, tier)
    cov["trusted_base"] = [
        "rustc nightly MIR construction (opt level 0) and the extraction driver driver/main.rs",
        "the abstract interpreter sav/interp.py with its library models sav/builtins.py and fact domain sav/facts.py",
        "documented behaviour of AddressableBuffer implementations, parity-scale-codec, scale-info, bitvec, core/alloc",
        "the specification tables in sav/models",
    ]
    cov["targets"] = [r["bits"] for r in results]
    if skipped:
        cov["configurations_not_compiling"] = [b for b, _ in skipped]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": results[0].get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions, %d paths, %d obligations, %d findings (%s)" % (
        pid, len(cov.get("functions", [])), cov.get("paths", 0), obligations, len(findings), ", ".join(cov["targets"])))
    if new:
        rep = os.path.join(ROOT, "evidence", "violation-%s.txt" % pid)
        with open(rep, "w") as f:
            for x in new:
                f.write("property: %s (%s-bit)\nfunction: %s\nwhere: %s\nrule: %s\nviolation: %s\nunder: %s\n\n" % (
                    pid, x["bits"], x["fn"], x.get("where"), x.get("rule"), x["text"], x.get("under")))
        for x in new[:5]:
            print("  %s (%s): %s" % (x["fn"], x.get("where"), x["text"][:400]))
            if x.get("under"):
                print("      on the path where %s" % x["under"][:400])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

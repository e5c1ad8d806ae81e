"""One property on one dumped program; prints a JSON result."""
import json
import sys
import traceback

from .ctx import Ctx
from .par import isolated
from . import obligations as ob
from . import props


def refinement(pid, ctx, bits):
    t = ob.table()
    names = props.needed(pid, t)
    findings, cov = [], {"functions": [], "paths": 0, "obligations": 0, "loop_steps": 0, "loops": 0, "samples": []}
    for n, r in isolated(lambda n: ob.check(ctx, t[n], bits), names):
        cov["functions"].append("%s: %d paths, %d leaves, %d loop steps" % (n, r.paths, r.leaves, r.steps))
        cov["paths"] += r.paths
        cov["obligations"] += r.leaves + r.steps
        cov["loop_steps"] += r.steps
        cov["loops"] += r.loops
        cov["samples"] += r.samples[:2]
        b = ctx.p.root(t[n].fn)
        for f in r.findings:
            if props.relevant(pid, f):
                findings.append({"fn": f.fn, "labels": sorted(f.labels), "text": f.text, "under": f.under,
                                 "where": f.where or (b or {}).get("span"), "bits": bits, "key": f.key(),
                                 "rule": "every path of the function agrees with the specified behaviour"})
    # a path that panics gives nothing of what is specified
    from . import panics
    keys = {ctx.body_of(t[n])["key"]: n for n in names if props.owns(pid, n)}
    for k, r in isolated(lambda k: panics.analyse(ctx, k), [k for k in panics.roots(ctx) if k in keys]):
        cov["obligations"] += r["obligations"]
        for text, site, under in r["findings"]:
            labels = r["kinds"].get((text, site, under), set())
            if props.takes(pid, keys[k], labels):
                findings.append({"fn": keys[k], "labels": sorted(labels), "text": text, "under": under,
                                 "where": site, "bits": bits, "key": "%s: %s" % (keys[k], text[:200]),
                                 "rule": "every path of the function returns"})
    cov["samples"] = cov["samples"][:8]
    if len(names) < props.FLOORS.get(pid, 1):
        findings.append({"fn": pid, "labels": ["*"], "text": "fewer functions than expected to analyse",
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def panic_freedom(ctx, bits):
    from . import panics
    findings, cov = [], {"functions": [], "paths": 0, "obligations": 0, "samples": [], "unmodelled_calls_assumed_not_to_panic": []}
    ext = set()
    for r in panics.check(ctx, bits):
        b = ctx.p.bodies[r["key"]]
        cov["functions"].append("%s: %d paths, %d obligations%s" % (r["key"], r["paths"], r["obligations"],
                                                                   " (" + ", ".join(r["notes"]) + ")" if r["notes"] else ""))
        cov["paths"] += r["paths"]
        cov["obligations"] += r["obligations"]
        ext |= set(r["ext"])
        for text, site, under in r["findings"]:
            findings.append({"fn": b["np"], "labels": ["panic"], "text": text, "where": site or b.get("span"), "under": under,
                             "bits": bits, "key": "%s: %s" % (b["np"], text[:200]),
                             "rule": "no path of the function ends in a panic; its callers' contracts hold"})
    cov["samples"] = cov["functions"][:8]
    cov["unmodelled_calls_assumed_not_to_panic"] = sorted(ext)
    if len(cov["functions"]) < 60:
        findings.append({"fn": "C07", "labels": ["*"], "text": "fewer functions than expected to analyse", "under": None,
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def reservations(ctx, bits):
    from . import panics
    findings, cov = [], {"functions": [], "paths": 0, "obligations": 0, "samples": []}
    for r in panics.check(ctx, bits):
        b = ctx.p.bodies[r["key"]]
        cov["functions"].append("%s: %d paths, %d requests" % (r["key"], r["paths"], len(r["requests"])))
        cov["paths"] += r["paths"]
        cov["obligations"] += len(r["requests"])
        cov["samples"] += ["%s asks at %s" % (b["np"], x) for x in r["requests"]]
        seen = set()
        for text, site, under in r["ahead"]:
            if (text, site) not in seen:
                seen.add((text, site))
                findings.append({"fn": b["np"], "labels": ["memory"], "text": text, "where": site or b.get("span"), "under": under,
                                 "bits": bits, "key": "%s: %s" % (b["np"], text[:200]),
                                 "rule": "every amount of memory asked for is small or bounded by something already held"})
        for text, site, under in r["findings"]:
            if "cannot be analysed" in text:
                findings.append({"fn": b["np"], "labels": ["*"], "text": text, "where": site or b.get("span"), "under": under,
                                 "bits": bits, "key": "%s: %s" % (b["np"], text[:200]), "rule": "every function can be analysed"})
    cov["samples"] = (sorted(set(cov["samples"])) + cov["functions"])[:12]
    if len(cov["functions"]) < 60:
        findings.append({"fn": "C21", "labels": ["*"], "text": "fewer functions than expected to analyse", "under": None,
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def termination(ctx, bits):
    from . import measures
    findings, cov = [], {"functions": [], "paths": 0, "obligations": 0, "samples": []}
    res, families = measures.check(ctx, bits)
    loops = 0
    for r in res:
        b = ctx.p.bodies[r["key"]]
        cov["functions"].append("%s: %d paths, %d loops, %d calls" % (r["key"], r["paths"], len(r["loops"]), len(r["calls"])))
        cov["paths"] += r["paths"]
        cov["obligations"] += len(r["loops"])
        loops += len(r["loops"])
        seen = set()
        for text, site, under in r["findings"]:
            if (text, site) not in seen:
                seen.add((text, site))
                findings.append({"fn": b["np"], "labels": ["end"], "text": text, "where": site or b.get("span"), "under": under,
                                 "bits": bits, "key": "%s: %s (%s)" % (b["np"], text[:200], site),
                                 "rule": "every loop has a measure that decreases on each way back to its start, "
                                         "every recursive call one that is smaller than its caller's"})
    for comp, n, how in families:
        cov["obligations"] += n
        cov["samples"].append("recursion over %s: %d calls, by %s" % (", ".join(comp), n, how))
    cov["samples"] += ["loop at %s" % x for x in sorted({x for r in res for x in r["loops"]})]
    cov["samples"] = cov["samples"][:12]
    if len(res) < 60 or loops < 20:
        findings.append({"fn": "C29", "labels": ["*"], "text": "fewer functions or loops than expected to analyse", "under": None,
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def error_texts(ctx, bits):
    from . import texts
    findings, cov = [], {"functions": [], "paths": 0, "obligations": 0, "samples": []}
    fns = {}
    for fn, where, label, text, msg in texts.check(ctx):
        cov["paths"] += 1
        cov["obligations"] += 1
        fns.setdefault(fn, []).append(label or "?")
        if text and len(cov["samples"]) < 8:
            cov["samples"].append("%s: %s" % (label, text.replace("\0", "<payload>")))
        if msg:
            findings.append({"fn": fn, "labels": ["text"], "text": msg, "where": where, "under": None, "bits": bits,
                             "key": "%s: %s" % (fn, msg[:200]),
                             "rule": "every variant's text names its subject and writes out its payload"})
    cov["functions"] = ["%s: %s" % (f, ", ".join(v)) for f, v in fns.items()]
    if len(fns) < 9:
        findings.append({"fn": "C31", "labels": ["*"], "text": "fewer error types than expected to analyse", "under": None,
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def purity(ctx, bits):
    from . import effects
    p = ctx.p
    bad, c = effects.check({"items": p.items, "roots": p.roots, "adts": p.adts, "bodies": list(p.bodies.values())})
    cov = {"functions": sorted({b["np"] for b in ctx.p.bodies.values() if b.get("local")}),
           "paths": c["bodies"], "obligations": c["calls"], "library_functions_called": c["external"],
           "samples": ["%s: %s" % (k, r.pattern[:120]) for k, r in effects.KINDS]}
    findings = [{"fn": fn, "labels": ["effect"], "text": text, "where": where, "under": None, "bits": bits,
                 "key": "%s: %s" % (fn, text), "rule": "no construct of the crate reads or changes anything but its arguments"}
                for fn, where, text in bad]
    if c["bodies"] < 600:
        findings.append({"fn": "C20", "labels": ["*"], "text": "fewer functions than expected to analyse", "under": None,
                         "bits": bits, "key": "floor", "rule": "coverage floor"})
    return findings, cov


def parity(ctx, bits):
    """every disagreement, panic and text defect of one configuration; the caller drops what all have in common"""
    from . import panics, texts
    t = ob.table()
    out, paths, obls = [], 0, 0
    for n, r in isolated(lambda n: ob.check(ctx, t[n], bits), list(t)):
        paths += r.paths
        obls += r.leaves + r.steps
        out += [(n, n, f.text, f.where or (ctx.p.root(t[n].fn) or {}).get("span"), f.under) for f in r.findings]
    for r in panics.check(ctx, bits):
        paths += r["paths"]
        obls += r["obligations"]
        fn = ctx.p.bodies[r["key"]]["np"]
        out += [("panic " + fn, fn, x, site, under) for x, site, under in r["findings"]]
    for fn, where, label, text, msg in texts.check(ctx):
        paths += 1
        obls += 1
        if msg:
            out.append(("text " + fn, fn, msg, where, None))
    cov = {"functions": ["%s: %s" % (bits, n) for n in t], "paths": paths, "obligations": obls,
           "samples": ["%s: %d functions, %d paths" % (bits, len(t), paths)]}
    return [{"group": g, "fn": fn, "labels": ["parity"],
             "text": "in the %s build but not in all others: %s" % (bits, text), "where": where, "under": under,
             "bits": bits, "key": "%s (%s): %s" % (g, bits, text[:200]),
             "rule": "what holds on every path in one build configuration holds in every other"}
            for g, fn, text, where, under in out], cov


SPECIAL = {"C22": parity, "C07": panic_freedom, "C31": error_texts, "C20": purity, "C21": reservations, "C29": termination}


def special(pid, ctx, bits):
    return SPECIAL[pid](ctx, bits)


def main():
    pid, bits, dump = sys.argv[1:4]
    out = {"bits": bits}
    ctx = Ctx(dump)
    findings, cov = [], {}
    if pid in props.PROPS:
        findings, cov = refinement(pid, ctx, bits)
    elif pid in SPECIAL:
        findings, cov = special(pid, ctx, bits)
    out.update(findings=findings, coverage=cov, assumptions=props.ASSUME + props.MORE_ASSUME.get(pid, []))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()

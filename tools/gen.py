"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/decoding_sci.rs src/decoding_sci_ext.rs src/lib.rs"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files.split(),
                  mech=mech, note=note, technique=technique, na=na))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

TECH = ("path-sensitive interprocedural dataflow over rustc MIR (trace-partitioned abstract interpretation with "
        "value numbering, loop step relations), every path refined against a declarative decision table")
NOTE = ("Static and all-path: holds for every input, registry and buffer implementation meeting the stated interface "
        "assumptions. Trusts rustc MIR, the MIR driver, the library models and the specification tables.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 -m sav.build 64 32 64ns 64da",
    "checks": [{
        "property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
        "thorough_cmd": "bin/check %s thorough" % p["id"],
        "technique": p["technique"] or TECH, "level": "proof",
        "level_note": (p["note"] + " " if p["note"] else "") + NOTE,
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "All checks share one engine: a rustc driver dumps monomorphic MIR of the current /repo tree, an abstract "
             "interpreter summarises every path, and each summary must refine the specification in sav/models. "
             "Nothing of the code under analysis is executed.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")

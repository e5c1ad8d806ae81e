"""Effect analysis: which constructs of the crate reach outside their arguments.

The whole dumped program is scanned (every body of the crate, and every library
body pulled in by it): the items it declares, each callee of each call and each
cast.  A construct of one of the KINDS below is a violation.
"""
import re

KINDS = [
    ("reads a clock", r"^(std|core)::time::(Instant|SystemTime)|::Instant::now|::SystemTime::now"),
    ("touches files, streams, network, processes or the environment", r"^std::(fs|io|net|process|env|os)::"),
    ("uses threads or thread-local state", r"^std::thread::|::LocalKey"),
    ("uses shared mutable state", r"^(std|core|alloc)::sync::(atomic|mpsc|poison|once|lazy|Mutex|RwLock|Once|Lazy|Condvar|Barrier)"
                                  r"|^core::cell::(once|lazy|OnceCell|LazyCell)|^<(std|core)::sync::(atomic|Mutex|RwLock|Once|Lazy)"
                                  r"|^(once_cell|lazy_static|spin|parking_lot)::"),
    ("depends on a random hash order",
     r"std::collections::hash_(map|set)::\w*(Iter|Keys|Values|Drain|Extract|Union|Difference|Intersection)\w*<"
     r"|std::collections::Hash(Map|Set)(::)?<.*>( as core::fmt::Debug>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|fmt)\b"
     r"|<&?('\w+ )?(mut )?std::collections::Hash(Map|Set)<.*> as core::iter::IntoIterator>"
     r"|RandomState(>| as [^>]*>)?::(new|default|build_hasher|hash_one)"),
    ("uses randomness", r"^(rand|rand_core|getrandom|fastrand|oorandom)::|OsRng|thread_rng"),
    ("depends on memory addresses", r"new_pointer|core::fmt::Pointer>?::fmt|::expose_provenance|::addr\b"),
    ("starts a program or aborts it", r"^std::process::|^core::intrinsics::abort"),
]
KINDS = [(k, re.compile(r)) for k, r in KINDS]

CELLS = re.compile(r"(core|std|alloc)::(cell|sync)::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|atomic|Atomic)")


def calls(x):
    """(name, resolved name, site) of every function mentioned"""
    st = [(x, None)]
    while st:
        v, sp = st.pop()
        if isinstance(v, dict):
            sp = v.get("sp", sp)
            if "full" in v and "p" in v and "local" in v:
                yield v, sp
            for y in v.values():
                if isinstance(y, (dict, list)):
                    st.append((y, sp))
        elif isinstance(v, list):
            if v and v[0] == "cast":
                yield {"cast": v[1]}, sp
            for y in v:
                if isinstance(y, (dict, list)):
                    st.append((y, sp))


def check(doc):
    """(findings, coverage) on a dumped program document"""
    out, ncalls, nbodies, ext = [], 0, 0, set()
    for it in doc["items"]:
        if it["k"] == "static" and (it["mut"] or not it.get("freeze", True)):
            out.append((it["p"], it["span"], "static item that can be modified"))
        elif it["k"] == "unsafe":
            out.append((it["p"], it["span"], "unsafe block"))
        elif it["k"] == "foreign":
            out.append(("extern", it["span"], "foreign or assembly code"))
    for r in doc["roots"]:
        if r["unsafe"]:
            out.append((r["p"], r["span"], "unsafe function"))
    for path, a in doc["adts"].items():
        if a.get("local"):
            for v in a["v"]:
                for f in v["f"]:
                    if isinstance(f[1], str) and CELLS.search(f[1]):
                        out.append((path, None, "field `%s` is modified through shared references" % f[0]))
    for b in doc["bodies"]:
        nbodies += 1
        seen = set()
        for c, sp in calls(b["bbs"]):
            if "cast" in c:
                if "ExposeProvenance" in str(c["cast"]) and b["local"]:
                    out.append((b["p"], sp or b["span"], "depends on memory addresses"))
                continue
            ncalls += 1
            names = {c["full"], c["p"], c.get("rp") or c["p"]}
            if not c["local"]:
                ext.add(c["p"])
            for kind, rx in KINDS:
                for n in names:
                    if rx.search(n) and (kind, n) not in seen and b["local"]:
                        seen.add((kind, n))
                        out.append((b["p"], sp or b["span"], "%s: calls %s" % (kind, c["p"])))
                        break
                else:
                    continue
                break
    return out, {"bodies": nbodies, "calls": ncalls, "external": sorted(ext)}

"""Termination: every loop has a measure and every recursive call takes a smaller argument.

Every function that C07 interprets is interpreted the same way; each loop met is
reduced to its step relation (the values of the changing places at the head and
at each way back to it), and one of these must hold on every way back:
 * a counter moves towards a bound that does not change in the loop;
 * a list grows by an element it does not contain yet, from a finite set.
"""
from .terms import *
from .ctx import OPAQUE
from .interp import Interp, Unsupported
from .par import complete, isolated
from .spec import tail
from . import panics
from .contracts import total_len


FAR = 1 << 20        # a bound this far off is only the end of an integer type


def own(loop, t):
    return any(y.op == "mu" and y.args[0] == loop.id for y in subterms(t))


def bounded(loop, st, mu, up):
    """on this way back, mu is held on the side it moves to by something that does not change"""
    f = st.facts
    if not up and (f.range_of(mu) or (None, None))[0] is not None:
        return True
    for l in f.ineqs:
        c, d = to_lin(l)
        k = d.get(mu)
        if k is None or (k < 0) != up:
            continue
        rest = [x for x in d if x is not mu]
        if not any(own(loop, x) for x in rest) and (rest or abs(c) < FAR):
            return True
    return False


def moves(loop, st, vals, mu):
    """(goes up by at least one, goes down by at least one, does not go down, does not go up)"""
    f = st.facts
    v = vals[mu]
    if not (v is mu or is_intlike(v) or v.op == "lin"):
        return None
    d = sub(v, mu)
    return (f.entails(add(d, I(-1))), f.entails(add(mulc(d, -1), I(-1))), f.entails(d), f.entails(mulc(d, -1)))


def new_element(loop, st, vals, mu):
    v = vals[mu]
    return v.op == "push" and v.args[0] is mu and st.facts.atoms.get(mk("contains", mu, v.args[1])) is False


def measure(loop):
    """None when some measure decreases on every way back, otherwise the ways back that none explains"""
    left = list(loop.backs)
    while left:
        for mu in loop.mus:
            ms = [moves(loop, st, vals, mu) for st, vals in left]
            hit = None
            if all(m is not None for m in ms):
                for s, k in ((0, 2), (1, 3)):
                    if all(m[k] for m in ms) and any(m[s] for m in ms) and \
                            all(bounded(loop, st, mu, s == 0) for (st, _), m in zip(left, ms) if m[s]):
                        hit = [b for b, m in zip(left, ms) if not m[s]]
                        break
            else:
                new = [new_element(loop, st, vals, mu) for st, vals in left]
                if any(new) and all(n or vals[mu] is mu for n, (_, vals) in zip(new, left)):
                    hit = [b for b, n in zip(left, new) if not n]
            if hit is not None:
                left = hit
                break
        else:
            return left
    return None


# ---- recursion ---------------------------------------------------------------------------
HUSK = "decoding_sci::husk_type"


def part(t):
    """the argument t is a strict part of, or None"""
    n = 0
    while t.op in ("fld", "elem"):
        t = t.args[0]
        n += 1
    return t.args[0] if t.op == "in" and n else None


def field(t, path, name):
    info = ADTS.get(path)
    names = [x[0] for x in info["v"][0]["f"]] if info else []
    if name not in names:
        return None
    return project(t, path, 0, names.index(name), len(names))


def visited(t, path):
    """the ids met so far, from a value carrying them"""
    if path == "propagated::Propagated":
        t = field(t, path, "checker")
    return None if t is None else field(t, "propagated::Checker", "cycle_check")


def extends(t, base, facts, loops, depth=0):
    """1: t is base and at least one id that was not there; 0: t has all of base; None: unknown"""
    got = 0
    while t is not base:
        if depth > 20:
            return None
        depth += 1
        if t.op == "push":
            if facts.atoms.get(mk("contains", t.args[0], t.args[1])) is False:
                got = 1
            t = t.args[0]
            continue
        if t.op == "mu":
            loop = next((l for l in loops if t in l.mus), None)
            if loop is None or not all(extends(v[t], t, st.facts, loops, depth) is not None for st, v in loop.backs):
                return None
            t = loop.mus[t][2]
            continue
        # what a finished look through wrapping types has met: all it was given and at least one more
        x = t
        while x.op == "fld":
            x = x.args[0]
        if x.op == "call" and x.args[0].split("<")[0] == HUSK:
            inner = visited(x.args[-1], "propagated::Checker")
            if inner is None or t is not visited(field(mk("fld", x, (RES, 0), 0, 1), "decoding_sci::HuskedType", "checker") or t,
                                                 "propagated::Checker"):
                return None
            got = 1
            t = inner
            continue
        return None
    return got


def smaller(b, call, f, loops):
    """the ways in which the arguments of a recursive call are smaller than those of the caller"""
    out = set()
    for i, a in enumerate(call.args[1:], 1):
        j = part(a)
        if j is not None:
            out.add(("part", j, i))
        v = mk("in", i)
        if is_intlike(v) and (is_intlike(a) or a.op == "lin"):
            if f.entails(add(sub(v, a), I(-1))) and f.entails(a):
                out.add(("down", i, i))
    if b["np"] == panics.DWT and call.args[0].split("<")[0] == panics.DWT:
        data, pos, prop = call.args[2], call.args[4], call.args[6]
        pos0 = mk("in", 4)
        if data is mk("in", 2):
            if f.entails(add(sub(pos, pos0), I(-1))) and f.entails(sub(total_len(data), pos)):
                out.add("data")
            elif f.entails(sub(pos, pos0)):
                t, base = visited(prop, "propagated::Propagated"), visited(mk("in", 6), "propagated::Propagated")
                if t is not None and extends(t, base, f, loops) == 1:
                    out.add("data")
    return out


def states(paths):
    """every final state: of the ways out, and of the ways back in the loops on them"""
    todo, seen, loops = [p.state for p in paths], set(), []
    while todo:
        st = todo.pop()
        if id(st) in seen:
            continue
        seen.add(id(st))
        yield st
        for l in st.loop_list():
            if l not in loops:
                loops.append(l)
                todo += [s for s, _ in l.backs] + [o.state for o in l.exits]


def _analyse(ctx, key, names):
    b = ctx.p.bodies[key]
    it = Interp(ctx.p, OPAQUE - {b["p"], b["np"]})
    out = {"key": key, "np": b["np"], "loops": [], "calls": [], "findings": [], "paths": 0, "rec": []}
    it.watch = lambda n: names.get(n) or names.get(n.split("<")[0])
    assume, _ = panics.environment(ctx, b)
    ps = it.analyse(b, assume)
    out["paths"] = len(ps)
    out["rec"] = sorted(k for k in it.recursive if k != key)
    sites = {}
    for l in it.loop_objs:
        bad = measure(l)
        sites.setdefault(l.site, []).append(len(l.backs))
        if bad:
            st, vals = bad[0]
            out["findings"].append(("a loop need not end: nothing bounded moves on a way back to its start", l.site, tail(st.facts, 8)))
    out["loops"] = sorted(sites)
    done = set()
    for st in states(ps):
        x = st.calls
        while x is not None and id(x) not in done:
            done.add(id(x))
            h = it.at_call.get(id(x))
            if h is not None:
                (call, site), _ = x
                out["calls"].append((it.watch(call.args[0]), site, smaller(b, call, h[1], it.loop_objs), tail(h[1], 6)))
            x = x[1]
    if b["np"] == HUSK:
        base = visited(mk("in", 4), "propagated::Checker")
        for p in ps:
            for f, v in panics.ok_paths(p) if p.kind == "ret" else ():
                t = visited(field(v, "decoding_sci::HuskedType", "checker"), "propagated::Checker")
                if base is None or t is None or extends(t, base, f, it.loop_objs) != 1:
                    out["findings"].append(("guarantee broken: a wrapped type is looked through once", b.get("span"), tail(f, 8)))
    return out


def analyse(ctx, key, names):
    """-> dict of what one body may do"""
    b = ctx.p.bodies[key]
    try:
        return complete(_analyse, ctx, key, names)
    except Unsupported as e:
        text = "%s cannot be analysed: %s" % (b["np"], e)
        return {"key": key, "np": b["np"], "loops": [], "calls": [], "findings": [(text, b.get("span"), None)], "paths": 0, "rec": []}


def callables(ctx):
    """{name of a call: the crate's function it enters}"""
    out = {}
    for b in ctx.p.bodies.values():
        if not b["local"]:
            continue
        n = b["np"]
        out[n] = n
        if n.startswith("<") and " as " in n and ">::" in n:
            # a trait's method is called by the name of the trait, its first argument the type
            who, rest = n[1:].split(" as ", 1)
            trait, meth = rest.rsplit(">::", 1)
            out["%s::%s<%s>" % (trait.split("<")[0], meth, who)] = n
    return out


def components(edges):
    """strongly connected sets of functions with a cycle"""
    reach = {}
    for a in edges:
        seen, todo = set(), list(edges[a])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += edges.get(x, ())
        reach[a] = seen
    out = []
    for a in edges:
        if a in reach[a]:
            c = frozenset(x for x in reach[a] if a in reach.get(x, ()))
            if c not in out:
                out.append(c)
    return out


def common(comp, calls):
    """one argument per function of the set that every call among them makes smaller"""
    if all("data" in w for *_, w, _ in calls):
        return "the data and the ids not met yet"
    fns = sorted(comp)
    # arguments are chosen alike for functions of one family: the first that works for each edge
    opts = [{}]
    for f in fns:
        opts = [dict(o, **{f: i}) for o in opts for i in range(1, 9)] if len(fns) == 1 else \
            [dict(o, **{f: i}) for o in opts for i in (1, 2, 3)]
        if len(opts) > 3000:
            return None
    for o in opts:
        for kind in ("part", "down"):
            if all((kind, o[a], o[b_]) in w for a, b_, _, w, _ in calls):
                return "%s of argument %s" % (kind, ", ".join("%s: %d" % x for x in o.items()))
    return None


def check(ctx, bits):
    names = callables(ctx)
    todo, done, res = panics.roots(ctx), set(), []
    while todo:
        done |= set(todo)
        rs = [r for _, r in isolated(lambda k: analyse(ctx, k, names), todo)]
        res += rs
        todo = sorted({k for r in rs for k in r["rec"] if k in ctx.p.bodies and ctx.p.bodies[k]["local"]} - done)
    edges = {}
    for r in res:
        for n, *_ in r["calls"]:
            edges.setdefault(r["np"], set()).add(n)
    seen = []
    for comp in components(edges):
        calls = [(r["np"], n, site, w, under) for r in res if r["np"] in comp for n, site, w, under in r["calls"] if n in comp]
        how = common(comp, calls)
        seen.append((sorted(comp), len(calls), how))
        if how:
            continue
        # name the calls that stand in the way of what most of the others have
        ways = {}
        for c in calls:
            for w in c[3]:
                ways[w] = ways.get(w, 0) + 1
        best = max(ways, key=lambda w: ways[w]) if ways else None
        for a, n, site, w, under in calls:
            if best is None or best not in w:
                next(r for r in res if r["np"] == a)["findings"].append(
                    ("recursion need not end: this call of %s gets nothing smaller than its caller got" % n, site, under))
    return res, seen

"""Refinement of path summaries against decision-tree specifications.

A specification is a Python function over the same term language the dataflow
engine uses.  It asks an Oracle for the facts it branches on; facts already
established on the analysed path answer the question, undetermined ones split
the specification.  Every leaf must agree with what the path returns and leaves
in its `&mut` outputs.  Loops are matched by induction: each back edge of the
summarised loop must perform exactly the step the specification prescribes.
"""
import itertools
from . import terms as T
from .terms import *


class Mismatch(Exception):
    def __init__(self, msg, labels=()):
        super().__init__(msg)
        self.labels = frozenset(labels)


class Why(str):
    """a reason for disagreement, with the aspects it touches"""
    labels = frozenset()

    @classmethod
    def of(cls, text, *labels):
        w = cls(text)
        w.labels = frozenset().union(*labels) if labels else frozenset()
        return w


class Infeasible(Exception):
    pass


class MustFail:
    """the specification demands some error; `reason` names the defect otherwise"""

    def __init__(self, reason, *labels):
        self.reason, self.labels = reason, frozenset(labels)


class Pred:
    """a successful result described by what can be read from it"""

    def __init__(self, check):
        self.check = check         # (oracle, value) -> None or (text, labels)


class SpecReturn(Exception):
    def __init__(self, v):
        self.v = v


# ---- building terms by name ---------------------------------------------------
def vidx(path, name):
    info = T.ADTS.get(path)
    if info is None:
        raise Mismatch("type %s no longer exists" % path)
    if name is None:
        return 0
    for i, v in enumerate(info["v"]):
        if v["n"] == name:
            return i
    raise Mismatch("variant %s::%s no longer exists" % (path, name))


def fidx(path, vi, f):
    if isinstance(f, int):
        return f
    for i, x in enumerate(T.ADTS[path]["v"][vi]["f"]):
        if x[0] == f:
            return i
    raise Mismatch("field %s.%s no longer exists" % (path, f))


def A(path, variant=None, /, *pos, **named):
    vi = vidx(path, variant)
    names = [x[0] for x in T.ADTS[path]["v"][vi]["f"]]
    if named:
        if set(named) - set(names):
            raise Mismatch("fields of %s changed" % path)
        for n in names:
            if n not in named:
                raise Mismatch("unexpected field %s of %s" % (n, path))
        vals = tuple(named[n] for n in names)
    else:
        vals = tuple(pos)
        if len(vals) != len(names):
            raise Mismatch("field count of %s changed" % path)
    return adt(path, vi, vals)


def F(t, path, variant, f):
    vi = vidx(path, variant)
    fi = fidx(path, vi, f)
    r = project(t, path, vi, fi, len(T.ADTS[path]["v"][vi]["f"]))
    ty = T.ADTS[path]["v"][vi]["f"][fi]
    return r


def C(name, *args):
    return mk("call", name, *args)


def O(i, call):
    return mk("out", i, call)


def ok(t):
    return project(t, RES, 0, 0, 1)


def err(t):
    return project(t, RES, 1, 0, 1)


def some(t):
    return project(t, OPT, 1, 0, 1)


def num(t, ty="usize"):
    """mark an opaque term as an integer of the given type"""
    note_type(t, ty)
    return t


# ---- agreement of terms under facts ----------------------------------------------
def same(facts, a, b, depth=0, memo=None):
    if a is b:
        return True
    if memo is None:
        memo = {}
    k = (a, b)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = _same(facts, a, b, depth, memo)
    memo[k] = r
    return r


def expand(facts, t):
    """an opaque value whose variant is known, as a constructor term"""
    for path, v in known_variants(facts, t):
        info = T.ADTS.get(path)
        if info:
            n = len(info["v"][v]["f"])
            return mk("adt", path, v, *[project(t, path, v, i, n) for i in range(n)])
    return None


def known_variants(facts, t):
    v = facts.variants.get(t)
    if v is None:
        return
    for x, yes in facts.trail():
        if x.op == "isvar" and x.args[0] is t:
            yield x.args[1], v
            return


CONDITIONS = {"eq0", "ge0", "isvar", "not", "eq"}


ANY = mk("any")     # a value the specification leaves open


def _same(facts, a, b, depth, memo):
    if depth > 60:
        return False
    if b is ANY:
        return True
    if a.op == "adt" and b.op == "adt":
        if a.args[:2] != b.args[:2] or len(a.args) != len(b.args):
            return False
        return all(same(facts, x, y, depth + 1, memo) for x, y in zip(a.args[2:], b.args[2:]))
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and y.op != "adt":
            v = facts.variant(y)
            info = T.ADTS.get(x.args[0])
            if v is None and info and info["kind"] == "struct":
                v = 0
            if v is None or v != x.args[1]:
                if len(x.args) == 2 and facts.eval(mk("isvar", y, x.args[0], x.args[1])) is True:
                    return True
                return False
            n = len(x.args) - 2
            return all(same(facts, project(y, x.args[0], v, i, n), x.args[2 + i], depth + 1, memo)
                       for i in range(n))
    if is_intlike(a) or is_intlike(b):
        if int_same(facts, a, b):
            return True
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and x.args[0] in (0, 1) and y.op in CONDITIONS:
            return facts.eval(y) is bool(x.args[0])
    if a.op == "str" or b.op == "str":
        if facts.eval(eq(a, b)) is True:
            return True
    if a.op == "lin" or b.op == "lin":
        if a.op == b.op and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            rest = list(b.args[1])
            for k, v in a.args[1]:
                for i, (k2, v2) in enumerate(rest):
                    if v == v2 and same(facts, k, k2, depth + 1, memo):
                        del rest[i]
                        break
                else:
                    return False
            return True
        return False
    for x, y in ((a, b), (b, a)):
        # a tabulated sequence against a literal one
        if x.op == "arr" and y.op == "tab" and facts.eval(int_eq(length(y), I(len(x.args)))) is True:
            return all(same(facts, e, elem(y, I(i)), depth + 1, memo) for i, e in enumerate(x.args))
        if x.op == "arr" and not x.args and y.op not in ("arr", "push") and \
                facts.eval(int_eq(length(y), I(0))) is True:
            return True
    if a.op == "cat" or b.op == "cat":
        x, y = text_parts(facts, a), text_parts(facts, b)
        if x is not a or y is not b:
            return same(facts, x, y, depth + 1, memo)
    if a.op == "concat" or b.op == "concat":
        x, y = list_parts(facts, a), list_parts(facts, b)
        if x is not a or y is not b:
            return same(facts, x, y, depth + 1, memo)
    if a.op == "mu" or b.op == "mu":
        return facts.eval(eq(a, b)) is True
    if a.op == b.op and len(a.args) == len(b.args):
        if a.op in ("in", "konst", "static", "fn"):
            return False
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                if not same(facts, x, y, depth + 1, memo):
                    break
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    break
                bad = False
                for p, q in zip(x, y):
                    if isinstance(p, Term) and isinstance(q, Term):
                        if not same(facts, p, q, depth + 1, memo):
                            bad = True
                    elif p != q:
                        bad = True
                if bad:
                    break
            elif x != y:
                break
        else:
            return True
    return facts.eval(eq(a, b)) is True


def list_parts(facts, t):
    """a concatenation of lists without the parts known to be empty"""
    from .builtins import concat
    if t.op != "concat":
        return t
    head = list_parts(facts, t.args[0])
    if facts.eval(int_eq(length(t.args[1]), I(0))) is True:
        return head
    return t if head is t.args[0] else concat(head, t.args[1])


def text_parts(facts, t):
    """a concatenation with the pieces the facts determine written out"""
    from .builtins import cat
    out = S("")
    for x in t.args if t.op == "cat" else (t,):
        if x.op == "disp" and x.args[1] == "int":
            c = const_of(facts, x.args[0])
            if c is not None:
                x = S(str(c))
        elif x.op == "strrep" and x.args[0].op == "str":
            c = const_of(facts, x.args[1])
            if c is not None:
                x = S(x.args[0].args[0] * c)
        elif x.op == "sub" and facts.eval(int_eq(x.args[1], x.args[2])) is True:
            x = S("")
        out = cat(out, x)
    return out


def settle(facts, t):
    """products, quotients and bit unions that the facts make linear"""
    if t.op == "lin":
        out, changed = I(t.args[0]), False
        for k, v in t.args[1]:
            k2 = settle(facts, k)
            changed |= k2 is not k
            out = add(out, mulc(k2, v))
        return out if changed else t
    if t.op != "op" or t.args[0] not in ("Mul", "Div", "BitOr", "BitXor") or len(t.args) != 3:
        return t
    op, x, y = t.args[0], settle(facts, t.args[1]), settle(facts, t.args[2])
    if op == "Mul":
        cx, cy = const_of(facts, x), const_of(facts, y)
        if cx is not None or cy is not None:
            return mul(x if cx is None else I(cx), y if cy is None else I(cy))
        return t if (x, y) == t.args[1:] else mul(x, y)
    if op == "Div":
        cy = const_of(facts, y)
        if cy and facts.entails(x):
            return udiv(x, cy)
        return t
    for p, q in ((x, y), (y, x)):
        c0, d = to_lin(q)
        k = 0
        for v in list(d.values()) + ([c0] if c0 else []):
            k = gcd(k, v)
        k &= -k
        if k > 1 and facts.entails(p) and facts.entails(add(I(k - 1), p, -1)) and facts.entails(q):
            return add(p, q)
    return t


def int_same(facts, a, b):
    x, y = settle(facts, a), settle(facts, b)
    if x is not a or y is not b:
        return int_same(facts, x, y)
    d = sub(a, b)
    if d.op == "int":
        return d.args[0] == 0
    return facts.entails(d) and facts.entails(mulc(d, -1))


# ---- the oracle --------------------------------------------------------------------
class Oracle:
    def __init__(self, facts, script, loops=(), ptr=0, checker=None):
        self.facts = facts
        self.script = script
        self.taken = []        # (choice, number of options)
        self.loops = loops
        self.ptr = ptr
        self.checker = checker
        self.tags = []

    def tag(self, name, level=0):
        """the clause of the specification being followed from here on"""
        del self.tags[level:]
        self.tags.append(name)

    def choice(self, options):
        """options: [(label, fn(facts)->bool)]; prunes refuted ones"""
        live = []
        for lab, f in options:
            g = self.facts.copy()
            if f(g) is not False:
                live.append((lab, g))
        if not live:
            raise Infeasible()
        if len(live) == 1:
            self.facts = live[0][1]
            return live[0][0]
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else 0
        self.taken.append((c, len(live)))
        self.facts = live[c][1]
        return live[c][0]

    def test(self, cond):
        r = self.facts.eval(cond)
        if r is not None:
            return r
        return self.choice([(True, lambda f: f.assume(cond, True)),
                            (False, lambda f: f.assume(cond, False))])

    def eq(self, a, b):
        return self.test(eq(a, b))

    def case(self, t, path):
        """variant name of t (an enum `path`)"""
        info = T.ADTS.get(path)
        if info is None:
            raise Mismatch("type %s no longer exists" % path)
        n = len(info["v"])
        v = self.facts.variant(t, n)
        if v is None:
            opts = []
            for i in range(n):
                opts.append((i, lambda f, i=i: f.assume_variant(t, path, i, True)))
            v = self.choice(opts)
        return info["v"][v]["n"]

    def isv(self, t, path, name):
        i = vidx(path, name)
        return self.test(mk("isvar", t, path, i) if t.op != "adt" else (TRUE if t.args[1] == i else FALSE))

    def ok(self, t):
        """Ok? of a Result"""
        return self.isv(t, RES, "Ok")

    def some(self, t):
        return self.isv(t, OPT, "Some")

    def ret(self, v):
        raise SpecReturn(v)

    def q(self, t, conv=None):
        """`t?`: the Ok value, or return Err(conv(error))"""
        if self.ok(t):
            return ok(t)
        e = err(t)
        raise SpecReturn(Err(conv(e) if conv else e))

    # ---- loops -------------------------------------------------------------------
    def loop(self, count, roles, body, tag=None, made=None):
        """count: term or None. body(o, ix, roles) -> ('next', roles)|('break', roles)|('ret', v).
        made: {role: value at an index}, for lists that may as well be made apart from the loop"""
        if count is not None and self.facts.eval(int_eq(count, I(0))) is True:
            # zero iterations; the code may or may not have entered its loop
            for j in range(self.ptr, len(self.loops)):
                m, _ = self.checker.match_loop(self, self.loops[j], count, roles, body, tag)
                if m is not None:
                    self.ptr = j + 1
                    return {r: final(self, self.loops[j], m[r]) for r in roles}
            return roles
        reasons = []
        labs = {tag} if tag else set()
        for j in range(self.ptr, len(self.loops)):
            L = self.loops[j]
            m, why = self.checker.match_loop(self, L, count, roles, body, tag)
            if m is None:
                reasons.append("loop at %s: %s" % (L.site, why))
                labs |= getattr(why, "labels", frozenset())
                continue
            self.ptr = j + 1
            vals = {r: m[r] for r in roles}
            ix = m.get("$i")
            if count is not None and not self.test(lt(ix, count)):
                return {r: final(self, L, m[r]) for r in roles}
            out = body(self, ix, vals)
            if out[0] == "ret":
                raise SpecReturn(out[1])
            if out[0] == "break":
                return out[1]
            if count is not None and not self.test(lt(add(ix, I(1)), count)):
                return out[1]          # it was the last step
            raise Mismatch("loop at %s is left although it must continue" % L.site, labs)
        # small literal counts are unrolled by the engine
        if count is not None:
            c = const_of(self.facts, count)
            if c is not None and c <= 16:
                cur = roles
                for i in range(c):
                    out = body(self, I(i), cur)
                    if out[0] == "ret":
                        raise SpecReturn(out[1])
                    cur = out[1]
                    if out[0] == "break":
                        return cur
                return cur
        if made:
            def checks(o, i, r):
                out = body(o, i, dict(r, **{k: roles[k] for k in made}))
                return (out[0], {k: v for k, v in out[1].items() if k not in made}) if out[0] == "next" else out
            try:
                r = self.loop(count, {k: v for k, v in roles.items() if k not in made}, checks, tag)
            except Mismatch:
                r = None
            else:
                return r if r is None else dict(
                    r, **{k: mk("tab", count, f(BOUND)) if roles[k] is mk("arr") else mk("concat", roles[k], mk("tab", count, f(BOUND))) for k, f in made.items()})
        raise Mismatch("no loop with the required step (%s)%s" % (
            tag or "loop", ": " + "; ".join(reasons) if reasons else ": the path performs no such loop"), labs)


def final(o, L, v):
    t = getattr(L, "tabs", {}).get(v)
    return t[0] if t is not None else v


def const_of(facts, t):
    if t.op == "int":
        return t.args[0]
    for c in range(0, 17):
        r = facts.eval(int_eq(t, I(c)))
        if r is True:
            return c
    return None


def leaves(fn, facts, loops=(), ptr=0, checker=None, limit=4000):
    """all (facts, result) leaves of a specification under the given facts"""
    stack = [[]]
    n = 0
    while stack:
        script = stack.pop()
        o = Oracle(facts.copy(), script, loops, ptr, checker)
        mism = None
        try:
            r = fn(o)
        except SpecReturn as e:
            r = ("ret", e.v)
        except Infeasible:
            r = None
        except Mismatch as e:
            r = None
            mism = e
        for i in range(len(script), len(o.taken)):
            c, k = o.taken[i]
            pre = [x for x, _ in o.taken[:i]]
            for alt in range(1, k):
                stack.append(pre + [alt])
        n += 1
        if n > limit:
            raise Mismatch("specification splits too often")
        if mism is not None:
            yield o, mism
        elif r is not None:
            yield o, r


class Checker:
    """compares the paths of one function with a specification"""

    def __init__(self, cmp_outs=True):
        self.cache = {}
        self.nleaves = 0
        self.nback = 0
        self.nloops = 0

    def match_loop(self, o, L, count, roles, body, tag):
        key = (L.id, tag, count, tuple(sorted((k, v) for k, v in roles.items())), body.__code__)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._match_loop(o, L, count, roles, body)
        return r

    def _match_loop(self, o, L, count, roles, body):
        if not L.backs:
            return None, "it never repeats"
        ixs = []
        skip = set()
        if count is not None:
            for mu, (_, _, init) in L.mus.items():
                if init.op == "int" and all(v[mu] is add(mu, I(1)) for _, v in L.backs):
                    # counts up, from any constant
                    ixs.append(sub(mu, init))
                    skip.add(mu)
                elif is_intlike(init) and all(v[mu] is add(mu, I(-1)) for _, v in L.backs) \
                        and same(o.facts, init, count):
                    # counts down to nothing
                    ixs.append(sub(count, mu))
                    skip.add(mu)
            if not ixs:
                # counts up from where it was told to start
                for mu, (_, _, init) in L.mus.items():
                    if (is_intlike(init) or init.op == "lin") and all(v[mu] is add(mu, I(1)) for _, v in L.backs):
                        ixs.append(sub(mu, init))
                        skip.add(mu)
            if not ixs:
                return None, "it does not step through the expected range"
        cands = {}
        for r, init in roles.items():
            cs = [mu for mu, (_, _, i) in L.mus.items() if mu not in skip and same(o.facts, i, init)]
            cs.append(init)
            cands[r] = cs
        # prune: a role whose step differs on some back edge from candidate is dropped lazily
        names = list(roles)
        best = None
        tried = 0
        for ix in (ixs or [None]):
            for combo in itertools.product(*[cands[r] for r in names]):
                mus = [c for c in combo if c.op == "mu"]
                if len(set(mus)) != len(mus):
                    continue
                tried += 1
                if tried > 3000:
                    return None, "too many candidate assignments"
                m = dict(zip(names, combo))
                if ix is not None:
                    m["$i"] = ix
                why = self._verify(L, count, m, names, body)
                if why is None:
                    self.nloops += 1
                    return m, None
                score = (why[0], len(mus))
                if best is None or score > best[0]:
                    best = (score, why[1])
        return None, best[1] if best else "no matching state"

    def _verify(self, L, count, m, names, body):
        done = 0
        for st, vals in L.backs:
            self.nback += 1
            loops = st.loop_list()
            ptr = L.depth0

            def run(o):
                if count is not None and not o.test(lt(m["$i"], count)):
                    raise Mismatch("the loop repeats past the end of its range")
                return body(o, m.get("$i"), {r: m[r] for r in names})
            for o, r in leaves(run, st.facts, loops, ptr, self):
                if isinstance(r, Mismatch):
                    return done, Why.of(str(r), r.labels, o.tags)
                if r[0] != "next":
                    return done, Why.of("the loop repeats where it must %s under [%s]" % (
                        "return " + show(r[1]) if r[0] == "ret" else "stop", tail(st.facts)),
                        o.tags, kinds(r[1]) | {"dropped-error"} if r[0] == "ret" else ())
                for k in names:
                    got = vals.get(m[k], m[k]) if m[k].op == "mu" else m[k]
                    if not same(o.facts, got, r[1][k]):
                        return done, Why.of("an iteration makes `%s` %s instead of %s under [%s]" % (
                            k, show(got), show(r[1][k]), tail(st.facts)), {k}, o.tags, diff(o.facts, got, r[1][k]))
                done += 1
        return None

    def run(self, paths, spec, cmp=None, only=None):
        """yields (path, facts, message) for every disagreement"""
        for p in paths:
            if p.kind == "panic":
                continue
            if only is not None and not only(p):
                continue
            loops = p.state.loop_list()
            first, extra, n = None, set(), 0
            for o, r in leaves(spec, p.facts, loops, 0, self):
                self.nleaves += 1
                why = self._judge(p, o, r, cmp)
                if why is None:
                    continue
                n += 1
                if first is None:
                    first = (o.facts, why)
                else:
                    extra |= why.labels
                if n >= 12:
                    break
            if first:
                yield p, first[0], Why.of(str(first[1]), first[1].labels, extra - {"*"})

    def _judge(self, p, o, r, cmp):
        if isinstance(r, Mismatch):
            return Why.of(str(r), r.labels, o.tags, kinds(p.value) if p.kind == "ret" else (),
                          {"extra-error"} if p.kind == "ret" and is_err(p.value) else (),
                          unasked(p.facts, o.facts))
        if isinstance(r, tuple) and r and r[0] == "ret":
            r = r[1]
        why = (cmp or compare)(o, p, r)
        if why:
            return Why.of(str(why), why.labels, unasked(p.facts, o.facts))


# ---- what a disagreement is about ---------------------------------------------------
def kinds(t):
    """variant names along the error (or value) a result carries"""
    out = set()
    while t is not None and t.op == "adt":
        info = T.ADTS.get(t.args[0])
        if info is None:
            break
        out.add(info["v"][t.args[1]]["n"])
        if len(t.args) != 3:
            break
        t = t.args[2]
    return frozenset(out)


def diff(facts, a, b, depth=0):
    """names of the fields / call arguments in which two terms differ"""
    if depth > 24 or same(facts, a, b):
        return frozenset()
    out = set()
    if a.op == b.op == "adt" and a.args[0] == b.args[0]:
        info = T.ADTS.get(a.args[0])
        if a.args[1] != b.args[1]:
            return frozenset([info["v"][a.args[1]]["n"], info["v"][b.args[1]]["n"], "variant"] if info else [])
        names = [x[0] for x in info["v"][a.args[1]]["f"]] if info else []
        for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
            if not same(facts, x, y):
                out.add(str(names[i]) if i < len(names) else str(i))
                out |= diff(facts, x, y, depth + 1)
        return frozenset(out)
    for x, y in ((a, b), (b, a)):
        # a known structure against one read field by field
        if x.op == "adt" and y.op != "adt":
            info = T.ADTS.get(x.args[0])
            v = facts.variant(y)
            if v is None and info and info["kind"] == "struct":
                v = 0
            if info and v == x.args[1]:
                n = len(x.args) - 2
                z = mk("adt", x.args[0], v, *[project(y, x.args[0], v, i, n) for i in range(n)])
                return diff(facts, x, z, depth + 1)
    if a.op == b.op == "call" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        path = a.args[0].split("<")[0].split("::")
        base = path[-1]
        if len(path) > 1 and path[-2][:1].isupper():
            base = path[-2] + "." + base
        for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
            if not same(facts, x, y):
                out.add("%s#%d" % (base, i))
                out |= diff(facts, x, y, depth + 1)
        return frozenset(out)
    if a.op == b.op and a.op in ("fld", "out", "push", "len", "elem", "concat", "cat", "arr", "tab", "sub", "join") and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                out |= diff(facts, x, y, depth + 1)
        return frozenset(out)
    return frozenset(out)


def calls_in(facts, skip=()):
    return [c.args[0] for c, _ in facts.trail() if c.op == "isvar" and c.args[0].op == "call" and c.args[0] not in skip]


def unasked(code, spec):
    """how the calls the specification makes differ from the ones the path makes"""
    mine = calls_in(code)
    out = set()
    for c in calls_in(spec, set(mine)):
        same_name = [x for x in mine if x.args[0] == c.args[0] and len(x.args) == len(c.args)]
        ds = [diff(spec, x, c) for x in same_name]
        if ds:
            out |= min(ds, key=len)
    return frozenset(out)


def is_err(t):
    return t.op == "adt" and t.args[0] == RES and t.args[1] == 1


def is_ok(t):
    return t.op == "adt" and t.args[0] == RES and t.args[1] == 0


def compare(o, p, r):
    """does a summarised path return what the specification says?"""
    v, outs = r if isinstance(r, tuple) else (r, None)
    if p.kind != "ret":
        return Why.of("panics", o.tags)
    if isinstance(v, MustFail):
        return None if is_err(p.value) else Why.of(v.reason, v.labels)
    if isinstance(v, Pred):
        w = v.check(o, p.value)
        return None if w is None else Why.of(w[0], o.tags, w[1])
    if not same(o.facts, p.value, v):
        labs = set(o.tags) | kinds(p.value) | kinds(v)
        labs -= {"Ok", "Err", "Some", "None"}
        if is_err(v) == is_err(p.value):
            for i, t in (outs or {}).items():
                if not same(o.facts, p.outs[i], t):
                    labs |= {"position"} | diff(o.facts, p.outs[i], t)
        if is_err(v) and not is_err(p.value):
            labs.add("dropped-error")
        elif is_err(p.value) and not is_err(v):
            labs.add("extra-error")
        else:
            labs |= diff(o.facts, p.value, v)
            labs.add("error-detail" if is_err(v) else "value")
        return Why.of("returns %s instead of %s" % (show(p.value), show(v)), labs)
    for i, t in (outs or {}).items():
        if not same(o.facts, p.outs[i], t):
            return Why.of("leaves argument %d at %s instead of %s" % (i, show(p.outs[i]), show(t)),
                          o.tags, {"position"}, diff(o.facts, p.outs[i], t))


def tail(facts, n=6):
    return ", ".join("%s%s" % ("" if v else "not ", show(c)) for c, v in facts.trail()[-n:])

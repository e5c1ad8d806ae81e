"""Path facts: variant facts, constant facts and a linear-inequality domain."""
from math import gcd
from .terms import *


REFRESH = "*"
ON_VARIANT = None     # hook: contracts of opaque calls


class Facts:
    __slots__ = ("variants", "notvar", "atoms", "vals", "notvals", "ineqs", "neqs", "log", "every")

    def __init__(self):
        self.variants = {}
        self.notvar = {}
        self.atoms = {}
        self.vals = {}
        self.notvals = {}
        self.ineqs = []
        self.neqs = []
        self.every = ()      # (sequence, n, conditions on the element at BOUND): they hold for the first n elements
        self.log = None      # cons list of (cond, value) in assumption order

    def copy(self):
        f = Facts.__new__(Facts)
        f.variants = dict(self.variants)
        f.notvar = dict(self.notvar)
        f.atoms = dict(self.atoms)
        f.vals = dict(self.vals)
        f.notvals = dict(self.notvals)
        f.ineqs = list(self.ineqs)
        f.neqs = list(self.neqs)
        f.log = self.log
        f.every = self.every
        return f

    def trail(self):
        out = []
        x = self.log
        while x is not None:
            out.append(x[0])
            x = x[1]
        out.reverse()
        return out

    # ---- variants ---------------------------------------------------------
    def variant(self, t, nvariants=None):
        if t.op == "adt":
            return t.args[1]
        v = self.variants.get(t)
        if v is not None:
            return v
        if t.op == "upd":
            return self.variant(t.args[0])
        nv = self.notvar.get(t)
        if nv is not None and nvariants is not None and len(nv) == nvariants - 1:
            return next(i for i in range(nvariants) if i not in nv)
        return None

    def assume_variant(self, t, path, v, yes=True):
        k = self.variant(t)
        if k is not None:
            return (k == v) == yes
        if yes:
            if v in self.notvar.get(t, ()):
                return False
            self.variants[t] = v
            self.log = ((mk("isvar", t, path, v), yes), self.log)
            if ON_VARIANT is not None and t.op == "call":
                return ON_VARIANT(self, t, path, v) is not False
            return True
        else:
            nv = self.notvar.get(t, frozenset()) | {v}
            info = ADTS.get(path)
            if info and len(nv) >= len(info["v"]):
                return False
            self.notvar[t] = nv
            if info and len(nv) == len(info["v"]) - 1:
                w = next(i for i in range(len(info["v"])) if i not in nv)
                self.variants[t] = w
                if ON_VARIANT is not None and t.op == "call" and ON_VARIANT(self, t, path, w) is False:
                    return False
        self.log = ((mk("isvar", t, path, v), yes), self.log)
        return True

    def refresh(self):
        """fire the contracts of calls again: more of their conditions may hold now"""
        if ON_VARIANT is not None:
            for t, v in list(self.variants.items()):
                if t.op == "call":
                    ON_VARIANT(self, t, REFRESH, v)

    # ---- booleans -----------------------------------------------------------
    def eval(self, c):
        """True / False / None"""
        op = c.op
        if op == "int":
            return c.args[0] != 0
        if op == "not":
            r = self.eval(c.args[0])
            return None if r is None else not r
        if op == "isvar":
            t, p, v = c.args
            k = self.variant(t)
            if k is not None:
                return k == v
            if v in self.notvar.get(t, ()):
                return False
            return None
        if op == "ge0":
            l = c.args[0]
            if self.entails(l):
                return True
            if self.entails(add(mulc(l, -1), I(-1))):
                return False
            return None
        if op == "eq0":
            l = c.args[0]
            a = self.atoms.get(c)
            if a is not None:
                return a
            if l in self.neqs:
                return False
            if self.entails(add(l, I(-1))) or self.entails(add(mulc(l, -1), I(-1))):
                return False
            if self.entails(l) and self.entails(mulc(l, -1)):
                return True
            return None
        if op == "eq":
            a = self.atoms.get(c)
            if a is not None:
                return a
            x, y = c.args
            for p, q in ((x, y), (y, x)):
                if q.op == "str":
                    v = self.vals.get(p)
                    if v is not None:
                        return v is q
                    if q in self.notvals.get(p, ()):
                        return False
            r = self.eq_struct(x, y)
            return r
        if op == "and":
            rs = [self.eval(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == "or":
            rs = [self.eval(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if op == "ovf":
            return self.eval_ovf(c)
        return self.atoms.get(c)

    def eq_struct(self, x, y):
        vx, vy = self.variant(x), self.variant(y)
        if vx is not None and vy is not None and (x.op == "adt" or y.op == "adt"):
            if vx != vy:
                return False
        return None

    def eval_ovf(self, c):
        ty, val = c.args
        lo, hi = INT_RANGE.get(ty, (None, None))
        if lo is None:
            return self.atoms.get(c)
        if self.entails(sub(I(hi), val)) and self.entails(sub(val, I(lo))):
            return False
        if self.entails(sub(val, I(hi + 1))) or self.entails(sub(I(lo - 1), val)):
            return True
        return self.atoms.get(c)

    def assume(self, c, val):
        """add c == val; False when contradictory"""
        r = self.eval(c)
        if r is not None:
            return r == val
        op = c.op
        if op == "not":
            return self.assume(c.args[0], not val)
        if op == "isvar":
            return self.assume_variant(c.args[0], c.args[1], c.args[2], val)
        self.log = ((c, val), self.log)
        if op == "ge0":
            l = c.args[0]
            self.ineqs.append(l if val else add(mulc(l, -1), I(-1)))
            self.tighten(l)
            return True
        if op == "eq0":
            l = c.args[0]
            self.atoms[c] = val
            if val:
                self.ineqs.append(l)
                self.ineqs.append(mulc(l, -1))
            else:
                self.neqs.append(l)
                if len(self.neqs) > 1:
                    self.tighten(l)
                elif self.entails(l):
                    self.ineqs.append(add(l, I(-1)))
                elif self.entails(mulc(l, -1)):
                    self.ineqs.append(add(mulc(l, -1), I(-1)))
            return True
        if op == "eq":
            self.atoms[c] = val
            x, y = c.args
            for p, q in ((x, y), (y, x)):
                if q.op == "str":
                    if val:
                        self.vals[p] = q
                    else:
                        self.notvals[p] = self.notvals.get(p, frozenset()) | {q}
            return True
        if op == "and" and val or op == "or" and not val:
            return all(self.assume(x, val) for x in c.args)
        if op == "ovf":
            self.atoms[c] = val
            ty, v = c.args
            lo, hi = INT_RANGE.get(ty, (None, None))
            if lo is not None and not val:
                self.ineqs.append(sub(I(hi), v))
                self.ineqs.append(sub(v, I(lo)))
            return True
        self.atoms[c] = val
        return True

    def visit(self, seq, i):
        """what an earlier loop found to hold for every element holds for this one; False when contradictory"""
        for xs, n, conds in self.every:
            if xs is seq and self.entails(add(sub(n, i), I(-1))) and self.entails(i):
                for c, val in conds:
                    if not self.assume(subst(c, {BOUND: i}), val):
                        return False
        return True

    def tighten(self, l):
        """inequalities may turn a known difference into a strict bound"""
        mine = set(to_lin(l)[1])
        rest = self.neqs
        while True:
            old, rest = rest, []
            for q in old:
                if mine.isdisjoint(to_lin(q)[1]):
                    rest.append(q)
                elif self.entails(q):
                    self.ineqs.append(add(q, I(-1)))
                elif self.entails(mulc(q, -1)):
                    self.ineqs.append(add(mulc(q, -1), I(-1)))
                else:
                    rest.append(q)
            if len(rest) in (len(old), 0):
                break
        self.neqs = rest

    # ---- linear entailment (polyhedra-style, by bounded elimination) --------
    def range_of(self, t):
        r = term_range.get(t)
        if t.op == "op":
            o, a, b = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else None
            if o == "Rem" and b is not None and b.op == "int" and b.args[0] > 0:
                ra = self.range_of(a)
                if ra and ra[0] >= 0:
                    return (0, min(b.args[0] - 1, ra[1]))
            if o == "Div" and b is not None and b.op == "int" and b.args[0] > 0:
                ra = self.bounds(a)
                if ra and ra[0] is not None and ra[0] >= 0:
                    return (ra[0] // b.args[0], ra[1] // b.args[0] if ra[1] is not None else r[1] if r else None)
            if o == "BitAnd" and b is not None:
                for x in (a, b):
                    if x.op == "int" and x.args[0] >= 0:
                        return (0, x.args[0])
            if o == "Shr" and b is not None and b.op == "int":
                ra = self.bounds(a)
                if ra and ra[0] is not None and ra[0] >= 0 and ra[1] is not None:
                    return (ra[0] >> b.args[0], ra[1] >> b.args[0])
        return r

    def bounds(self, t):
        if t.op == "int":
            return (t.args[0], t.args[0])
        if t.op == "lin":
            lo = hi = t.args[0]
            for k, v in t.args[1]:
                r = self.range_of(k)
                if r is None or r[0] is None or r[1] is None:
                    return None
                if v > 0:
                    lo += v * r[0]
                    hi += v * r[1]
                else:
                    lo += v * r[1]
                    hi += v * r[0]
            return (lo, hi)
        return self.range_of(t)

    def entails(self, l):
        """facts |= l >= 0 ?  (sound, incomplete)"""
        if l.op == "int":
            return l.args[0] >= 0
        b = self.bounds(l)
        if b is not None and b[0] is not None and b[0] >= 0:
            return True
        # refute l <= -1
        goal = add(mulc(l, -1), I(-1))
        return infeasible(self, goal)

    def feasible(self):
        return True


def _norm(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g     # integer tightening (floor) for sum + c >= 0
    return c, d


_inside = {}


def is_pow2(k):
    return k.op == "op" and k.args[0] == "Shl" and k.args[1] is I(1) and k in term_range


def inside(k):
    """variables a quotient, remainder or digit count is bound to"""
    r = _inside.get(k)
    if r is None:
        r = ()
        if k.op == "op" and k.args[0] in ("Div", "Rem"):
            r = tuple(to_lin(k.args[1])[1])
        elif is_pow2(k):
            r = tuple(to_lin(k.args[2])[1])
        elif k.op == "len" and k.args[0].op == "disp" and k.args[0].args[1] == "int":
            r = tuple(to_lin(k.args[0].args[0])[1])
        _inside[k] = r
    return r


def linked(d):
    """the variables of a constraint and those they are bound to"""
    for k in d:
        yield k
        yield from inside(k)


_asking = set()
_bounding = []


def nonneg(f, a):
    """is the numerator of a quotient known not to be negative here"""
    b = f.bounds(a)
    if b and b[0] is not None and b[0] >= 0:
        return True
    if b and b[1] is not None and b[1] < 0 or a in _asking:
        return False
    _asking.add(a)
    try:
        return f.entails(a)
    finally:
        _asking.discard(a)


def infeasible(f, goal):
    cons = []
    c, d = to_lin(goal)
    cons.append((c, d))
    rel = set(d)
    # connected component of the facts, by shared variables
    pool = [to_lin(x) for x in f.ineqs]
    for x in f.neqs:
        pass
    for k in list(rel):
        rel.update(inside(k))
    changed = True
    used = [False] * len(pool)
    while changed:
        changed = False
        for i, (pc, pd) in enumerate(pool):
            if not used[i] and any(k in rel for k in linked(pd)):
                used[i] = True
                cons.append((pc, pd))
                new = set(linked(pd)) - rel
                if new:
                    rel |= new
                    changed = True
    if len(rel) > 24:
        # keep closest facts only
        rel = set(d)
        for _ in range(2):
            for pc, pd in pool:
                if any(k in rel for k in pd) and len(rel) < 20:
                    rel |= set(pd)
        cons = [cons[0]] + [(pc, pd) for pc, pd in pool if all(k in rel for k in pd)]
    for k in list(rel):
        # defining bounds of Div / Rem terms:  a = c*(a/c) + a%c
        if k.op == "op" and k.args[0] in ("Div", "Rem") and k.args[2].op == "int" and k.args[2].args[0] > 0:
            a, cc = k.args[1], k.args[2].args[0]
            if nonneg(f, a):
                ca, da = to_lin(a)
                if k.args[0] == "Div":
                    e = dict(da)
                    e[k] = e.get(k, 0) - cc
                    cons.append((ca, e))                      # a - c*q >= 0
                    e2 = {x: -v for x, v in e.items()}
                    cons.append((-ca + cc - 1, e2))           # c*q + c-1 - a >= 0
                else:
                    e = dict(da)
                    e[k] = e.get(k, 0) - 1
                    cons.append((ca, e))                      # a - a%c >= 0
                for x in da:
                    rel.add(x)
        # powers of two are monotone
        if is_pow2(k) and not _bounding:
            x = k.args[2]
            _bounding.append(k)
            g = f.copy()
            g.ineqs.append(goal)
            lo, hi = (v.bit_length() - 1 for v in term_range[k])
            a, b = lo, hi                       # largest a with x >= a
            while a < b:
                m = (a + b + 1) // 2
                a, b = (m, b) if nonneg(g, sub(x, I(m))) else (a, m - 1)
            lo = a
            a, b = lo, hi                       # smallest b with x <= b
            while a < b:
                m = (a + b) // 2
                a, b = (a, m) if nonneg(g, sub(I(m), x)) else (m + 1, b)
            _bounding.pop()
            cons.append((-(1 << lo), {k: 1}))
            cons.append((1 << b, {k: -1}))
        # number of decimal digits n of v:  10 (n - 1) <= v,  n = 1 only below ten
        if k.op == "len" and k.args[0].op == "disp" and k.args[0].args[1] == "int":
            v = k.args[0].args[0]
            r = f.range_of(v) if v.op != "lin" else None
            if r and r[0] == 0 and r[1] is not None:
                cons.append((10, {v: 1, k: -10}))
                cons.append((9 - r[1], {v: -1, k: r[1]}))
                rel.add(v)
    for k in rel:
        r = f.range_of(k)
        if r is not None:
            if r[0] is not None:
                cons.append((-r[0], {k: 1}))
            if r[1] is not None:
                cons.append((r[1], {k: -1}))
    return fm(cons, rel)


def fm(cons, vars_):
    seen = set()
    cur = []

    def push(lst, c, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c < 0
        c, d = _norm(c, d)
        key = (c, tuple(sorted((k.id, v) for k, v in d.items())))
        if key in seen:
            return False
        seen.add(key)
        lst.append((c, d))
        return False

    for c, d in cons:
        if push(cur, c, d):
            return True
    vars_ = set(vars_)
    # equalities first: substituting a unit-coefficient variable keeps integer precision
    for _ in range(len(vars_)):
        index = {(c, frozenset(d.items())): None for c, d in cur}
        pick = None
        for c, d in cur:
            if (-c, frozenset((k, -v) for k, v in d.items())) in index:
                unit = [k for k, v in d.items() if v in (1, -1)]
                if unit:
                    pick = c, d, min(unit, key=lambda t: t.id)
                    break
        if pick is None:
            break
        ec, ed, x = pick
        if ed[x] > 0:
            ec, ed = -ec, {k: -v for k, v in ed.items()}          # x = ec + rest
        nxt = []
        seen.clear()
        for c, d in cur:
            v = d.get(x, 0)
            if not v:
                if push(nxt, c, d):
                    return True
                continue
            e = dict(d)
            del e[x]
            for k, w in ed.items():
                if k is not x:
                    e[k] = e.get(k, 0) + v * w
            if push(nxt, c + v * ec, e):
                return True
        cur = nxt
        vars_.discard(x)
    while vars_:
        best = None
        for v in vars_:
            p = sum(1 for _, d in cur if d.get(v, 0) > 0)
            n = sum(1 for _, d in cur if d.get(v, 0) < 0)
            cost = p * n - p - n
            if best is None or cost < best[0] or (cost == best[0] and v.id < best[1].id):
                best = (cost, v)
        v = best[1]
        vars_.discard(v)
        pos = [(c, d) for c, d in cur if d.get(v, 0) > 0]
        ng = [(c, d) for c, d in cur if d.get(v, 0) < 0]
        rest = [(c, d) for c, d in cur if d.get(v, 0) == 0]
        if len(pos) * len(ng) > 400:
            return False
        for pc, pd in pos:
            for nc, nd in ng:
                a, b = pd[v], -nd[v]
                d = {}
                for k, x in pd.items():
                    d[k] = d.get(k, 0) + b * x
                for k, x in nd.items():
                    d[k] = d.get(k, 0) + a * x
                if push(rest, b * pc + a * nc, d):
                    return True
        cur = rest
        if len(cur) > 600:
            return False
    return False

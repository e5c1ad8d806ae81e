"""Hash-consed value terms (the value-graph the dataflow engine works on)."""
from math import gcd
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id", "_vars")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __lt__(self, other):
        return self.id < other.id


_table = {}
_all = []


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_all)
        t._vars = None
        _table[k] = t
        _all.append(t)
    return t


# ---- type information attached to opaque integer terms --------------------
INT_RANGE = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1),
    "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1),
    "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
    "i128": (-2**127, 2**127 - 1), "bool": (0, 1), "char": (0, 0x10FFFF),
}


INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


def set_ptr_width(bits):
    INT_RANGE["usize"] = (0, 2**bits - 1)
    INT_RANGE["isize"] = (-2**(bits - 1), 2**(bits - 1) - 1)


set_ptr_width(64)
term_range = {}   # opaque term -> (lo, hi)
term_type = {}    # opaque term -> type string


def note_type(t, tystr):
    if t.op in ("int", "str", "lin", "adt", "tup", "arr", "mref", "clo", "fn"):
        return
    if t not in term_type:
        term_type[t] = tystr
    r = INT_RANGE.get(tystr)
    if r is not None and t not in term_range:
        term_range[t] = r


# ---- constructors ----------------------------------------------------------
def I(v):
    return mk("int", int(v))


TRUE, FALSE = I(1), I(0)
UNIT = mk("tup")
UNDEF = mk("undef")
EXT = mk("ext")


def S(v):
    return mk("str", v)


def adt(path, variant, fields):
    # eta: re-wrapping all fields of an opaque value yields that value
    if fields:
        f0 = fields[0]
        if f0.op == "fld" and f0.args[2] == 0 and f0.args[1] == (path, variant):
            base = f0.args[0]
            n = f0.args[3]
            if n == len(fields) and all(
                f.op == "fld" and f.args[0] is base and f.args[1] == (path, variant)
                and f.args[2] == i for i, f in enumerate(fields)
            ):
                return base
    return mk("adt", path, variant, *fields)


def is_adt(t, path=None, variant=None):
    return t.op == "adt" and (path is None or t.args[0] == path) and (
        variant is None or t.args[1] == variant)


def adt_fields(t):
    return t.args[2:]


def tup(*xs):
    return mk("tup", *xs)


def arr(*xs):
    return mk("arr", *xs)


OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def Some(x):
    return adt(OPT, 1, (x,))


NONE = mk("adt", OPT, 0)


def Ok(x):
    return adt(RES, 0, (x,))


def Err(x):
    return adt(RES, 1, (x,))


# ---- linear integer arithmetic ---------------------------------------------
def to_lin(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, sb=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sb * v
    return from_lin(ca + sb * cb, da)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = to_lin(a)
    return from_lin(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    if a.op == "int":
        return mulc(b, a.args[0])
    if b.op == "int":
        return mulc(a, b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("op", "Mul", a, b)


def static_bounds(t):
    """type-level bounds of an integer term"""
    if t.op == "int":
        return t.args[0], t.args[0]
    if t.op == "lin":
        lo = hi = t.args[0]
        d = dict(t.args[1])
        # m * a - m*c * (a / c) is m times a remainder
        for k, w in t.args[1]:
            if k.op == "op" and k.args[0] == "Div" and k.args[2].op == "int" and d.get(k) == w:
                c = k.args[2].args[0]
                ca, da = to_lin(k.args[1])
                m = -w // c
                if c > 0 and m and w == -m * c and all(d.get(x) == m * v for x, v in da.items()) \
                        and nonneg_div(k):
                    for x in da:
                        del d[x]
                    del d[k]
                    lo -= m * ca
                    hi -= m * ca
                    if m > 0:
                        hi += m * (c - 1)
                    else:
                        lo += m * (c - 1)
        for k, v in d.items():
            r = term_range.get(k)
            if r is None:
                return None
            lo += v * (r[0] if v > 0 else r[1])
            hi += v * (r[1] if v > 0 else r[0])
        return lo, hi
    return term_range.get(t)


def nonneg_div(k):
    """the dividend of this quotient is known not to be negative"""
    r = term_range.get(k)
    return r is not None and r[0] >= 0


def shl1(x):
    """2 ** x, which is known to fit its type"""
    if x.op == "int":
        return I(1 << x.args[0])
    t = mk("op", "Shl", I(1), x)
    b = static_bounds(x)
    if b is not None and 0 <= b[0] and b[1] < 128:
        term_range[t] = (1 << b[0], 1 << b[1])
    return t


def udiv(a, c, ty=None):
    """a / c for a >= 0 and a constant c > 0"""
    if c == 1:
        return a
    if c == HALF64 and a.op == "frombytes" and a.args[:2] == ("le_bytes", "u64"):
        return frombytes("le_bytes", "u32", subseq(a.args[2], I(4), I(8)))
    if a.op == "int":
        return I(a.args[0] // c)
    if a.op == "op" and a.args[0] == "Div" and a.args[2].op == "int":
        return udiv(a.args[1], a.args[2].args[0] * c, ty)
    k0, d = to_lin(a)
    if all(v % c == 0 for v in d.values()):
        return from_lin(k0 // c, {k: v // c for k, v in d.items()})
    b = static_bounds(a)
    if b is not None and b[0] >= 0 and b[0] // c == b[1] // c:
        return I(b[0] // c)
    whole = {k: v // c for k, v in d.items() if v % c == 0}
    if whole:
        # floor((c * x + r) / c) = x + floor(r / c)
        rest = from_lin(k0 % c, {k: v for k, v in d.items() if v % c})
        rb = static_bounds(rest)
        if rb is not None and rb[0] >= 0:
            return add(from_lin(k0 // c, whole), udiv(rest, c))
    g = c
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        return udiv(from_lin(k0 // g, {k: v // g for k, v in d.items()}), c // g, ty)
    t = mk("op", "Div", a, I(c))
    if b is not None and b[0] >= 0:
        term_range.setdefault(t, (b[0] // c, b[1] // c))
    elif ty in INT_RANGE:
        term_range.setdefault(t, (0, INT_RANGE[ty][1] // c))
    return t


HALF64 = 1 << 32


def frombytes(kind, ty, v):
    """the unsigned/signed integer of fixed width spelled by the bytes v"""
    if v.op == kind and v.args[1] * 8 == INT_BITS.get(ty) and ty[0] == "u":
        return v.args[0]
    if ty == "u32" and v.op == "sub" and v.args[0].op == kind and v.args[0].args[1] == 8:
        lo, hi = v.args[1], v.args[2]
        n = v.args[0].args[0]
        if (lo, hi) == ((I(0), I(4)) if kind == "le_bytes" else (I(4), I(8))):
            return umod(n, HALF64, "u64")
        if (lo, hi) == ((I(4), I(8)) if kind == "le_bytes" else (I(0), I(4))):
            return udiv(n, HALF64, "u64")
    if v.op == "arr" and kind in ("le_bytes", "be_bytes") and ty[0] == "u" and len(v.args) * 8 == INT_BITS.get(ty) \
            and all(static_bounds(x) is not None for x in v.args):
        out = I(0)
        for i, x in enumerate(v.args if kind == "le_bytes" else reversed(v.args)):
            out = add(out, mulc(x, 1 << 8 * i))
        return out
    r = mk("frombytes", kind, ty, v)
    note_type(r, ty)
    return r


def umod(a, c, ty=None):
    if c == HALF64 and a.op == "frombytes" and a.args[:2] == ("le_bytes", "u64"):
        return frombytes("le_bytes", "u32", subseq(a.args[2], I(0), I(4)))
    return sub(a, mulc(udiv(a, c, ty), c))


def umask(a, m, ty=None):
    """a & m for a >= 0 and a constant mask, as a linear form over quotients"""
    out = I(0)
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out = add(out, sub(mulc(udiv(a, 1 << i, ty), 1 << i), mulc(udiv(a, 1 << j, ty), 1 << j)))
            i = j
        else:
            i += 1
    return out


# comparisons, normalised to ge0 / eq0 over linear forms
def ge0(l):
    if l.op == "int":
        return TRUE if l.args[0] >= 0 else FALSE
    return mk("ge0", l)


def lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


def le(a, b):
    return ge0(sub(b, a))


def int_eq(a, b):
    l = sub(a, b)
    if l.op == "int":
        return TRUE if l.args[0] == 0 else FALSE
    c, d = to_lin(l)
    k = min(d, key=lambda t: t.id)
    if c == 0 and len(d) == 1 and k.op == "len" and k.args[0].op == "join":
        # joined non-empty texts are empty only if there are none
        j = k.args[0].args[0]
        if j.op == "tab" and nonempty_text(j.args[1]):
            return int_eq(j.args[0], I(0))
    if d[k] < 0:
        l = mulc(l, -1)
    return mk("eq0", l)


NONEMPTY_DISPLAY = {"int", "bool", "char", "cards::InfoFlat"}


def nonempty_text(t):
    if t.op == "str":
        return t.args[0] != ""
    if t.op == "cat":
        return any(nonempty_text(x) for x in t.args)
    return t.op == "disp" and t.args[1] in NONEMPTY_DISPLAY


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return ge0(add(mulc(b.args[0], -1), I(-1)))
    return mk("not", b)


def is_intlike(t):
    if t.op in ("int", "lin"):
        return True
    if t.op in ("len",):
        return True
    if t in term_range:
        return True
    return False


def is_const(t):
    if t.op in ("int", "str"):
        return True
    if t.op in ("adt",):
        return all(is_const(x) for x in t.args[2:])
    if t.op in ("tup", "arr"):
        return all(is_const(x) for x in t.args)
    return False


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "disp" and x.args[1] == "int" and y.op == "str":
            # the decimal text of a number
            n = y.args[0]
            if n.isdigit() and str(int(n)) == n:
                return int_eq(x.args[0], I(int(n)))
    if a.op == "bytes_of" and b.op == "bytes_of":
        return eq(a.args[0], b.args[0])
    if is_intlike(a) or is_intlike(b):
        return int_eq(a, b)
    if is_const(a) and is_const(b) and a.op == b.op and a.op == "str":
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and y.op == "adt":
            if x.args[0] == y.args[0]:
                if x.args[1] != y.args[1]:
                    return FALSE
                fs = list(zip(x.args[2:], y.args[2:]))
                parts = [eq(p, q) for p, q in fs]
                if any(p is FALSE for p in parts):
                    return FALSE
                parts = [p for p in parts if p is not TRUE]
                if not parts:
                    return TRUE
                if len(parts) == 1:
                    return parts[0]
                break
        if x.op == "adt" and len(x.args) == 2 and y.op != "adt":
            return mk("isvar", y, x.args[0], x.args[1])
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


# ---- projections -------------------------------------------------------------
def project(t, path, variant, i, nfields):
    """field i of t seen as (path, variant)"""
    if t.op == "adt":
        if i < len(t.args) - 2:
            return t.args[2 + i]
        return mk("bad", "project", t, i)
    if t.op in ("tup", "arr"):
        if i < len(t.args):
            return t.args[i]
        return mk("bad", "project", t, i)
    if t.op == "clo":
        return t.args[1 + i]
    if t.op == "upd":
        base, key, val = t.args
        if key == i:
            return val
        return project(base, path, variant, i, nfields)
    if t.op == "mref" or t is EXT:
        return t
    if t is UNDEF:
        return UNDEF
    return mk("fld", t, (path, variant), i, nfields)


KNOWN_LEN = {}       # lengths of accumulators whose loop is counted by them
RESULT_LEN = {}      # lengths of what successful calls return


def length(t):
    if t.op == "arr":
        return I(len(t.args))
    if t.op == "str":
        return I(len(t.args[0].encode()))
    if t.op == "push":
        return add(length(t.args[0]), I(1))
    if t.op == "concat":
        return add(length(t.args[0]), length(t.args[1]))
    if t.op == "sub":
        return sub(t.args[2], t.args[1])
    if t.op == "tab":
        return t.args[0]
    if t.op == "repeat" and isinstance(t.args[1], Term):
        return t.args[1]
    if t in KNOWN_LEN:
        return KNOWN_LEN[t]
    if t.op in ("rev_seq", "bytes_of"):
        return length(t.args[0])
    if t.op == "le_bytes" or t.op == "be_bytes":
        return I(t.args[1])
    if t.op == "fld" and t.args[0].op == "call":
        n = t.args[0].args[0]
        i = n.find("<")
        h = RESULT_LEN.get(n[:i] if i > 0 else n)
        if h is not None and t.args[1] == (RES, 0):
            return h(t.args[0])
    r = mk("len", t)
    term_range.setdefault(r, (0, INT_RANGE["isize"][1]))
    return r


def elem(t, i):
    if t.op == "arr" and i.op == "int" and 0 <= i.args[0] < len(t.args):
        return t.args[i.args[0]]
    if t.op == "repeat":
        return t.args[0]
    if t.op == "sub":
        return elem(t.args[0], add(t.args[1], i))
    if t.op == "tab":
        return subst(t.args[1], {BOUND: i})
    if t.op == "push":
        if length(t.args[0]) is i:
            return t.args[1]
    if t.op in ("chunks_exact", "windows") and t.args[1].op == "int":
        at = mulc(i, t.args[1].args[0]) if t.op == "chunks_exact" else i
        return subseq(t.args[0], at, add(at, t.args[1]))
    return mk("elem", t, i)


BOUND = mk("bound")
term_range[BOUND] = (0, 2**63 - 1)


def subseq(t, a, b):
    if a.op == "int" and a.args[0] == 0 and b is length(t):
        return t
    if t.op == "sub":
        return subseq(t.args[0], add(t.args[1], a), add(t.args[1], b))
    if a is b and t.op != "str":
        return arr()
    if t.op == "arr" and a.op == "int" and b.op == "int":
        return arr(*t.args[a.args[0]:b.args[0]])
    return mk("sub", t, a, b)


# ---- generic traversal -------------------------------------------------------
def children(t):
    if t.op == "lin":
        for k, _ in t.args[1]:
            yield k
        return
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    yield x


def subterms(t, seen=None):
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


_MREFS = {}
_NOREF = frozenset()


def mref_cells(t):
    """cells some mutable reference inside t points to"""
    r = _MREFS.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _MREFS:
            stack.pop()
            continue
        todo = [c for c in children(x) if c not in _MREFS]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        r = _NOREF
        for c in children(x):
            m = _MREFS[c]
            if m:
                r = r | m
        if x.op == "mref":
            r = r | frozenset((x.args[0],))
        _MREFS[x] = r
    return _MREFS[t]


def contains(t, sub_):
    return any(x is sub_ for x in subterms(t))


def rebuild(t, f):
    """rebuild t with f applied to child terms, renormalising"""
    op = t.op
    if op == "lin":
        c = I(t.args[0])
        for k, v in t.args[1]:
            c = add(c, mulc(f(k), v))
        return c
    a = tuple(
        f(x) if isinstance(x, Term) else
        (tuple(f(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x)
        for x in t.args)
    if op == "ge0":
        return ge0(a[0])
    if op == "eq0":
        return int_eq(a[0], I(0))
    if op == "eq":
        return eq(*a)
    if op == "not":
        return neg(a[0])
    if op == "fld":
        return project(a[0], a[1][0], a[1][1], a[2], a[3])
    if op == "len":
        return length(a[0])
    if op == "elem":
        return elem(a[0], a[1])
    if op == "sub":
        return subseq(a[0], a[1], a[2])
    if op == "adt":
        return adt(a[0], a[1], a[2:])
    r = mk(op, *a)
    if r is not t:
        if t in term_range:
            term_range.setdefault(r, term_range[t])
        if t in term_type:
            term_type.setdefault(r, term_type[t])
    return r


def subst(t, m, memo=None):
    if memo is None:
        memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if not any(True for _ in children(x)):
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# ---- printing ------------------------------------------------------------------
ADTS = {}


def short(p):
    return p.split("::")[-1] if isinstance(p, str) else str(p)


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "str":
        return '"%s"' % a[0]
    if op == "in":
        return "$%s" % (a[0],)
    if op == "tup":
        return "(" + ", ".join(map(s, a)) + ")"
    if op == "arr":
        return "[" + ", ".join(map(s, a)) + "]"
    if op == "adt":
        info = ADTS.get(a[0])
        n = short(a[0])
        if info:
            v = info["v"][a[1]]
            if info["kind"] == "enum":
                n += "::" + v["n"]
            fn = [f[0] for f in v["f"]]
        else:
            n += "#%s" % a[1]
            fn = []
        if len(a) == 2:
            return n
        return n + "{" + ", ".join(
            (fn[i] + ":" if i < len(fn) and not fn[i].isdigit() else "") + s(x)
            for i, x in enumerate(a[2:])) + "}"
    if op == "fld":
        info = ADTS.get(a[1][0])
        if info:
            v = info["v"][a[1][1] or 0]
            f = v["f"][a[2]][0] if a[2] < len(v["f"]) else a[2]
            if info["kind"] == "enum":
                return "%s.%s.%s" % (s(a[0]), v["n"], f)
            return "%s.%s" % (s(a[0]), f)
        return "%s.%s" % (s(a[0]), a[2])
    if op == "lin":
        p = []
        for k, v in a[1]:
            p.append(("" if v == 1 else "-" if v == -1 else "%d*" % v) + s(k))
        if a[0]:
            p.append(str(a[0]))
        return "(" + "+".join(p) + ")"
    if op == "call":
        return "%s(%s)" % (short_call(a[0]), ", ".join(map(s, a[1:])))
    if op == "out":
        return "out%s<%s>" % (a[0], s(a[1]))
    if op == "mu":
        return "μ%s.%s" % (a[0], a[1])
    if op == "fn":
        return "fn:" + short_call(a[0])
    if op == "clo":
        return "closure"
    return "%s(%s)" % (op, ", ".join(map(s, a)))


def short_call(n):
    import re
    n = re.sub(r"([A-Za-z0-9_]+::)+", "", n)
    return n

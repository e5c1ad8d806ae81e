"""Models of the library operations the analysed crate uses."""
from .terms import *
from .interp import Outcome, Unsupported, strip_generics, norm_path, unspent

TABLE = {}


def b(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def ret(st, v):
    return [Outcome("ret", v, st)]


def deref(it, st, v):
    while v.op == "mref":
        v = it.read_loc(st, v.args[0], v.args[1])
    return v


def tyof(it, tid):
    return it.p.types[tid]


def panic(why, site, st):
    return Outcome("panic", (why, site, UNIT), st)


# ---- identity-like ------------------------------------------------------------
@b("hint::must_use", "string::String::as_str", "vec::Vec::as_slice", "slice::to_vec",
   "borrow::ToOwned::to_owned", "string::String::into_boxed_str", "slice::into_vec",
   "vec::Vec::into_boxed_slice", "boxed::Box::new", "option::Option::as_deref",
   "result::Result::as_deref", "str::to_owned", "str::to_string",
   "string::String::from_utf8_unchecked_never", "array::as_slice", "str::as_str",
   "mem::ManuallyDrop::new", "hint::black_box", "convert::identity", "vec::Vec::leak",
   "iter::Iterator::by_ref", "slice::as_ref", "iter::Iterator::fuse")
def identity(it, fr, st, c, a, dt, site):
    v = a[0]
    if v.op == "mref" and tyof(it, dt)["k"] != "ref":
        v = deref(it, st, v)
    return ret(st, v)


@b("str::converts::from_utf8", "str::from_utf8")
def str_from_utf8(it, fr, st, c, a, dt, site):
    return it.opaque_call(st, "std::string::String::from_utf8", [deref(it, st, a[0])], dt, site, pure=True)


@b("clone::Clone::clone", "option::Option::cloned", "option::Option::copied")
def clone(it, fr, st, c, a, dt, site):
    # hand-written Clone impls are entered
    if c.get("rlocal") and not c.get("derived"):
        return None
    return ret(st, deref(it, st, a[0]))


@b("ops::Deref::deref", "ops::DerefMut::deref_mut", "convert::AsRef::as_ref", "convert::AsMut::as_mut",
   "borrow::Borrow::borrow", "string::String::as_mut_str", "vec::Vec::as_mut_slice", "boxed::Box::as_mut")
def deref_(it, fr, st, c, a, dt, site):
    if c.get("rlocal"):
        return None
    if norm_path(c["p"]) == "convert::AsRef::as_ref" and tyof(it, c["a"][0])["k"] == "adt" and \
            tyof(it, c["a"][0])["p"] in (OPT, RES):
        return None
    return ret(st, a[0])


@b("str::as_bytes", "string::String::as_bytes", "string::String::into_bytes")
def as_bytes(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    return ret(st, mk("bytes_of", v))


@b("convert::From::from", "convert::Into::into")
def from_(it, fr, st, c, a, dt, site):
    if c.get("rlocal"):
        return None
    name = c["name"]
    tys = [tyof(it, x) for x in c["a"]]
    if len(tys) < 2:
        return None
    to, frm = (tys[0], tys[1]) if name == "from" else (tys[1], tys[0])
    if to["s"] == frm["s"]:
        return ret(st, a[0])
    if to["k"] in ("int", "uint") and frm["k"] == "bool":
        out = []
        for bv, s in it.split_bool(st, a[0]):
            out += ret(s, I(1 if bv else 0))
        return out
    if to["k"] in ("int", "uint") and frm["k"] in ("int", "uint", "bool", "char"):
        return ret(st, a[0])
    f = frm
    while f["k"] == "ref":
        f = tyof(it, f["t"])
    if to["s"] in ("std::string::String", "alloc::string::String") and (f["k"] == "str" or f["s"].endswith("string::String")):
        return ret(st, deref(it, st, a[0]))
    if to["k"] == "adt" and to["p"].endswith("vec::Vec") and f["k"] in ("slice", "array"):
        return ret(st, deref(it, st, a[0]))
    if to["k"] == "adt" and to["p"].endswith("Box"):
        return ret(st, a[0])
    if to["k"] == "adt" and to["p"] == OPT and to["a"] and tyof(it, to["a"][0])["s"] == frm["s"]:
        return ret(st, Some(a[0]))
    if c.get("body") and name == "into":
        return None
    return it.opaque_call(st, "From::from<%s, %s>" % (to["s"], frm["s"]), a, dt, site)


@b("convert::TryFrom::try_from", "convert::TryInto::try_into")
def try_from(it, fr, st, c, a, dt, site):
    if c.get("rlocal"):
        return None
    name = c["name"]
    tys = [tyof(it, x) for x in c["a"]]
    to, frm = (tys[0], tys[1]) if name == "try_from" else (tys[1], tys[0])
    v = deref(it, st, a[0])
    if to["k"] == "ref":
        to = tyof(it, to["t"])
    if to["k"] == "array" and to["n"] is not None:
        cond = int_eq(length(v), I(to["n"]))
        out = []
        for val, s in it.split_bool(st, cond):
            out += ret(s, Ok(v) if val else Err(mk("konst", "TryFromSliceError")))
        return out
    if to["k"] in ("int", "uint"):
        lo, hi = INT_RANGE[to["s"]]
        out = []
        for val, s in it.split_bool(st, ge0(sub(I(hi), v))):
            if not val:
                out += ret(s, Err(mk("konst", "TryFromIntError")))
                continue
            for v2, s2 in it.split_bool(s, ge0(sub(v, I(lo)))):
                out += ret(s2, Ok(v) if v2 else Err(mk("konst", "TryFromIntError")))
        return out
    if to["k"] == "char" and frm["s"] == "u32":
        x = mk("call", "core::char::methods::from_u32", v)
        out = []
        for var, s in it.split_variant(st, x, OPT):
            out += ret(s, Ok(project(x, OPT, 1, 0, 1)) if var else Err(mk("konst", "CharTryFromError")))
        return out
    return it.opaque_call(st, "TryFrom<%s, %s>" % (to["s"], frm["s"]), [v], dt, site)


@b("default::Default::default")
def default(it, fr, st, c, a, dt, site):
    ty = tyof(it, dt)
    s = ty["s"]
    if ty["k"] == "adt":
        p = ty["p"]
        if p.endswith("vec::Vec"):
            return ret(st, arr())
        if p.endswith("string::String"):
            return ret(st, S(""))
        if p == OPT:
            return ret(st, NONE)
    if ty["k"] in ("int", "uint", "bool"):
        return ret(st, I(0))
    if ty["k"] == "ref" and tyof(it, ty["t"])["k"] == "str":
        return ret(st, S(""))
    return None


@b("string::ToString::to_string")
def to_string(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    v = deref(it, st, a[0])
    return ret(st, disp(v, t))


# ---- comparison ---------------------------------------------------------------
@b("cmp::PartialEq::eq", "cmp::PartialEq::ne")
def part_eq(it, fr, st, c, a, dt, site):
    if c.get("rlocal") and not c.get("derived"):
        return None
    x, y = deref(it, st, a[0]), deref(it, st, a[1])
    t = tyof(it, c["a"][0])
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    for p, q in ((x, y), (y, x)):
        # a sequence against a list of known length: length, then one element at a time
        if p.op == "arr" and q.op not in ("arr", "bytes") and len(p.args) <= 4 and \
                not all(is_intlike(e) for e in p.args):
            out = []
            live = [st]
            for k in range(-1, len(p.args)):
                now, live = live, []
                for s in now:
                    test = int_eq(length(q), I(len(p.args))) if k < 0 else eq(elem(q, I(k)), p.args[k])
                    for bv, s2 in it.split_bool(s, test):
                        if bv:
                            live.append(s2)
                        else:
                            out += ret(s2, TRUE if c["name"] == "ne" else FALSE)
            for s in live:
                out += ret(s, FALSE if c["name"] == "ne" else TRUE)
            return out
    if t.get("p") == OPT:
        out = []
        for vx, s in it.split_variant(st, x, OPT):
            for vy, s2 in it.split_variant(s, y, OPT):
                if vx and vy:
                    r = eq(project(x, OPT, 1, 0, 1), project(y, OPT, 1, 0, 1))
                else:
                    r = TRUE if vx == vy else FALSE
                out += ret(s2, neg(r) if c["name"] == "ne" else r)
        return out
    r = it.bool_eq(x, y) if t["k"] == "bool" else eq(x, y)
    if r.op in ("eq",) and not is_const(x) and not is_const(y):
        r = refine_eq(it, st, r, x, y)
    return ret(st, neg(r) if c["name"] == "ne" else r)


def refine_eq(it, st, r, x, y):
    # x known to be a fieldless variant
    for p, q in ((x, y), (y, x)):
        v = st.facts.variants.get(p)
        if v is not None:
            return r
    return r


@b("cmp::PartialOrd::lt")
def po_lt(it, fr, st, c, a, dt, site):
    return cmpop(it, fr, st, c, a, lambda x, y: lt(x, y))


@b("cmp::PartialOrd::le")
def po_le(it, fr, st, c, a, dt, site):
    return cmpop(it, fr, st, c, a, lambda x, y: le(x, y))


@b("cmp::PartialOrd::gt")
def po_gt(it, fr, st, c, a, dt, site):
    return cmpop(it, fr, st, c, a, lambda x, y: lt(y, x))


@b("cmp::PartialOrd::ge")
def po_ge(it, fr, st, c, a, dt, site):
    return cmpop(it, fr, st, c, a, lambda x, y: le(y, x))


def int_ty(it, tid):
    t = tyof(it, tid)
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    return t["s"] if t["s"] in INT_RANGE else None


def cmpop(it, fr, st, c, a, f):
    x, y = deref(it, st, a[0]), deref(it, st, a[1])
    if int_ty(it, c["a"][0]):
        return ret(st, f(x, y))
    return None


@b("cmp::Ord::cmp", "cmp::PartialOrd::partial_cmp")
def cmp_(it, fr, st, c, a, dt, site):
    x, y = deref(it, st, a[0]), deref(it, st, a[1])
    if not int_ty(it, c["a"][0]):
        return None
    out = []
    for v, cond in ((0, lt(x, y)), (1, int_eq(x, y)), (2, lt(y, x))):
        if st.facts.eval(cond) is False:
            continue
        s = st.fork()
        if s.facts.assume(cond, True):
            r = mk("adt", ORD, v)
            out += ret(s, Some(r) if c["name"] == "partial_cmp" else r)
    return out


@b("cmp::Ord::max", "cmp::max", "cmp::Ord::min", "cmp::min")
def maxmin(it, fr, st, c, a, dt, site):
    if not int_ty(it, c["a"][0]):
        return None
    x, y = a
    out = []
    big = c["name"] == "max"
    for val, s in it.split_bool(st, le(x, y)):
        out += ret(s, (y if val else x) if big else (x if val else y))
    return out


@b("cmp::Ord::clamp")
def clamp(it, fr, st, c, a, dt, site):
    if not int_ty(it, c["a"][0]):
        return None
    x, lo, hi = a
    out = []
    for fine, s0 in it.split_bool(st, le(lo, hi)):
        if not fine:
            out.append(panic("clamp bounds", site, s0))
            continue
        for val, s in it.split_bool(s0, lt(x, lo)):
            if val:
                out += ret(s, lo)
            else:
                for v2, s2 in it.split_bool(s, lt(hi, x)):
                    out += ret(s2, hi if v2 else x)
    return out


# ---- mem -----------------------------------------------------------------------
@b("mem::size_of")
def size_of(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    if t["sz"] is not None:
        return ret(st, I(t["sz"]))
    v = mk("sizeof", t["s"])
    note_type(v, "usize")
    return ret(st, v)


@b("mem::take")
def take(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    ty = tyof(it, dt)
    d = default(it, fr, st, c, [], dt, site)
    if d is None or a[0].op != "mref":
        return None
    it.write_loc(st, a[0].args[0], a[0].args[1], d[0].value)
    return ret(st, v)


@b("mem::replace")
def replace(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    v = deref(it, st, a[0])
    it.write_loc(st, a[0].args[0], a[0].args[1], a[1])
    return ret(st, v)


@b("mem::swap")
def swap(it, fr, st, c, a, dt, site):
    if a[0].op != "mref" or a[1].op != "mref":
        return None
    x, y = deref(it, st, a[0]), deref(it, st, a[1])
    it.write_loc(st, a[0].args[0], a[0].args[1], y)
    it.write_loc(st, a[1].args[0], a[1].args[1], x)
    return ret(st, UNIT)


@b("mem::drop", "mem::forget")
def drop_(it, fr, st, c, a, dt, site):
    return ret(st, UNIT)


@b("option::Option::take")
def opt_take(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    v = deref(it, st, a[0])
    it.write_loc(st, a[0].args[0], a[0].args[1], NONE)
    return ret(st, v)


@b("option::Option::replace", "option::Option::insert")
def opt_replace(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    v = deref(it, st, a[0])
    it.write_loc(st, a[0].args[0], a[0].args[1], Some(a[1]))
    if c["name"] == "insert":
        cell, path = a[0].args
        return ret(st, mk("mref", cell, path + (("f", OPT, 1, 0, 1),)))
    return ret(st, v)


@b("option::Option::as_ref")
def opt_as_ref(it, fr, st, c, a, dt, site):
    return ret(st, deref(it, st, a[0]))


@b("result::Result::as_ref")
def res_as_ref(it, fr, st, c, a, dt, site):
    return ret(st, deref(it, st, a[0]))


@b("option::Option::as_mut")
def opt_as_mut(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    v = deref(it, st, a[0])
    out = []
    cell, path = a[0].args
    for var, s in it.split_variant(st, v, OPT):
        out += ret(s, NONE if var == 0 else Some(mk("mref", cell, path + (("f", OPT, 1, 0, 1),))))
    return out


# ---- boxes from vec![] -----------------------------------------------------------
@b("boxed::Box::new_uninit")
def new_uninit(it, fr, st, c, a, dt, site):
    cell = it.new_cell()
    it.boxes.add(cell)
    st.cells[cell] = UNDEF
    return ret(st, mk("mref", cell, ()))


@b("boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(it, fr, st, c, a, dt, site):
    return ret(st, deref(it, st, a[0]))


# ---- integers -----------------------------------------------------------------------
INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


def self_int(c):
    # core::num::<impl u32>::checked_add
    import re
    m = re.search(r"<impl (\w+)>", c["p"])
    return m.group(1) if m else None


def checked(opname, f):
    def g(it, fr, st, c, a, dt, site):
        ty = self_int(c)
        v = f(a[0], a[1])
        lo, hi = INT_RANGE[ty]
        out = []
        for val, s in it.split_bool(st, ge0(sub(I(hi), v))):
            if not val:
                out += ret(s, NONE)
                continue
            for v2, s2 in it.split_bool(s, ge0(sub(v, I(lo)))):
                out += ret(s2, Some(v) if v2 else NONE)
        return out
    return g


def saturating(f):
    def g(it, fr, st, c, a, dt, site):
        ty = self_int(c)
        v = f(a[0], a[1])
        lo, hi = INT_RANGE[ty]
        out = []
        for val, s in it.split_bool(st, ge0(sub(I(hi), v))):
            if not val:
                out += ret(s, I(hi))
                continue
            for v2, s2 in it.split_bool(s, ge0(sub(v, I(lo)))):
                out += ret(s2, v if v2 else I(lo))
        return out
    return g


def overflowing(f):
    def g(it, fr, st, c, a, dt, site):
        ty = self_int(c)
        v = f(a[0], a[1])
        lo, hi = INT_RANGE[ty]
        out = []
        w = mk("op", "wrap_" + ty, v)
        note_type(w, ty)
        for val, s in it.split_bool(st, ge0(sub(I(hi), v))):
            if not val:
                out += ret(s, tup(w, TRUE))
                continue
            for v2, s2 in it.split_bool(s, ge0(sub(v, I(lo)))):
                out += ret(s2, tup(v, FALSE) if v2 else tup(w, TRUE))
        return out
    return g


def wrapping(f):
    def g(it, fr, st, c, a, dt, site):
        ty = self_int(c)
        v = f(a[0], a[1])
        lo, hi = INT_RANGE[ty]
        if st.facts.entails(sub(I(hi), v)) and st.facts.entails(sub(v, I(lo))):
            return ret(st, v)
        w = mk("op", "wrap_" + ty, v)
        note_type(w, ty)
        return ret(st, w)
    return g


for _n, _f in (("add", add), ("sub", sub), ("mul", mul)):
    TABLE["num::checked_" + _n] = checked(_n, _f)
    TABLE["num::saturating_" + _n] = saturating(_f)
    TABLE["num::wrapping_" + _n] = wrapping(_f)
    TABLE["num::overflowing_" + _n] = overflowing(_f)


@b("num::checked_div", "num::checked_rem")
def checked_div(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    out = []
    for val, s in it.split_bool(st, int_eq(a[1], I(0))):
        out += ret(s, NONE if val else Some(it.arith("Div" if c["name"] == "checked_div" else "Rem", a[0], a[1], ty)))
    return out


@b("num::div_ceil")
def div_ceil(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    if a[1].op != "int" or a[1].args[0] <= 0:
        return None
    q, r = it.arith("Div", a[0], a[1], ty), it.arith("Rem", a[0], a[1], ty)
    out = []
    for val, s in it.split_bool(st, int_eq(r, I(0))):
        out += ret(s, q if val else add(q, I(1)))
    return out


def unsigned(ty):
    return INT_RANGE[ty][0] == 0


@b("num::is_multiple_of")
def is_multiple_of(it, fr, st, c, a, dt, site):
    if a[1].op != "int":
        return None
    if a[1].args[0] == 0:
        return ret(st, int_eq(a[0], I(0)))
    return ret(st, int_eq(it.arith("Rem", a[0], a[1], self_int(c)), I(0)))


@b("num::div_euclid", "num::rem_euclid", "num::div_floor")
def euclid(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    if not unsigned(ty) or a[1].op != "int" or a[1].args[0] <= 0:
        return None
    return ret(st, it.arith("Rem" if c["name"] == "rem_euclid" else "Div", a[0], a[1], ty))


@b("num::next_multiple_of", "num::checked_next_multiple_of")
def next_multiple(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    if not unsigned(ty) or a[1].op != "int" or a[1].args[0] <= 0:
        return None
    r = it.arith("Rem", a[0], a[1], ty)
    out = []
    for val, s in it.split_bool(st, int_eq(r, I(0))):
        if val:
            out += ret(s, a[0] if c["name"] == "next_multiple_of" else Some(a[0]))
            continue
        v = add(a[0], sub(a[1], r))
        if c["name"] == "next_multiple_of":
            out += checked_value(it, s, v, ty, "overflow in next_multiple_of", site)
            continue
        for big, s2 in it.split_bool(s, mk("ovf", ty, v)):
            out += ret(s2, NONE if big else Some(v))
    return out


@b("num::abs_diff")
def abs_diff(it, fr, st, c, a, dt, site):
    out = []
    for val, s in it.split_bool(st, le(a[0], a[1])):
        out += ret(s, sub(a[1], a[0]) if val else sub(a[0], a[1]))
    return out


@b("num::from_le_bytes", "num::from_be_bytes")
def from_bytes(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    kind = c["name"][5:]
    v = deref(it, st, a[0])
    n = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16}.get(ty[1:], 8)
    return ret(st, frombytes(kind, ty, v))


@b("num::to_le_bytes", "num::to_be_bytes")
def to_bytes(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    n = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16}.get(ty[1:], 8)
    return ret(st, mk(c["name"][3:], a[0], n))


@b("num::is_power_of_two", "num::trailing_zeros", "num::leading_zeros", "num::count_ones", "num::pow")
def num_opaque(it, fr, st, c, a, dt, site):
    ty = self_int(c)
    if all(x.op == "int" for x in a):
        v = a[0].args[0]
        n = c["name"]
        w = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(ty[1:], 64)
        if n == "trailing_zeros" and v > 0:
            return ret(st, I((v & -v).bit_length() - 1))
        if n == "pow" and a[0].args[0] ** a[1].args[0] <= INT_RANGE[ty][1]:
            return ret(st, I(a[0].args[0] ** a[1].args[0]))
        if n == "is_power_of_two":
            return ret(st, I(1 if v > 0 and v & (v - 1) == 0 else 0))
    if c["name"] == "pow" and a[0] is I(2):
        sb = static_bounds(a[1])
        if sb is not None and sb[0] >= 0 and sb[1] < 128 and (1 << sb[1]) <= INT_RANGE[ty][1]:
            return ret(st, shl1(a[1]))
    r = mk("op", c["name"], *a)
    if c["name"] == "pow":
        return checked_value(it, st, r, ty, "overflow in pow", site)
    note_type(r, tyof(it, dt)["s"])
    if c["name"] in ("trailing_zeros", "leading_zeros", "count_ones"):
        w = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(ty[1:], 64)
        term_range[r] = (0, w)
    return ret(st, r)


def checked_value(it, st, r, ty, why, site):
    """the value r of type ty where the operation panics when it does not fit"""
    out = []
    for val, s in it.split_bool(st, mk("ovf", ty, r)):
        if val:
            out.append(panic(why, site, s))
        else:
            note_type(r, ty)
            out += ret(s, r)
    return out


AHEAD = "memory reserved ahead: "
AMPLE = 1 << 16


def held(st, n, ample=AMPLE):
    """is the amount n known to be small, or no larger than something already in memory?"""
    if n.op == "int":
        return n.args[0] <= ample
    f = st.facts
    if f.entails(sub(I(ample), n)):
        return True
    c, d = to_lin(n)
    if c <= AMPLE and all(k.op == "len" and 0 < v <= 4 or v < 0 for k, v in d.items()):
        return True
    seen, near = set(d), []
    for l in f.ineqs:
        ks = to_lin(l)[1]
        if any(k in d for k in ks):
            near += [k for k in ks if k not in seen]
            seen.update(ks)
    for k in list(d) + near:
        if (k.op == "len" or k.op == "call" and "::total_len" in k.args[0]) and f.entails(sub(add(k, I(AMPLE)), n)):
            return True
    subs = set()
    for v in st.cells.values():
        for x in subterms(v, subs):
            if x.op in ("tab", "concat", "push", "sub") and f.entails(sub(add(length(x), I(AMPLE)), n)):
                return True
    return False


def reserves(it, st, n, site, what, ample=AMPLE):
    """a request for n elements (n None: an amount nothing is known of)"""
    it.requests.add(site)
    if n is not None and held(st, n, ample):
        return []
    return [Outcome("panic", (AHEAD + what, site, UNIT), st.fork())]


def announced(v):
    """the lower bound of an iterator's size hint, as amounts all of which a collection asks for"""
    if v.op == "adt":
        if v.args[0].endswith("Range"):
            return [sub(v.args[3], v.args[2])]
        if v.args[0].endswith("RangeInclusive"):
            return [add(sub(v.args[3], v.args[2]), I(1))]
        return []
    if v.op in ("it_map", "it_inspect", "it_enum", "it_rev"):
        return announced(v.args[0])
    if v.op == "it_chain":
        return announced(v.args[0]) + announced(v.args[1])
    if v.op == "it_take":
        return [v.args[1]] if v.args[0].op in ("it_repeat_with", "it_cycle", "it_repeat") else announced(v.args[0])
    if v.op == "it_seq" and v.args[0].op == "repeat":
        return [sub(v.args[2], v.args[1])]
    return []                     # a list held already, or no announcement


def collecting(it, st, v, site):
    return [o for n in announced(v) for o in reserves(it, st, n, site, "a collection as long as a range")]


def room(it, st, n, each, site, ample=AMPLE):
    """states in which n elements of the given size fit into one allocation; panics otherwise"""
    out, pan = [], reserves(it, st, n, site, "an amount that no data bounds", ample)
    lim = INT_RANGE["isize"][1]
    c, d = to_lin(n)
    if d and c <= 64 and all(k.op == "len" and 0 < v <= 4 or v < 0 for k, v in d.items()):
        return [st], pan          # as many as some list in memory has (assumed far from the limit)
    for val, s in it.split_bool(st, ge0(sub(I(lim), mulc(n, max(1, each))))):
        if val:
            out.append(s)
        else:
            pan.append(panic("capacity overflow", site, s))
    return out, pan


# ---- vectors, slices, strings -----------------------------------------------------------
@b("vec::Vec::new", "vec::Vec::with_capacity")
def vec_new(it, fr, st, c, a, dt, site):
    if c["name"] == "with_capacity":
        e = tyof(it, c["a"][0])["sz"] if c["a"] else None
        ss, pan = room(it, st, a[0], 256 if e is None else e, site)
        return [o for s in ss for o in ret(s, arr())] + pan
    return ret(st, arr())


@b("string::String::new", "string::String::with_capacity")
def string_new(it, fr, st, c, a, dt, site):
    if c["name"] == "with_capacity":
        ss, pan = room(it, st, a[0], 1, site)
        return [o for s in ss for o in ret(s, S(""))] + pan
    return ret(st, S(""))


@b("vec::Vec::reserve", "vec::Vec::reserve_exact", "string::String::reserve", "vec::Vec::shrink_to_fit",
   "string::String::shrink_to_fit")
def reserve(it, fr, st, c, a, dt, site):
    if len(a) > 1:
        e = tyof(it, c["a"][0])["sz"] if c["a"] else 1
        v = deref(it, st, a[0])
        ss, pan = room(it, st, add(length(v), a[1]), 256 if e is None else e, site)
        return [o for s in ss for o in ret(s, UNIT)] + pan
    return ret(st, UNIT)


@b("vec::Vec::push")
def vec_push(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    it.write_loc(st, cell, path, push(v, a[1]))
    return ret(st, UNIT)


def push(v, x):
    if v.op == "arr":
        return arr(*(v.args + (x,)))
    return mk("push", v, x)


@b("vec::Vec::clear", "string::String::clear")
def vec_clear(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    it.write_loc(st, cell, path, arr() if "vec" in norm_path(c["p"]) else S(""))
    return ret(st, UNIT)


def concat(x, y):
    if y.op == "arr" and not y.args:
        return x
    if x.op == "arr" and not x.args:
        return y
    if y.op == "arr":
        for e in y.args:
            x = push(x, e)
        return x
    if y.op == "push":
        return push(concat(x, y.args[0]), y.args[1])
    if y.op == "concat":
        return concat(concat(x, y.args[0]), y.args[1])
    return mk("concat", x, y)


@b("vec::Vec::extend_from_slice", "vec::Vec::append")
def extend_from_slice(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    y = deref(it, st, a[1])
    it.write_loc(st, cell, path, concat(v, y))
    if c["name"] == "append" and a[1].op == "mref":
        it.write_loc(st, a[1].args[0], a[1].args[1], arr())
    return ret(st, UNIT)


@b("vec::Vec::insert")
def vec_insert(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v, i, x = it.read_loc(st, cell, path), a[1], a[2]
    n = length(v)
    out = []
    for val, s in it.split_bool(st, le(i, n)):
        if not val:
            out.append(panic("insertion index out of bounds", site, s))
            continue
        for last, s2 in it.split_bool(s, int_eq(i, n)):
            it.write_loc(s2, cell, path, push(v, x) if last else
                         concat(push(subseq(v, I(0), i), x), subseq(v, i, n)))
            out += ret(s2, UNIT)
    return out


@b("vec::Vec::remove", "vec::Vec::swap_remove")
def vec_remove(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v, i = it.read_loc(st, cell, path), a[1]
    n = length(v)
    out = []
    for val, s in it.split_bool(st, lt(i, n)):
        if not val:
            out.append(panic("removal index out of bounds", site, s))
            continue
        e = elem(v, i)
        note_type(e, tyof(it, dt)["s"])
        m = add(n, I(-1))
        for last, s2 in it.split_bool(s, int_eq(i, m)):
            if last:
                rest = v.args[0] if v.op == "push" else subseq(v, I(0), m)
            elif c["name"] == "remove":
                rest = concat(subseq(v, I(0), i), subseq(v, add(i, I(1)), n))
            else:
                rest = concat(push(subseq(v, I(0), i), elem(v, m)), subseq(v, add(i, I(1)), m))
            it.write_loc(s2, cell, path, rest)
            out += ret(s2, e)
    return out


@b("vec::Vec::split_off", "vec::Vec::drain", "string::String::split_off")
def vec_split_off(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    n = length(v)
    if c["name"] == "split_off":
        lo, hi = a[1], n
    elif a[1].op == "adt":
        lo, hi = range_bounds(a[1], n)
    else:
        return None
    text = "string" in norm_path(c["p"])
    if text and not boundary(v, lo):
        return None
    cut, join = (strsub, cat) if text else (subseq, concat)
    out = []
    for val, s in it.split_bool(st, ge0(sub(hi, lo))):
        if not val:
            out.append(panic("range out of bounds", site, s))
            continue
        for v2, s2 in it.split_bool(s, ge0(sub(n, hi))):
            if not v2:
                out.append(panic("range out of bounds", site, s2))
                continue
            it.write_loc(s2, cell, path, join(cut(v, I(0), lo), cut(v, hi, n)))
            part = cut(v, lo, hi)
            out += ret(s2, seq_iter(part) if c["name"] == "drain" else part)
    return out


@b("vec::Vec::resize")
def vec_resize(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v, m, x = it.read_loc(st, cell, path), a[1], a[2]
    n = length(v)
    e = tyof(it, c["a"][0])["sz"] if c["a"] else None
    ss, out = room(it, st, m, 256 if e is None else e, site)
    for s in ss:
        for val, s2 in it.split_bool(s, le(m, n)):
            if val:
                it.write_loc(s2, cell, path, subseq(v, I(0), m))
            else:
                k = sub(m, n)
                it.write_loc(s2, cell, path, concat(v, arr(*[x] * k.args[0]) if k.op == "int" and k.args[0] <= 64
                                                    else mk("tab", k, x)))
            out += ret(s2, UNIT)
    return out


@b("slice::starts_with", "slice::ends_with")
def starts_with(it, fr, st, c, a, dt, site):
    v, y = deref(it, st, a[0]), deref(it, st, a[1])
    n, m = length(v), length(y)
    out = []
    for val, s in it.split_bool(st, le(m, n)):
        if not val:
            out += ret(s, FALSE)
        elif c["name"] == "starts_with":
            out += ret(s, eq(subseq(v, I(0), m), y))
        else:
            out += ret(s, eq(subseq(v, sub(n, m), n), y))
    return out


@b("vec::Vec::len", "slice::len", "str::len", "string::String::len", "iter::ExactSizeIterator::len")
def len_(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    if norm_path(c["p"]).startswith("iter::"):
        r = iter_len(v)
        return None if r is None else ret(st, r)
    return ret(st, length(v))


@b("vec::Vec::is_empty", "slice::is_empty", "str::is_empty", "string::String::is_empty")
def is_empty(it, fr, st, c, a, dt, site):
    return ret(st, int_eq(length(deref(it, st, a[0])), I(0)))


PATH_P = "scale_info::Path"


def path_segments(it, st, a):
    v = deref(it, st, a)
    info = ADTS.get(PATH_P)
    if info is None:
        return None
    names = [x[0] for x in info["v"][0]["f"]]
    if "segments" not in names:
        return None
    return project(v, PATH_P, 0, names.index("segments"), len(names))


@b("scale_info::Path::is_empty")
def path_is_empty(it, fr, st, c, a, dt, site):
    v = path_segments(it, st, a[0])
    return None if v is None else ret(st, int_eq(length(v), I(0)))


@b("scale_info::Path::ident")
def path_ident(it, fr, st, c, a, dt, site):
    v = path_segments(it, st, a[0])
    if v is None:
        return None
    out = []
    for val, s in it.split_bool(st, lt(I(0), length(v))):
        out += ret(s, Some(elem(v, sub(length(v), I(1)))) if val else NONE)
    return out


@b("scale_info::Path::namespace")
def path_namespace(it, fr, st, c, a, dt, site):
    v = path_segments(it, st, a[0])
    if v is None:
        return None
    out = []
    for val, s in it.split_bool(st, lt(I(0), length(v))):
        out += ret(s, subseq(v, I(0), sub(length(v), I(1))) if val else arr())
    return out


@b("bitvec::vec::api::split_off", "bitvec::vec::BitVec::split_off", "bitvec::vec::api::truncate",
   "bitvec::vec::BitVec::truncate")
def bit_split(it, fr, st, c, a, dt, site):
    """keep the first n bits (split_off also hands out the rest)"""
    if a[0].op != "mref":
        return None
    v = deref(it, st, a[0])
    n = a[1]
    out = []
    for val, s in it.split_bool(st, le(n, length(v))):
        if not val:
            if c["name"] == "split_off":
                out.append(panic("split_off past the end", site, s))
            else:
                out += ret(s, UNIT)
            continue
        it.write_loc(s, a[0].args[0], a[0].args[1], mk("call", "bits::first", v, n))
        out += ret(s, mk("call", "bits::rest", v, n) if c["name"] == "split_off" else UNIT)
    return out


def known_len(n):
    def f(it, fr, st, c, a, dt, site):
        return ret(st, I(n))
    return f


for _h, _n in (("H128", 16), ("H160", 20), ("H256", 32), ("H512", 64)):
    TABLE["primitive_types::%s::len_bytes" % _h] = known_len(_n)


@b("parity_scale_codec::DecodeAll::decode_all", "parity_scale_codec::Decode::decode")
def decode_fixed(it, fr, st, c, a, dt, site):
    """little-endian fixed-width integers out of exactly as many bytes"""
    ty = int_ty(it, c["a"][0])
    if ty is None or tyof(it, c["a"][0])["k"] not in ("int", "uint") or ty in ("usize", "isize"):
        return None
    v = a[0]
    while v.op == "mref":
        w = it.read_loc(st, v.args[0], v.args[1])
        if c["name"] == "decode" and w.op != "mref":
            return None
        v = w
    n = INT_BITS[ty] // 8
    if st.facts.eval(int_eq(length(v), I(n))) is not True:
        return None
    return ret(st, Ok(frombytes("le_bytes", ty, v)))


@b("slice::split_at", "slice::split_at_checked")
def split_at(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    n = length(v)
    out = []
    for val, s in it.split_bool(st, le(a[1], n)):
        if val:
            r = tup(subseq(v, I(0), a[1]), subseq(v, a[1], n))
            out += ret(s, Some(r) if c["name"] == "split_at_checked" else r)
        elif c["name"] == "split_at_checked":
            out += ret(s, NONE)
        else:
            out.append(panic("split_at out of bounds", site, s))
    return out


@b("slice::first_chunk", "slice::last_chunk", "slice::split_first_chunk", "slice::split_last_chunk",
   "slice::as_array")
def first_chunk(it, fr, st, c, a, dt, site):
    k = next((x["v"] for x in c["a"] if isinstance(x, dict) and "v" in x), None) if c.get("a") else None
    t = tyof(it, dt)
    if t.get("p") != OPT:
        return None
    t = tyof(it, t["a"][0])
    if t["k"] == "tuple":
        t = next((x for x in (tyof(it, y) for y in t["a"]) if x["k"] == "ref" and tyof(it, x["t"])["k"] == "array"), t)
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    if t["k"] != "array" or not isinstance(t.get("n"), int):
        return None
    k = I(t["n"])
    v = deref(it, st, a[0])
    n = length(v)
    out = []
    for val, s in it.split_bool(st, int_eq(n, k) if c["name"] == "as_array" else le(k, n)):
        if not val:
            out += ret(s, NONE)
            continue
        if c["name"] in ("first_chunk", "as_array"):
            r = subseq(v, I(0), k)
        elif c["name"] == "last_chunk":
            r = subseq(v, sub(n, k), n)
        elif c["name"] == "split_first_chunk":
            r = tup(subseq(v, I(0), k), subseq(v, k, n))
        else:
            r = tup(subseq(v, I(0), sub(n, k)), subseq(v, sub(n, k), n))
        out += ret(s, Some(r))
    return out


@b("slice::copy_from_slice", "slice::clone_from_slice")
def copy_from_slice(it, fr, st, c, a, dt, site):
    if a[0].op != "mref":
        return None
    cell, path = a[0].args
    src = deref(it, st, a[1])
    n = length(it.read_loc(st, cell, path))
    out = []
    for val, s in it.split_bool(st, int_eq(n, length(src))):
        if val:
            it.write_loc(s, cell, path, src)
            out += ret(s, UNIT)
        else:
            out.append(panic("slices of different lengths", site, s))
    return out


@b("vec::Vec::pop")
def vec_pop(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    n = length(v)
    out = []
    for val, s in it.split_bool(st, lt(I(0), n)):
        if not val:
            out += ret(s, NONE)
            continue
        m = add(n, I(-1))
        e = v.args[1] if v.op == "push" else elem(v, m)
        note_elem(it, e, dt)
        it.write_loc(s, cell, path, v.args[0] if v.op == "push" else subseq(v, I(0), m))
        out += ret(s, Some(e))
    return out


@b("vec::Vec::truncate")
def vec_truncate(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    out = []
    if a[1] is I(0):
        it.write_loc(st, cell, path, arr())
        return ret(st, UNIT)
    for val, s in it.split_bool(st, lt(a[1], length(v))):
        if val:
            it.write_loc(s, cell, path, subseq(v, I(0), a[1]))
        out += ret(s, UNIT)
    return out


@b("slice::first", "slice::last", "slice::get", "slice::split_first", "slice::split_last", "vec::Vec::first",
   "vec::Vec::last")
def slice_get(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    n = length(v)
    name = c["name"]
    if name == "get":
        if a[1].op == "adt":
            lo, hi = range_bounds(a[1], n)
            out = []
            cond = mk("and", ge0(sub(hi, lo)), ge0(sub(n, hi)))
            for val, s in it.split_bool(st, ge0(sub(hi, lo))):
                if not val:
                    out += ret(s, NONE)
                    continue
                for v2, s2 in it.split_bool(s, ge0(sub(n, hi))):
                    out += ret(s2, Some(subseq(v, lo, hi)) if v2 else NONE)
            return out
        idx = a[1]
        cond = lt(idx, n)
    else:
        cond = lt(I(0), n)
        idx = I(0) if name not in ("last", "split_last") else add(n, I(-1))
    out = []
    for val, s in it.split_bool(st, cond):
        if val:
            e = elem(v, idx)
            if name == "split_first":
                e = tup(e, subseq(v, I(1), n))
            elif name == "split_last":
                e = tup(e, subseq(v, I(0), idx))
            note_elem(it, e, dt)
            out += ret(s, Some(e))
        else:
            out += ret(s, NONE)
    return out


def note_elem(it, e, dt):
    t = tyof(it, dt)
    if t["k"] == "adt" and t["a"]:
        t = tyof(it, t["a"][0])
        while t["k"] == "ref":
            t = tyof(it, t["t"])
        note_type(e, t["s"])


@b("slice::get_mut", "slice::first_mut", "slice::last_mut")
def slice_get_mut(it, fr, st, c, a, dt, site):
    if a[0].op != "mref" or c["name"] == "get_mut" and a[1].op == "adt":
        return None
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    n = length(v)
    idx = a[1] if c["name"] == "get_mut" else I(0) if c["name"] == "first_mut" else add(n, I(-1))
    out = []
    for val, s in it.split_bool(st, lt(idx, n) if c["name"] == "get_mut" else lt(I(0), n)):
        out += ret(s, Some(mk("mref", cell, path + (("e", idx),))) if val else NONE)
    return out


@b("slice::contains")
def contains_(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    x = deref(it, st, a[1])
    if v.op == "arr":
        out = []
        cur = st
        for e in v.args:
            cond = eq(x, e)
            r = cur.facts.eval(cond)
            if r is True:
                out += ret(cur, TRUE)
                return out
            if r is False:
                continue
            s2 = cur.fork()
            if s2.facts.assume(cond, True):
                out += ret(s2, TRUE)
            if not cur.facts.assume(cond, False):
                return out
        out += ret(cur, FALSE)
        return out
    if v.op == "push":
        out = []
        for val, s in it.split_bool(st, eq(v.args[1], x)):
            out += ret(s, TRUE) if val else contains_(it, fr, s, c, [v.args[0], x], dt, site)
        return out
    return ret(st, mk("contains", v, x))


def range_bounds(r, n):
    p = r.args[0]
    if p.endswith("RangeTo"):
        return I(0), r.args[2]
    if p.endswith("RangeFrom"):
        return r.args[2], n
    if p.endswith("RangeFull"):
        return I(0), n
    if p.endswith("RangeInclusive"):
        return r.args[2], add(r.args[3], I(1))
    if p.endswith("RangeToInclusive"):
        return I(0), add(r.args[2], I(1))
    return r.args[2], r.args[3]


@b("ops::Index::index", "ops::IndexMut::index_mut")
def index(it, fr, st, c, a, dt, site):
    if c.get("rlocal"):
        return None
    v = deref(it, st, a[0])
    t = tyof(it, c["a"][0])
    if t["k"] == "adt" and not (t["p"].endswith("vec::Vec") or t["p"].endswith("string::String")):
        return None
    mut = c["name"] == "index_mut"
    n = length(v)
    i = a[1]
    if i.op == "adt":
        lo, hi = range_bounds(i, n)
        out = []
        for val, s in it.split_bool(st, ge0(sub(hi, lo))):
            if not val:
                out.append(panic("slice index order", site, s))
                continue
            for v2, s2 in it.split_bool(s, ge0(sub(n, hi))):
                if v2:
                    isstr = t["k"] == "str" or (t["k"] == "adt" and t["p"].endswith("String"))
                    if isstr:
                        if not boundary(v, lo) or not boundary(v, hi):
                            out.append(panic("string index inside a character", site, s2.fork()))
                        out += ret(s2, strsub(v, lo, hi))
                    else:
                        out += ret(s2, subseq(v, lo, hi))
                else:
                    out.append(panic("slice index out of range", site, s2))
        return out
    out = []
    for val, s in it.split_bool(st, lt(i, n)):
        if val:
            if mut and a[0].op == "mref":
                out += ret(s, mk("mref", a[0].args[0], a[0].args[1] + (("e", i),)))
            else:
                e = elem(v, i)
                t2 = tyof(it, dt)
                while t2["k"] == "ref":
                    t2 = tyof(it, t2["t"])
                note_type(e, t2["s"])
                out += ret(s, e)
        else:
            out.append(panic("index out of bounds", site, s))
    return out


def ascii_only(v):
    if v.op == "str":
        return all(ord(ch) < 128 for ch in v.args[0])
    if v.op == "cat":
        return all(ascii_only(x) for x in v.args)
    if v.op == "sub":
        return ascii_only(v.args[0])
    if v.op == "strrep":
        return ascii_only(v.args[0])
    if v.op == "disp":
        return v.args[1] == "int"
    return False


def boundary(v, i):
    """is byte index i of string v known to lie between characters?"""
    if i.op == "int" and i.args[0] == 0 or i is length(v) or ascii_only(v):
        return True
    return v.op == "str" and i.op == "int" and \
        len(v.args[0].encode()[:i.args[0]].decode(errors="ignore").encode()) == i.args[0]


def strsub(v, lo, hi):
    if v.op == "str" and lo.op == "int" and hi.op == "int":
        return S(v.args[0][lo.args[0]:hi.args[0]])
    if lo.op == "int" and lo.args[0] == 0 and hi is length(v):
        return v
    if lo is hi:
        return S("")
    return mk("sub", v, lo, hi)


@b("str::get", "string::String::get")
def str_get(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    if a[1].op != "adt":
        return None
    n = length(v)
    lo, hi = range_bounds(a[1], n)
    if not boundary(v, lo) or not boundary(v, hi):
        return None
    out = []
    for val, s in it.split_bool(st, ge0(sub(hi, lo))):
        if not val:
            out += ret(s, NONE)
            continue
        for v2, s2 in it.split_bool(s, ge0(sub(n, hi))):
            out += ret(s2, Some(strsub(v, lo, hi)) if v2 else NONE)
    return out


@b("str::split_at", "str::split_at_checked")
def str_split_at(it, fr, st, c, a, dt, site):
    v, i = deref(it, st, a[0]), a[1]
    n = length(v)
    checked = c["name"] == "split_at_checked"
    if checked and not boundary(v, i):
        return None
    out = []
    for val, s in it.split_bool(st, le(i, n)):
        r = tup(strsub(v, I(0), i), strsub(v, i, n))
        if val:
            if not boundary(v, i):
                out.append(panic("split inside a character", site, s.fork()))
            out += ret(s, Some(r) if checked else r)
        elif checked:
            out += ret(s, NONE)
        else:
            out.append(panic("split_at out of bounds", site, s))
    return out


@b("str::is_char_boundary")
def is_char_boundary(it, fr, st, c, a, dt, site):
    v, i = deref(it, st, a[0]), a[1]
    if not boundary(v, i):
        return None
    return ret(st, le(i, length(v)))


@b("string::String::push_str", "string::String::push")
def push_str(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v = it.read_loc(st, cell, path)
    y = deref(it, st, a[1])
    if c["name"] == "push":
        y = S(chr(y.args[0])) if y.op == "int" else mk("chr", y)
    it.write_loc(st, cell, path, cat(v, y))
    return ret(st, UNIT)


@b("ops::AddAssign::add_assign")
def str_add_assign(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    if t["k"] == "adt" and t["p"].endswith("string::String") and a[0].op == "mref":
        cell, path = a[0].args
        it.write_loc(st, cell, path, cat(it.read_loc(st, cell, path), deref(it, st, a[1])))
        return ret(st, UNIT)
    return None


@b("string::String::insert", "string::String::insert_str")
def str_insert(it, fr, st, c, a, dt, site):
    cell, path = a[0].args
    v, i, y = it.read_loc(st, cell, path), a[1], deref(it, st, a[2])
    if c["name"] == "insert":
        y = S(chr(y.args[0])) if y.op == "int" else mk("chr", y)
    n = length(v)
    out = []
    for val, s in it.split_bool(st, le(i, n)):
        if not val:
            out.append(panic("insertion index out of bounds", site, s))
            continue
        if not boundary(v, i):
            out.append(panic("insertion inside a character", site, s.fork()))
        it.write_loc(s, cell, path, cat(cat(strsub(v, I(0), i), y), strsub(v, i, n)))
        out += ret(s, UNIT)
    return out


def cat(x, y):
    xs = list(x.args) if x.op == "cat" else [x]
    for t in (y.args if y.op == "cat" else (y,)):
        if t.op == "str":
            if t.args[0] == "":
                continue
            if xs and xs[-1].op == "str":
                xs[-1] = S(xs[-1].args[0] + t.args[0])
                continue
        xs.append(t)
    if len(xs) > 1 and xs[0].op == "str" and xs[0].args[0] == "":
        xs = xs[1:]
    return xs[0] if len(xs) == 1 else mk("cat", *xs)


def disp(v, t):
    """text of a value with the default formatting"""
    if t["k"] == "str" or t["s"].endswith("string::String"):
        return v
    if t["k"] in ("uint", "int"):
        if v.op == "int":
            return S(str(v.args[0]))
        d = mk("disp", v, "int")
        lo, hi = INT_RANGE[t["s"]]
        n = length(d)
        old = term_range.get(n)
        term_range[n] = (1, min(max(len(str(lo)), len(str(hi))), old[1] if old else 1 << 30))
        return d
    return mk("disp", v, t["p"] if t["k"] == "adt" else t["s"])


def strrep(s, n):
    if n.op == "int" and s.op == "str" and n.args[0] <= 64:
        return S(s.args[0] * n.args[0])
    if s.op == "str" and len(s.args[0]) > 1 and len(set(s.args[0])) == 1:
        return mk("strrep", S(s.args[0][0]), mulc(n, len(s.args[0])))
    return mk("strrep", s, n)


BYTE_WRAPPERS = {"primitive_types::H160", "primitive_types::H256", "primitive_types::H512"}


def hex_text(it, v, t):
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    if t["k"] == "adt" and t["p"] in BYTE_WRAPPERS:
        v = project(v, t["p"], 0, 0, 1)
    return mk("hex", v)


@b("slice::join")
def slice_join(it, fr, st, c, a, dt, site):
    sep = deref(it, st, a[1])
    if not tyof(it, dt)["s"].endswith("string::String") or sep.op != "str":
        return None
    return ret(st, mk("join", deref(it, st, a[0]), sep))


@b("hex::encode")
def hex_encode(it, fr, st, c, a, dt, site):
    return ret(st, hex_text(it, deref(it, st, a[0]), tyof(it, c["a"][0])))


@b("ops::Add::add")
def str_add(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    if t["k"] == "adt" and t["p"].endswith("string::String"):
        return ret(st, cat(a[0], deref(it, st, a[1])))
    return None


@b("str::repeat", "slice::repeat")
def str_repeat(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    n = length(v)
    if n.op == "int":
        e = tyof(it, c["a"][0])["sz"] if c["name"] == "repeat" and c["a"] else 1
        ss, pan = room(it, st, a[1], n.args[0] * (e or 1), site, 1 << 30)      # indentation
        return [o for s in ss for o in ret(s, strrep(v, a[1]))] + pan
    return ret(st, strrep(v, a[1])) + [panic("capacity overflow", site, st.fork())] + \
        reserves(it, st, a[1], site, "an amount that no data bounds")


@b("vec::from_elem")
def from_elem(it, fr, st, c, a, dt, site):
    e = tyof(it, c["a"][0])["sz"] if c["a"] else None
    ss, pan = room(it, st, a[1], 256 if e is None else e, site)
    n = a[1].args[0] if a[1].op == "int" else 65
    return [o for s in ss for o in ret(s, arr(*[a[0]] * n) if n <= 64 else mk("tab", a[1], a[0]))] + pan


@b("vec::Vec::try_reserve", "vec::Vec::try_reserve_exact", "string::String::try_reserve", "vec::Vec::resize_with", "collections::VecDeque::with_capacity", "collections::VecDeque::reserve",
   "bitvec::vec::BitVec::with_capacity", "bitvec::vec::BitVec::reserve", "bitvec::vec::api::reserve",
   "bitvec::vec::api::resize", "bitvec::vec::BitVec::resize", "bitvec::vec::BitVec::repeat",
   "boxed::Box::new_uninit_slice", "collections::BinaryHeap::with_capacity")
def asks(it, fr, st, c, a, dt, site):
    ask = []
    for i, x in enumerate(a):
        if x.op == "int" or is_intlike(x):
            ask += reserves(it, st, x, site, "an amount that no data bounds")
            break
    return ask + it.opaque_call(st, norm_path(c["p"]), a, dt, site)


# formatting: decode the packed template into literal pieces and arguments
@b("fmt::rt::Argument::new_display", "fmt::rt::Argument::new_debug", "fmt::rt::Argument::new_lower_hex",
   "fmt::rt::Argument::new_upper_hex", "fmt::rt::Argument::new_lower_exp")
def fmt_arg(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    while t["k"] == "ref":
        t = tyof(it, t["t"])
    v = deref(it, st, a[0])
    if c["name"] == "new_display":
        return ret(st, mk("fmtarg", disp(v, t)))
    return ret(st, mk("fmtarg", mk(c["name"], v, t["s"])))


@b("fmt::rt::Argument::from_usize")
def fmt_width(it, fr, st, c, a, dt, site):
    return ret(st, mk("fmtarg", deref(it, st, a[0])))


@b("fmt::Arguments::new")
def fmt_new(it, fr, st, c, a, dt, site):
    tpl = deref(it, st, a[0])
    argv = deref(it, st, a[1]) if len(a) > 1 else arr()
    r = decode_template(tpl, argv, st.facts)
    return ret(st, mk("fmtargs", r if r is not None else mk("fmtraw", tpl, argv)))


@b("fmt::Arguments::from_str", "fmt::Arguments::from_str_nonconst", "fmt::Arguments::new_const")
def fmt_str(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    if v.op == "arr" and len(v.args) == 1:
        v = v.args[0]
    return ret(st, mk("fmtargs", v))


def padding(v, n, raw, argv, facts):
    """what `{:0>width$}` and the like put before a text that is known to be no wider"""
    if set(raw) != {"flags", "width"} or n & 0x30 != 0x10 or v.op not in ("str", "disp", "in", "fld", "sub"):
        return None
    flags = int.from_bytes(bytes(raw["flags"]), "little")
    w = raw["width"][0] | raw["width"][1] << 8
    if flags & ~0x1fffff != 0x28000000 or w >= len(argv.args):
        return None
    if v.op != "str" and not (v.op == "disp" and v.args[1] == "int"):
        return None          # the width counts characters
    w = argv.args[w]
    d = sub(w.args[0] if w.op == "fmtarg" else w, length(v))
    if not facts.entails(d):
        return None
    return strrep(S(chr(flags & 0x1fffff)), d)


def decode_template(tpl, argv, facts):
    """core::fmt packed template: see library/core/src/fmt/mod.rs"""
    if tpl.op != "arr" or argv.op != "arr":
        return None
    bs = [x.args[0] for x in tpl.args if x.op == "int"]
    if len(bs) != len(tpl.args):
        return None
    i = 0
    out = S("")
    nextarg = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out = cat(out, S(bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
            continue
        if n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out = cat(out, S(bytes(bs[i:i + ln]).decode("utf8", "replace")))
            i += ln
            continue
        opts = None
        if n & 0xC0 != 0xC0:
            return None
        raw = []
        if n & 1:
            raw.append(("flags", tuple(bs[i:i + 4])))
            i += 4
        if n & 2:
            raw.append(("width", tuple(bs[i:i + 2])))
            i += 2
        if n & 4:
            raw.append(("prec", tuple(bs[i:i + 2])))
            i += 2
        if n & 8:
            nextarg = bs[i] | bs[i + 1] << 8
            i += 2
        if nextarg >= len(argv.args):
            return None
        v = argv.args[nextarg]
        nextarg += 1
        if v.op == "fmtarg":
            v = v.args[0]
        pad = padding(v, n, dict(raw), argv, facts)
        if pad is not None:
            v = cat(pad, v)
        elif raw:
            v = mk("fmtspec", v, repr(raw) + hex(n))
        out = cat(out, v)
    return out


@b("fmt::format")
def fmt_format(it, fr, st, c, a, dt, site):
    v = a[0]
    if v.op == "fmtargs":
        return ret(st, v.args[0])
    return None


@b("fmt::Formatter::write_str", "fmt::Formatter::write_fmt", "fmt::Write::write_fmt", "fmt::Write::write_str",
   "fmt::Write::write_char", "fmt::Formatter::pad")
def write_fmt(it, fr, st, c, a, dt, site):
    cell = a[0]
    y = a[1]
    if y.op == "fmtargs":
        y = y.args[0]
    else:
        y = deref(it, st, y)
    if c["name"] == "write_char":
        y = S(chr(y.args[0])) if y.op == "int" else mk("chr", y)
    if cell.op == "mref":
        v = it.read_loc(st, cell.args[0], cell.args[1])
        it.write_loc(st, cell.args[0], cell.args[1], cat(v, y))
        t = tyof(it, c["a"][0]) if c["a"] else None
    return ret(st, Ok(UNIT))


# ---- iterators -----------------------------------------------------------------------------
ITER_ADT = ("core::ops::Range", "core::ops::RangeInclusive", "core::ops::RangeFrom")


def is_iter(v):
    return v.op.startswith("it_") or (v.op == "adt" and v.args[0] in ITER_ADT)


def seq_iter(v):
    return mk("it_seq", v, I(0), length(v))


@b("slice::iter", "vec::Vec::iter", "vec::Vec::into_iter", "vec::Vec::drain_never")
def iter_(it, fr, st, c, a, dt, site):
    return ret(st, seq_iter(deref(it, st, a[0])))


@b("iter::IntoIterator::into_iter")
def into_iter(it, fr, st, c, a, dt, site):
    t = tyof(it, c["a"][0])
    v = a[0]
    if t["k"] == "ref" and t["m"]:
        inner = deref(it, st, v)
        if is_iter(inner):
            return ret(st, v)
        return None
    v = deref(it, st, v)
    if is_iter(v):
        return ret(st, v)
    tt = t
    while tt["k"] == "ref":
        tt = tyof(it, tt["t"])
    if tt["k"] in ("slice", "array") or (tt["k"] == "adt" and tt["p"].endswith("vec::Vec")):
        return ret(st, seq_iter(v))
    if tt["k"] == "adt" and tt["p"] == OPT:
        out = []
        for var, s in it.split_variant(st, v, OPT):
            out += ret(s, seq_iter(arr() if var == 0 else arr(project(v, OPT, 1, 0, 1))))
        return out
    return ret(st, mk("it_opaque", v))


@b("str::chars")
def chars(it, fr, st, c, a, dt, site):
    v = mk("chars", deref(it, st, a[0]))
    return ret(st, seq_iter(v))


@b("str::bytes")
def bytes_(it, fr, st, c, a, dt, site):
    return ret(st, seq_iter(mk("bytes_of", deref(it, st, a[0]))))


@b("slice::chunks", "slice::chunks_exact", "slice::windows")
def chunks(it, fr, st, c, a, dt, site):
    out = []
    for val, s in it.split_bool(st, lt(I(0), a[1])):
        out += ret(s, seq_iter(mk(c["name"], deref(it, s, a[0]), a[1]))) if val else \
            [panic("chunk size zero", site, s)]
    return out


def mkiter1(op):
    def g(it, fr, st, c, a, dt, site):
        v = deref(it, st, a[0])
        if not is_iter(v):
            v = mk("it_opaque", v)
        return ret(st, mk(op, v, *a[1:]))
    return g


for _n in ("map", "filter", "filter_map", "take_while", "skip_while", "inspect", "flat_map", "map_while"):
    TABLE["iter::Iterator::" + _n] = mkiter1("it_" + _n)


@b("iter::Iterator::cloned", "iter::Iterator::copied", "iter::Iterator::peekable")
def it_id(it, fr, st, c, a, dt, site):
    if c["name"] == "peekable":
        return ret(st, mk("it_peek", a[0], NONE))
    return ret(st, a[0])


@b("iter::repeat_n", "iter::sources::repeat_n::repeat_n")
def repeat_n(it, fr, st, c, a, dt, site):
    n = a[1]
    if n.op == "int" and n.args[0] <= 64:
        return ret(st, seq_iter(arr(*[a[0]] * n.args[0])))
    return ret(st, seq_iter(mk("repeat", a[0], n)))


@b("iter::Iterator::flatten")
def it_flatten(it, fr, st, c, a, dt, site):
    return ret(st, mk("it_flatten", deref(it, st, a[0])))


@b("iter::Iterator::step_by")
def it_step_by(it, fr, st, c, a, dt, site):
    v = a[0]
    if v.op != "adt" or v.args[0] != "core::ops::Range" or a[1].op != "int" or a[1].args[0] <= 0:
        return None
    return ret(st, mk("it_step", v, a[1]))


@b("array::map", "array::from_fn")
def array_map(it, fr, st, c, a, dt, site):
    name = c["name"]
    if name == "map":
        v = deref(it, st, a[0])
        if v.op != "arr":
            return None
        items, f = v.args, a[1]
    else:
        n = tyof(it, dt).get("n")
        if not isinstance(n, int) or n > 64:
            return None
        items, f = [I(i) for i in range(n)], a[0]
    cur = [(st, (), f)]
    out = []
    for x in items:
        nxt = []
        for s, vals, g in cur:
            for s2, val, g2 in call_stored(it, fr, s, g, [x], site, out):
                nxt.append((s2, vals + (val,), g2))
        cur = nxt
    for s, vals, _ in cur:
        out += ret(s, arr(*vals))
    return out


@b("iter::Iterator::enumerate")
def it_enumerate(it, fr, st, c, a, dt, site):
    return ret(st, mk("it_enum", a[0], I(0)))


@b("iter::Iterator::zip")
def it_zip(it, fr, st, c, a, dt, site):
    y = deref(it, st, a[1])
    if not is_iter(y):
        y = seq_iter(y)
    return ret(st, mk("it_zip", a[0], y))


@b("iter::Iterator::chain")
def it_chain(it, fr, st, c, a, dt, site):
    y = deref(it, st, a[1])
    if not is_iter(y):
        y = seq_iter(y)
    return ret(st, mk("it_chain", a[0], y))


@b("iter::once", "iter::sources::once::once")
def it_once(it, fr, st, c, a, dt, site):
    return ret(st, seq_iter(arr(a[0])))


@b("iter::empty", "iter::sources::empty::empty")
def it_empty(it, fr, st, c, a, dt, site):
    return ret(st, seq_iter(arr()))


@b("iter::repeat_with", "iter::from_fn", "iter::sources::repeat_with::repeat_with", "iter::sources::from_fn::from_fn")
def it_gen(it, fr, st, c, a, dt, site):
    return ret(st, mk("it_repeat_with" if c["name"] == "repeat_with" else "it_from_fn", a[0]))


@b("iter::Iterator::rev")
def it_rev(it, fr, st, c, a, dt, site):
    return ret(st, mk("it_rev", a[0]))


@b("iter::Iterator::skip")
def it_skip(it, fr, st, c, a, dt, site):
    v = a[0]
    if v.op == "it_seq" and v.args[1].op == "int" and v.args[1].args[0] == 0:
        out = []
        for val, s in it.split_bool(st, le(a[1], v.args[2])):
            out += ret(s, mk("it_seq", v.args[0], a[1] if val else v.args[2], v.args[2]))
        return out
    return ret(st, mk("it_skip", v, a[1]))


@b("iter::Iterator::take")
def it_take(it, fr, st, c, a, dt, site):
    v = a[0]
    if v.op == "it_seq" and v.args[1].op == "int" and v.args[1].args[0] == 0:
        out = []
        for val, s in it.split_bool(st, le(a[1], v.args[2])):
            out += ret(s, mk("it_seq", v.args[0], v.args[1], a[1] if val else v.args[2]))
        return out
    return ret(st, mk("it_take", v, a[1]))


def iter_len(v):
    if v.op == "it_seq":
        return sub(v.args[2], v.args[1])
    if v.op == "adt" and v.args[0] == "core::ops::Range":
        return sub(v.args[3], v.args[2])
    if v.op in ("it_enum", "it_map", "it_rev"):
        return iter_len(v.args[0])
    return None


SKIP = mk("skip")


def iter_next(it, fr, st, v, dt, site, fuse=False):
    """-> [(state, opt_item or None, new_iter)]; closures may panic -> Outcome.
    With fuse, a rejected element gives SKIP in place of an item: the caller asks again."""
    op = v.op
    if op == "it_seq":
        s_, i, n = v.args
        out = []
        for val, s in it.split_bool(st, lt(i, n)):
            if val:
                e = elem(s_, i)
                if s.facts.visit(s_, i):
                    out.append((s, e, mk("it_seq", s_, add(i, I(1)), n)))
            else:
                out.append((s, None, v))
        return out
    if op == "adt":
        if v.args[0] == "core::ops::Range":
            i, n = v.args[2], v.args[3]
            out = []
            for val, s in it.split_bool(st, lt(i, n)):
                if val:
                    out.append((s, i, mk("adt", v.args[0], v.args[1], add(i, I(1)), n)))
                else:
                    out.append((s, None, v))
            return out
        if v.args[0] == "core::ops::RangeInclusive":
            i, n, ex = v.args[2], v.args[3], v.args[4] if len(v.args) > 4 else FALSE
            # start..=end  is modelled as start..end+1
            out = []
            for val, s in it.split_bool(st, lt(i, add(n, I(1)))):
                if val:
                    out.append((s, i, mk("adt", v.args[0], v.args[1], add(i, I(1)), *v.args[3:])))
                else:
                    out.append((s, None, v))
            return out
        if v.args[0] == "core::ops::RangeFrom":
            i = v.args[2]
            return [(st, i, mk("adt", v.args[0], v.args[1], add(i, I(1))))]
    if op == "it_enum":
        out = []
        for r in iter_next(it, fr, st, v.args[0], dt, site, fuse):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk("it_enum", nv, v.args[1])))
            else:
                out.append((s, tup(v.args[1], e), mk("it_enum", nv, add(v.args[1], I(1)))))
        return out
    if op in ("it_map", "it_inspect"):
        out = []
        for r in iter_next(it, fr, st, v.args[0], dt, site, fuse):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk(op, nv, v.args[1])))
                continue
            for s2, val, clo in call_stored(it, fr, s, v.args[1], [e], site, out):
                out.append((s2, val if op == "it_map" else e, mk(op, nv, clo)))
        return out
    if op == "it_map_while" or op == "it_take_while":
        out = []
        for r in iter_next(it, fr, st, v.args[0], dt, site, fuse):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk(op, nv, v.args[1])))
                continue
            for s2, val, clo in call_stored(it, fr, s, v.args[1], [e], site, out):
                if op == "it_map_while":
                    for var, s3 in it.split_variant(s2, val, OPT):
                        out.append((s3, project(val, OPT, 1, 0, 1) if var else None, mk(op, nv, clo)))
                else:
                    for bv, s3 in it.split_bool(s2, val):
                        out.append((s3, e if bv else None, mk(op, nv, clo)))
        return out
    if op == "it_step":
        r, k = v.args
        i, n = r.args[2], r.args[3]
        out = []
        for val, s in it.split_bool(st, lt(i, n)):
            out.append((s, i, mk(op, mk("adt", r.args[0], r.args[1], add(i, k), n), k)) if val else (s, None, v))
        return out
    if op == "it_zip":
        out = []
        for r in iter_next(it, fr, st, v.args[0], dt, site, fuse):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk("it_zip", nv, v.args[1])))
                continue
            for r2 in iter_next(it, fr, s, v.args[1], dt, site):
                if isinstance(r2, Outcome):
                    out.append(r2)
                    continue
                s2, e2, nv2 = r2
                out.append((s2, None if e2 is None else tup(e, e2), mk("it_zip", nv, nv2)))
        return out
    if op == "it_chain":
        out = []
        for r in iter_next(it, fr, st, v.args[0], dt, site, fuse):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is not None:
                out.append((s, e, mk("it_chain", nv, v.args[1])))
                continue
            for r2 in iter_next(it, fr, s, v.args[1], dt, site, fuse):
                if isinstance(r2, Outcome):
                    out.append(r2)
                    continue
                s2, e2, nv2 = r2
                out.append((s2, e2, mk("it_chain", nv, nv2)))
        return out
    if op == "it_take":
        inner, n = v.args
        out = []
        for val, s in it.split_bool(st, lt(I(0), n)):
            if not val:
                out.append((s, None, v))
                continue
            for r in iter_next(it, fr, s, inner, dt, site, fuse):
                if isinstance(r, Outcome):
                    out.append(r)
                else:
                    out.append((r[0], r[1], mk("it_take", r[2], n if r[1] is SKIP else add(n, I(-1)))))
        return out
    if op in ("it_repeat_with", "it_from_fn"):
        out = []
        for s2, val, clo in call_stored(it, fr, st, v.args[0], [], site, out):
            if op == "it_repeat_with":
                out.append((s2, val, mk(op, clo)))
                continue
            for var, s3 in it.split_variant(s2, val, OPT):
                out.append((s3, project(val, OPT, 1, 0, 1) if var else None, mk(op, clo)))
        return out
    if op == "it_rev":
        inner = v.args[0]
        if inner.op == "it_seq":
            s_, i, n = inner.args
            out = []
            for val, s in it.split_bool(st, lt(i, n)):
                if val:
                    out.append((s, elem(s_, add(n, I(-1))), mk("it_rev", mk("it_seq", s_, i, add(n, I(-1))))))
                else:
                    out.append((s, None, v))
            return out
        if inner.op == "adt" and inner.args[0] == "core::ops::Range":
            i, n = inner.args[2], inner.args[3]
            out = []
            for val, s in it.split_bool(st, lt(i, n)):
                if val:
                    m = add(n, I(-1))
                    out.append((s, m, mk("it_rev", mk("adt", inner.args[0], inner.args[1], i, m))))
                else:
                    out.append((s, None, v))
            return out
    if op == "it_peek":
        inner, pk = v.args
        if pk.op == "adt" and pk.args[1] == 1:
            x = pk.args[2]
            out = []
            for var, s in it.split_variant(st, x, OPT):
                out.append((s, project(x, OPT, 1, 0, 1) if var else None, mk("it_peek", inner, NONE)))
            return out
        out = []
        for r in iter_next(it, fr, st, inner, dt, site):
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            out.append((s, e, mk("it_peek", nv, NONE)))
        return out
    if op == "it_flatten":
        if not fuse:
            return filter_next(it, fr, st, v, dt, site)
        out = []
        rs = iter_next(it, fr, st, v.args[0], dt, site, True)
        if rs is None:
            return None
        for r in rs:
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk(op, nv)))
                continue
            e = deref(it, s, e)
            p = e.args[0] if e.op == "adt" else term_type.get(e) or ""
            p = OPT if p.startswith(OPT) else RES if p.startswith(RES) else None
            if p is None:
                return None
            good = 1 if p == OPT else 0
            for var, s3 in it.split_variant(s, e, p):
                out.append((s3, project(e, p, good, 0, 1) if var == good else SKIP, mk(op, nv)))
        return out
    if op in ("it_filter", "it_filter_map"):
        if not fuse:
            return filter_next(it, fr, st, v, dt, site)
        out = []
        rs = iter_next(it, fr, st, v.args[0], dt, site, True)
        if rs is None:
            return None
        for r in rs:
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s, e, nv = r
            if e is None or e is SKIP:
                out.append((s, e, mk(op, nv, v.args[1])))
                continue
            for s2, val, clo in call_stored(it, fr, s, v.args[1], [e], site, out):
                nv2 = mk(op, nv, clo)
                if op == "it_filter":
                    for bv, s3 in it.split_bool(s2, val):
                        out.append((s3, e if bv else SKIP, nv2))
                else:
                    for var, s3 in it.split_variant(s2, val, OPT):
                        out.append((s3, project(val, OPT, 1, 0, 1) if var else SKIP, nv2))
        return out
    return None


def call_stored(it, fr, st, f, args, site, panics):
    """call closure value f stored inside an iterator; yields (state, value, new closure)"""
    c = it.new_cell()
    st.cells[c] = f
    res = it.call_value(fr, st, mk("mref", c, ()) if f.op == "clo" else f, args, None, site)
    out = []
    for o in res:
        if o.kind != "ret":
            panics.append(o)
            continue
        nf = o.state.cells.pop(c, f)
        out.append((o.state, o.value, nf))
    return out


def filter_next(it, fr, st, v, dt, site):
    """skip until accepted: a loop of its own"""
    cell = it.new_cell()
    st.cells[cell] = v
    op = v.op

    def step(s):
        out = []
        cur = s.cells[cell]
        if op == "it_flatten":
            rs = iter_next(it, fr, s, cur, dt, site, True)
            if rs is None:
                raise Unsupported("flattening of " + cur.args[0].op)
            for r in rs:
                if isinstance(r, Outcome):
                    out.append(r)
                    continue
                s1, e, nv = r
                s1.cells[cell] = nv
                out.append(Outcome("back", None, s1) if e is SKIP else Outcome("exit", e, s1))
            return out
        rs = iter_next(it, fr, s, cur.args[0], dt, site)
        if rs is None:
            raise Unsupported("iterator " + cur.args[0].op)
        for r in rs:
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s1, e, nv = r
            if e is None:
                s1.cells[cell] = mk(op, nv, cur.args[1])
                out.append(Outcome("exit", None, s1))
                continue
            for s2, val, clo in call_stored(it, fr, s1, cur.args[1], [e], site, out):
                s2.cells[cell] = mk(op, nv, clo)
                if op == "it_filter":
                    for bv, s3 in it.split_bool(s2, val):
                        out.append(Outcome("exit", e, s3) if bv else Outcome("back", None, s3))
                else:
                    for var, s3 in it.split_variant(s2, val, OPT):
                        out.append(Outcome("exit", project(val, OPT, 1, 0, 1), s3) if var
                                   else Outcome("back", None, s3))
        return out
    out = []
    for o in it.generic_loop(st, step, site, fr, kind="filter"):
        if o.kind == "exit":
            nv = o.state.cells.pop(cell)
            out.append((o.state, o.value, nv))
        else:
            out.append(o)
    return out


@b("iter::Iterator::next", "iter::DoubleEndedIterator::next_back")
def it_next(it, fr, st, c, a, dt, site):
    if c.get("rlocal"):
        return None
    ref = a[0]
    if ref.op != "mref":
        return None
    # follow &mut &mut I
    v = it.read_loc(st, ref.args[0], ref.args[1])
    while v.op == "mref":
        ref = v
        v = it.read_loc(st, ref.args[0], ref.args[1])
    if not is_iter(v):
        return None
    if c["name"] == "next_back":
        rs = iter_next(it, fr, st, mk("it_rev", v), dt, site)
        unwrap = True
    else:
        rs = iter_next(it, fr, st, v, dt, site, fr.fuse)
        unwrap = False
    if rs is None:
        if v.op == "it_opaque":
            return None
        raise Unsupported("iterator %s at %s" % (v.op, site))
    out = []
    for r in rs:
        if isinstance(r, Outcome):
            out.append(r)
            continue
        s, e, nv = r
        if unwrap:
            nv = nv.args[0]
        it.write_loc(s, ref.args[0], ref.args[1], nv)
        if e is SKIP:
            out.append(Outcome("back", None, s))
            continue
        if e is not None:
            note_elem(it, e, dt)
        out += ret(s, NONE if e is None else Some(e))
    return out


@b("iter::Peekable::peek")
def it_peek(it, fr, st, c, a, dt, site):
    ref = a[0]
    v = it.read_loc(st, ref.args[0], ref.args[1])
    if v.op != "it_peek":
        return None
    inner, pk = v.args
    if pk.op == "adt" and pk.args[1] == 1:
        return ret(st, pk.args[2])
    out = []
    for r in iter_next(it, fr, st, inner, dt, site):
        if isinstance(r, Outcome):
            out.append(r)
            continue
        s, e, nv = r
        o = NONE if e is None else Some(e)
        it.write_loc(s, ref.args[0], ref.args[1], mk("it_peek", nv, Some(o)))
        out += ret(s, o)
    return out


def consume(it, fr, st, v, dt, site, per_item, init=None, kind="iter", back=None):
    """run a consumer loop over iterator v.
    per_item(state, item, acc) -> [('back', state, acc) | ('exit', state, value) | Outcome]
    returns [(state, 'end', acc) | (state, 'exit', value)] + panics"""
    if v.op == "it_chain" and back is None:
        out = []
        for x in consume(it, fr, st, v.args[0], dt, site, per_item, init, kind):
            if isinstance(x, Outcome) or x[1] != "end":
                out.append(x)
            else:
                out += consume(it, fr, x[0], v.args[1], dt, site, per_item, x[2], kind)
        return out
    icell = it.new_cell()
    acell = it.new_cell()
    st.cells[icell] = v
    st.cells[acell] = init if init is not None else UNIT

    def step(s):
        out = []
        rs = iter_next(it, fr, s, s.cells[icell], dt, site, True)
        if rs is None:
            raise Unsupported("iterator %s at %s" % (s.cells[icell].op, site))
        for r in rs:
            if isinstance(r, Outcome):
                out.append(r)
                continue
            s1, e, nv = r
            s1.cells[icell] = nv
            if e is SKIP:
                out.append(Outcome("back", None, s1))
                continue
            if e is None:
                out.append(Outcome("exit", ("end", None), s1))
                continue
            for x in per_item(s1, e, s1.cells[acell]):
                if isinstance(x, Outcome):
                    out.append(x)
                    continue
                k, s2, val = x
                if k == "back":
                    s2.cells[acell] = val
                    out.append(Outcome("back", None, s2))
                else:
                    out.append(Outcome("exit", ("exit", val), s2))
        return out
    res = []
    raw = []
    work = [st]
    while work:
        s = work.pop()
        if not unspent(s.cells[icell]):
            if s is not st:
                os_ = step(s.fork())
                if not any(o.kind == "back" for o in os_):
                    raw += os_
                    continue
            raw += it.generic_loop(s, step, site, fr, kind=kind)
            continue
        for o in step(s):
            if o.kind == "back":
                work.append(o.state)
            else:
                raw.append(o)
    for o in raw:
        if o.kind != "exit":
            res.append(o)
            continue
        acc = o.state.cells.pop(acell)
        rest = o.state.cells.pop(icell)
        if back is not None:
            it.write_loc(o.state, back.args[0], back.args[1], rest)
        k, val = o.value
        res.append((o.state, k, acc if k == "end" else val))
    return res


def need_iter(it, st, v):
    ref = None
    while v.op == "mref":
        ref = v
        v = it.read_loc(st, v.args[0], v.args[1])
    return v if is_iter(v) and v.op != "it_opaque" and ref is None else None


def gather(it, fr, st, v, dt, site, init):
    """append every item of iterator v to the sequence init; results as those of consume"""
    flat = v.op in ("it_flat_map", "it_flatten")
    if not flat:
        return consume(it, fr, st, v, dt, site, lambda s, e, acc: [("back", s, push(acc, e))], init)
    clo = it.new_cell()
    st.cells[clo] = v.args[1] if v.op == "it_flat_map" else UNIT

    def per(s, e, acc):
        out = []
        for s2, val in run_clo(it, fr, s, clo, [e], site, out) if v.op == "it_flat_map" else [(s, deref(it, s, e))]:
            if v.op == "it_flatten" and (val.args[0] if val.op == "adt" else term_type.get(val) or "").startswith((OPT, RES)):
                p = (val.args[0] if val.op == "adt" else term_type[val])
                p = OPT if p.startswith(OPT) else RES
                good = 1 if p == OPT else 0
                for var, s3 in it.split_variant(s2, val, p):
                    out.append(("back", s3, push(acc, project(val, p, good, 0, 1)) if var == good else acc))
            elif is_iter(val):
                for x in gather(it, fr, s2, val, dt, site, acc):
                    out.append(x if isinstance(x, Outcome) else ("back", x[0], x[2]))
            elif val.op == "adt" and val.args[0] in (OPT, RES) or term_type.get(val) in (OPT, RES):
                raise Unsupported("flat_map over options")
            else:
                out.append(("back", s2, concat(acc, val)))
        return out
    res = consume(it, fr, st, v.args[0], dt, site, per, init)
    for x in res:
        (x.state if isinstance(x, Outcome) else x[0]).cells.pop(clo, None)
    return res


def add_text(s, e, acc):
    if term_type.get(e) == "char":
        e = mk("chr", e)
    elif e.op == "int":
        e = S(chr(e.args[0]))
    return [("back", s, cat(acc, e))]


@b("iter::Iterator::collect")
def collect(it, fr, st, c, a, dt, site):
    v = need_iter(it, st, a[0])
    if v is None:
        return None
    t = tyof(it, dt)
    p = t.get("p", "")
    if p.endswith("vec::Vec"):
        ask = collecting(it, st, v, site)
        rs = gather(it, fr, st, v, dt, site, arr())
        return ask + [x if isinstance(x, Outcome) else Outcome("ret", x[2], x[0]) for x in rs]
    if p.endswith("string::String"):
        rs = consume(it, fr, st, v, dt, site, add_text, S(""))
        return [x if isinstance(x, Outcome) else Outcome("ret", x[2], x[0]) for x in rs]
    if p in (RES, OPT):
        inner = tyof(it, t["a"][0])
        if not (inner.get("p", "").endswith("vec::Vec") or (inner["k"] == "tuple" and not inner["a"])):
            return None
        good = 0 if p == RES else 1
        isvec = inner["k"] == "adt"

        def per(s, e, acc):
            out = []
            for var, s2 in it.split_variant(s, e, p):
                if var == good:
                    x = project(e, p, good, 0, 1)
                    out.append(("back", s2, push(acc, x) if isvec else acc))
                elif p == RES:
                    out.append(("exit", s2, Err(project(e, RES, 1, 0, 1))))
                else:
                    out.append(("exit", s2, NONE))
            return out
        rs = consume(it, fr, st, v, dt, site, per, arr() if isvec else UNIT)
        out = []
        for x in rs:
            if isinstance(x, Outcome):
                out.append(x)
            elif x[1] == "end":
                out.append(Outcome("ret", mk("adt", p, good, x[2]), x[0]))
            else:
                out.append(Outcome("ret", x[2], x[0]))
        return out
    return None


@b("iter::FromIterator::from_iter")
def from_iter(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    if not is_iter(v):
        t = tyof(it, c["a"][-1])
        if t["k"] not in ("array", "slice", "ref") and not (t["k"] == "adt" and t["p"].endswith("vec::Vec")):
            return None
        v = seq_iter(v)
    return collect(it, fr, st, c, [v], dt, site)


@b("slice::concat")
def slice_concat(it, fr, st, c, a, dt, site):
    v = deref(it, st, a[0])
    t = tyof(it, dt)
    if v.op != "arr":
        return None
    isstr = t.get("p", "").endswith("string::String")
    acc = S("") if isstr else arr()
    for x in v.args:
        acc = cat(acc, deref(it, st, x)) if isstr else concat(acc, deref(it, st, x))
    return ret(st, acc)


@b("iter::Extend::extend")
def extend(it, fr, st, c, a, dt, site):
    ref = a[0]
    t = tyof(it, c["a"][0])
    y = deref(it, st, a[1])
    text = t.get("p", "").endswith("string::String")
    if ref.op != "mref" or not (text or t.get("p", "").endswith("vec::Vec")):
        return None
    cell, path = ref.args
    cur = it.read_loc(st, cell, path)
    if c["a"] and tyof(it, c["a"][-1]).get("p", "").endswith("option::Option"):
        out = []
        for var, s in it.split_variant(st, y, OPT):
            if var:
                x = project(y, OPT, 1, 0, 1)
                it.write_loc(s, cell, path, add_text(s, x, cur)[0][2] if text else push(cur, x))
            out += ret(s, UNIT)
        return out
    if text:
        out = []
        for x in consume(it, fr, st, y if is_iter(y) else seq_iter(y), dt, site, add_text, cur):
            if isinstance(x, Outcome):
                out.append(x)
            else:
                it.write_loc(x[0], cell, path, x[2])
                out += ret(x[0], UNIT)
        return out
    if not is_iter(y):
        it.write_loc(st, cell, path, concat(cur, y))
        return ret(st, UNIT)
    out = collecting(it, st, y, site)
    rs = gather(it, fr, st, y, dt, site, cur)
    for x in rs:
        if isinstance(x, Outcome):
            out.append(x)
        else:
            it.write_loc(x[0], cell, path, x[2])
            out += ret(x[0], UNIT)
    return out


def run_clo(it, fr, s, fcell, args, site, out):
    """call the closure kept in cell fcell"""
    f = s.cells[fcell]
    for o in it.call_value(fr, s, mk("mref", fcell, ()) if f.op == "clo" else f, args, None, site):
        if o.kind != "ret":
            out.append(o)
        else:
            yield o.state, o.value


@b("iter::DoubleEndedIterator::rfind", "iter::DoubleEndedIterator::rfold")
def backwards(it, fr, st, c, a, dt, site):
    v = a[0]
    while v.op == "mref":
        cell, path = v.args
        v = it.read_loc(st, cell, path)
        if v.op != "mref":
            it.write_loc(st, cell, path, mk("it_opaque", v))
    if not is_iter(v) or v.op == "it_opaque":
        return None
    c = dict(c)
    c["name"] = c["name"][1:]
    return consumer(it, fr, st, c, [mk("it_rev", v)] + list(a[1:]), dt, site)


@b("iter::Iterator::for_each", "iter::Iterator::try_for_each", "iter::Iterator::all", "iter::Iterator::any",
   "iter::Iterator::find", "iter::Iterator::find_map", "iter::Iterator::position", "iter::Iterator::fold",
   "iter::Iterator::try_fold", "iter::Iterator::count", "iter::Iterator::last", "iter::Iterator::sum",
   "iter::Iterator::nth")
def consumer(it, fr, st, c, a, dt, site):
    name = c["name"]
    ref = a[0]
    target = None
    v = ref
    while v.op == "mref":
        target = v
        v = it.read_loc(st, v.args[0], v.args[1])
    if not is_iter(v) or v.op == "it_opaque":
        return None
    fcell = it.new_cell()
    if name in ("fold", "try_fold"):
        f, init = a[2], a[1]
    elif name in ("count", "last", "sum", "nth"):
        f, init = UNIT, {"count": I(0), "last": NONE, "sum": I(0)}.get(name)
        if name == "nth":
            init = a[1]
    else:
        f, init = a[1], (I(0) if name == "position" else UNIT)
    st.cells[fcell] = f
    ty = tyof(it, dt)

    def per(s, e, acc):
        out = []
        if name == "count":
            return [("back", s, add(acc, I(1)))]
        if name == "last":
            return [("back", s, Some(e))]
        if name == "sum":
            for bv, s2 in it.split_bool(s, mk("ovf", ty["s"], add(acc, e))):
                out.append(panic("overflow in sum", site, s2) if bv else ("back", s2, add(acc, e)))
            return out
        if name == "nth":
            for bv, s2 in it.split_bool(s, int_eq(acc, I(0))):
                out.append(("exit", s2, Some(e)) if bv else ("back", s2, sub(acc, I(1))))
            return out
        args = [acc, e] if name in ("fold", "try_fold") else [e]
        for s2, r in run_clo(it, fr, s, fcell, args, site, out):
            if name == "for_each":
                out.append(("back", s2, acc))
            elif name == "fold":
                out.append(("back", s2, r))
            elif name in ("try_for_each", "try_fold"):
                p = ty.get("p")
                good = 0 if p in (RES, "core::ops::ControlFlow") else 1
                for var, s3 in it.split_variant(s2, r, p):
                    if var == good:
                        out.append(("back", s3, project(r, p, good, 0, 1)))
                    else:
                        out.append(("exit", s3, r if p != RES else Err(project(r, RES, 1, 0, 1))))
            elif name in ("all", "any", "position", "find"):
                want = name != "all"
                for bv, s3 in it.split_bool(s2, r):
                    if bv == want:
                        val = {"all": FALSE, "any": TRUE, "position": Some(acc), "find": Some(e)}[name]
                        out.append(("exit", s3, val))
                    else:
                        out.append(("back", s3, add(acc, I(1)) if name == "position" else acc))
            elif name == "find_map":
                for var, s3 in it.split_variant(s2, r, OPT):
                    out.append(("exit", s3, r if r.op != "adt" else Some(project(r, OPT, 1, 0, 1))) if var else ("back", s3, acc))
        return out
    rs = consume(it, fr, st, v, dt, site, per, init, kind=name, back=target)
    out = []
    for x in rs:
        if isinstance(x, Outcome):
            out.append(x)
            continue
        s, k, val = x
        if k == "end":
            if name in ("for_each",):
                val = UNIT
            elif name in ("try_for_each", "try_fold"):
                p = ty.get("p")
                val = mk("adt", p, 0 if p in (RES, "core::ops::ControlFlow") else 1, UNIT if name == "try_for_each" else val)
            elif name == "all":
                val = TRUE
            elif name == "any":
                val = FALSE
            elif name in ("find", "find_map", "position", "nth"):
                val = NONE
        s.cells.pop(fcell, None)
        out += ret(s, val)
    return out


# ---- panics --------------------------------------------------------------------------
@b("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_display", "panicking::unreachable_default_msg",
   "option::unwrap_failed", "option::expect_failed", "result::unwrap_failed", "panicking::panic_explicit",
   "panicking::assert_failed", "panicking::panic_display", "rt::panic_fmt", "rt::begin_panic",
   "panicking::panic_str_2015", "panicking::assert_failed_inner", "process::abort", "process::exit")
def panics(it, fr, st, c, a, dt, site):
    if len(fr.stack) > 1 and not it.p.bodies[fr.stack[-1]]["local"]:
        # report the local call site
        for k in reversed(fr.stack):
            if it.p.bodies[k]["local"]:
                site = site + " via " + it.p.bodies[k]["np"]
                break
    return [panic(norm_path(c["p"]), site, st)]

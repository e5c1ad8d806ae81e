"""Panic freedom: no path of any function of the crate, on any input, ends in a panic.

Every function reachable from outside the crate, and every function the
interpreter keeps opaque inside its callers, is interpreted from an
unconstrained entry state; paths ending in a failed `assert`, a diverging call or
a library operation's documented panic are findings unless the fact domain
refutes them.  The contracts assumed for opaque calls (sav/contracts.py) are
discharged here on the bodies themselves (assume-guarantee over the recursion).
"""
from .terms import *
from .ctx import OPAQUE
from .interp import Interp, Unsupported, norm_path, strip_generics
from .par import complete, isolated
from .spec import tail
from . import contracts
from .contracts import total_len
from .builtins import AHEAD

DWT = "decoding_sci::decode_with_type"
BITPOS = "decoding_sci::BitVecPositions"
MARKED = "MarkedData"
MAX_INDENT = 1 << 28
INSTANCE = ("::<&[u8], ()", ", &[u8], ()>", "::<(), frame_metadata")

# documented to panic on some argument, and not modelled: calling one needs an argument
MAY_PANIC = {
    "string::String::" + n for n in ("remove", "insert", "insert_str", "truncate", "drain", "split_off", "replace_range")
} | {"vec::Vec::" + n for n in ("remove", "swap_remove", "insert", "drain", "split_off", "splice", "extend_from_within")
     } | {"slice::" + n for n in ("copy_from_slice", "clone_from_slice", "split_at", "split_at_mut", "swap", "copy_within",
                                  "rotate_left", "rotate_right", "chunks_mut", "rchunks", "chunks_exact_mut",
                                  "select_nth_unstable", "swap_with_slice", "as_chunks", "array_windows")
          } | {"str::split_at", "str::slice_unchecked", "char::from_digit", "char::to_digit",
               "char::methods::from_digit", "char::methods::to_digit", "iter::Iterator::step_by",
               "iter::Iterator::product", "iter::repeat_n", "cell::RefCell::borrow", "cell::RefCell::borrow_mut",
               "num::ilog", "num::ilog2", "num::ilog10", "num::isqrt", "num::div_euclid", "num::rem_euclid",
               "num::next_power_of_two", "num::next_multiple_of", "num::abs", "num::neg", "num::from_str_radix",
               "num::div_ceil", "collections::VecDeque::swap", "ops::Index::index", "ops::IndexMut::index_mut",
               "bits::BitVec::remove", "sync::Once::call_once", "time::Duration::sub", "ops::Div::div", "ops::Rem::rem",
               "ops::Sub::sub", "ops::Neg::neg", "ops::Shl::shl", "ops::Shr::shr",
               "ops::SubAssign::sub_assign", "ops::DivAssign::div_assign", "ops::RemAssign::rem_assign",
               "bitvec::vec::api::remove", "bitvec::vec::api::swap_remove", "bitvec::vec::api::insert",
               "bitvec::slice::api::split_at", "bitvec::slice::api::swap"}


def roots(ctx):
    bodies = ctx.p.bodies
    generic = set()
    for k, b in bodies.items():
        if b["local"] and ("<B, E" in k or ", B, E" in k or "<E, M" in k or "<E>" in k):
            generic.add(b["p"])
    out = []
    for k, b in sorted(bodies.items()):
        if not b["local"] or b["closure"] or b["derived"]:
            continue
        if not (b["reach"] or b["p"] in OPAQUE or b["np"] in OPAQUE):
            continue
        if b["p"] in generic and any(x in k for x in INSTANCE):
            continue
        if k.startswith(b["p"] + "::<T, ") and any(b2["p"] == b["p"] and not k2.startswith(b["p"] + "::<T, ")
                                                   for k2, b2 in bodies.items()):
            continue
        out.append(k)
    return out


def marked_fields(v):
    info = ADTS.get(MARKED)
    if info is None:
        return None
    names = [x[0] for x in info["v"][0]["f"]]
    if not {"data", "call_start", "extensions_start"} <= set(names):
        return None
    g = {n: project(v, MARKED, 0, i, len(names)) for i, n in enumerate(names)}
    for n in ("call_start", "extensions_start"):
        note_type(g[n], "usize")
    return g


def marked_inv(v):
    g = marked_fields(v)
    if g is None:
        return []
    return [sub(total_len(g["data"]), g["extensions_start"]), sub(g["extensions_start"], g["call_start"])]


def deref_type(p, ti):
    t = p.types[ti]
    while t["k"] == "ref":
        t = p.types[t["t"]]
    return t


def environment(ctx, b):
    """facts every caller guarantees at entry"""
    notes = []

    def assume(st, args):
        for i, a in enumerate(args):
            t = deref_type(ctx.p, b["locals"][i + 1][0])
            v = a
            if a.op == "mref":
                v = st.cells.get(a.args[0])
            if t["k"] == "adt" and t["p"] == MARKED:
                st.facts.ineqs.extend(marked_inv(v))
                notes.append("marked data is well formed")
            if t["k"] == "adt" and t["p"] == "cards::ExtendedCard":
                names = [x[0] for x in ADTS[t["p"]]["v"][0]["f"]]
                if "indent" in names:
                    x = project(v, t["p"], 0, names.index("indent"), len(names))
                    note_type(x, "u32")
                    st.facts.ineqs.append(sub(I(2 * MAX_INDENT), x))
                    notes.append("indentation at most 2^29")
            if t["s"] == "u32" and b["np"].startswith("cards::"):
                st.facts.ineqs.append(sub(I(MAX_INDENT), v))
                notes.append("indentation at most 2^28")
        if "additional_types::Era as parity_scale_codec::Encode" in b["np"]:
            z = mk("op", "trailing_zeros", project(args[0], "additional_types::Era", 1, 0, 2))
            st.facts.ineqs.append(add(z, I(-1)))
            notes.append("mortal eras have an even period")
    return assume, notes


def kinds(facts):
    """labels for the kind of type a path deals with"""
    out = set()
    for path, pre in (("scale_info::TypeDef", "def."), ("scale_info::TypeDefPrimitive", "prim."),
                      ("special_indicators::SpecialtyTypeChecked", "special.")):
        for a, yes in facts.trail():
            if yes and a.op == "isvar" and a.args[1] == path and path in ADTS:
                out.add(pre + ADTS[path]["v"][a.args[2]]["n"])
    return out


def _analyse(ctx, key):
    b = ctx.p.bodies[key]
    it = Interp(ctx.p, OPAQUE - {b["p"], b["np"]})
    assume, notes = environment(ctx, b)
    out = {"key": key, "findings": [], "paths": 0, "obligations": 0, "ext": [], "rec": [], "notes": [], "ahead": [],
           "requests": [], "kinds": {}}
    ps = it.analyse(b, assume)
    out["notes"] = sorted(set(notes))
    out["requests"] = sorted(it.requests)
    out["paths"] = len(ps)
    out["obligations"] = len(it.panic_sites) + 1
    for p in ps:
        if p.kind != "ret":
            why, site, _ = p.value if isinstance(p.value, tuple) else (str(p.value), None, None)
            if why.startswith(AHEAD):
                out["ahead"].append((why, site, tail(p.facts, 8)))
                continue
            f = ("may panic: %s" % why, site, tail(p.facts, 8))
            out["findings"].append(f)
            out["kinds"][f] = kinds(p.facts)
    out["rec"] = sorted(k for k in it.recursive if k != key)
    out["ext"] = sorted(it.opaque_seen)
    for n in out["ext"]:
        m = norm_path(n.split("<")[0]) if not n.startswith("<") else n
        if m in MAY_PANIC:
            out["findings"].append(("may panic: calls %s, whose panic conditions are not excluded" % m, None, None))
    g = guarantee(ctx, b, ps)
    out["obligations"] += g[0]
    out["findings"] += g[1]
    if b["np"] in (DWT, contracts.CHECKED + "::from_type"):
        it = Interp(ctx.p, OPAQUE - {b["p"], b["np"]})
        n, bad = inside(ctx, b, it)
        out["obligations"] += n
        out["findings"] += bad
    return out


def analyse(ctx, key):
    """-> dict of what one body may do"""
    b = ctx.p.bodies[key]
    try:
        return complete(_analyse, ctx, key)
    except Unsupported as e:
        text = "%s cannot be analysed: %s" % (b["np"], e)
        return {"key": key, "findings": [(text, None, None)], "paths": 0, "obligations": 0, "ext": [], "rec": [], "notes": [],
                "ahead": [], "requests": [], "kinds": {}}


def ok_paths(p):
    """(facts, payload) for the successful results of a path"""
    v = p.value
    if v.op == "adt" and v.args[0] == RES:
        return [(p.facts, v.args[2])] if v.args[1] == 0 else []
    k = p.facts.variant(v)
    if k == 1:
        return []
    f = p.facts.copy()
    if not f.assume_variant(v, RES, 0):
        return []
    return [(f, mk("fld", v, (RES, 0), 0, 1))]


def guarantee(ctx, b, ps):
    """the contracts other functions rely on"""
    n, bad = 0, []

    def need(f, l, text):
        nonlocal n
        n += 1
        if not f.entails(l):
            bad.append(("guarantee broken: %s" % text, b.get("span"), tail(f, 8)))
    rets = [p for p in ps if p.kind == "ret"]
    np_ = b["np"]
    if np_ == "compacts::find_compact":
        info = ADTS[contracts.FOUND]
        names = [x[0] for x in info["v"][0]["f"]]
        for p in rets:
            for f, v in ok_paths(p):
                o = project(v, contracts.FOUND, 0, names.index("start_next_unit"), len(names))
                note_type(o, "usize")
                need(f, add(sub(o, mk("in", 3)), I(-1)), "a compact takes at least one byte")
                need(f, sub(total_len(mk("in", 1)), o), "a compact ends inside the data")
    elif np_ == "decoding_sci::pick_variant":
        for p in rets:
            for f, _ in ok_paths(p):
                need(f, sub(total_len(mk("in", 2)), add(mk("in", 4), I(1))), "a variant index is inside the data")
    elif np_ == BITPOS + "::new":
        for p in rets:
            for f, v in ok_paths(p):
                for l, t in bits_contract(ctx, b, v):
                    need(f, l, t)
    elif np_ == DWT:
        for p in rets:
            for f, _ in ok_paths(p):
                o = p.outs[4]
                need(f, sub(o, mk("in", 4)), "decoding never moves the position backwards")
    elif np_ == contracts.CHECKED + "::from_type":
        for p in rets:
            need(p.facts, sub(p.outs[4], mk("in", 4)), "the position never moves backwards")
    for p in rets:
        seen = set()
        for v in [p.value] + [x for x in p.outs.values() if x is not None]:
            for x in subterms(v, seen):
                if x.op == "adt" and x.args[0] == MARKED:
                    for l in marked_inv(x):
                        need(p.facts, l, "marked data keeps its parts in order and inside the data")
    return n, bad


def inside(ctx, b, it):
    """started inside the data, the position stays inside it"""
    n, bad = 0, []

    def assume(st, args):
        st.facts.ineqs.append(sub(total_len(mk("in", 2)), mk("in", 4)))
    for p in it.analyse(b, assume):
        if p.kind != "ret":
            continue
        for f, _ in (ok_paths(p) if b["np"] == DWT else [(p.facts, None)]):
            n += 1
            if not f.entails(sub(total_len(mk("in", 2)), p.outs[4])):
                bad.append(("guarantee broken: the position stays inside the data", b.get("span"), tail(f, 8)))
    return n, bad


def bits_contract(ctx, b, v):
    info = ADTS.get(BITPOS)
    if info is None:
        return []
    names = [x[0] for x in info["v"][0]["f"]]
    w = next((n for t, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)) if "::new::<%s, " % t in b["key"]), None)
    g = {}
    for i, nm in enumerate(names):
        g[nm] = project(v, BITPOS, 0, i, len(names))
        note_type(g[nm], "usize")
    if w is None or not {"bitvec_start", "bitvec_end", "minimal_length"} <= set(g):
        return []
    pos = mk("in", 3)
    e = add(g["bitvec_start"], g["minimal_length"])
    t = "the bit sequence layout is consistent"
    out = [(sub(g["bitvec_end"], e), t), (sub(e, g["bitvec_end"]), t), (sub(g["bitvec_start"], pos), t),
           (sub(pos, g["bitvec_start"]), t)]
    if {"data_start", "number_of_elements", "bit_length"} <= set(g):
        e = add(g["data_start"], mulc(g["number_of_elements"], w))
        out += [(sub(g["bitvec_end"], e), t), (sub(e, g["bitvec_end"]), t),
                (sub(mulc(g["number_of_elements"], w * 8), g["bit_length"]), t),
                (add(sub(g["data_start"], pos), I(-1)), t), (sub(total_len(mk("in", 1)), g["data_start"]), t)]
    return out


def check(ctx, bits):
    todo, done, res = roots(ctx), set(), []
    while todo:
        done |= set(todo)
        rs = [r for _, r in isolated(lambda k: analyse(ctx, k), todo)]
        res += rs
        todo = sorted({k for r in rs for k in r["rec"] if k in ctx.p.bodies and ctx.p.bodies[k]["local"]} - done)
    return res

"""Reference behaviour of the metadata-driven decoder."""
from .base import *
from .. import terms as T


def PTR():
    return 64 if T.INT_RANGE["usize"][1] >> 32 else 32


HUSKED = "decoding_sci::HuskedType"
CK = "propagated::Checker"
PR = "propagated::Propagated"
SS = "propagated::SpecialtySet"
CTY = "special_indicators::SpecialtyTypeChecked"
HTY = "special_indicators::SpecialtyTypeHinted"
PSI = "special_indicators::PalletSpecificItem"
INFO = "cards::Info"
FIELD = "scale_info::Field"
VARIANT = "scale_info::Variant"
SEQ = "cards::Sequence"
PSD = "cards::PalletSpecificData"
SH256 = "special_indicators::SpecialtyH256"
SSTR = "special_indicators::SpecialtyStr"
FBO = "decoding_sci::FoundBitOrder"
BVP = "decoding_sci::BitVecPositions"
PF = "<scale_info::form::PortableForm>"

# compact-capable unsigned integers
UINTS = ("U8", "U16", "U32", "U64", "U128")
PERTHINGS = {"PerU16": 2, "Percent": 1, "Permill": 4, "Perbill": 4, "Perquintill": 8}
# fixed-width byte arrays: specialty -> (output kind, encoded length, type path)
SPECIAL_ARRAYS = {
    "AccountId32": ("Id", 32, "substrate_crypto_light::common::AccountId32"),
    "H160": ("H160", 20, "primitive_types::H160"),
    "H512": ("H512", 64, "primitive_types::H512"),
    "PublicEd25519": ("PublicEd25519", 32, "substrate_crypto_light::ed25519::Public"),
    "PublicSr25519": ("PublicSr25519", 32, "substrate_crypto_light::sr25519::Public"),
    "PublicEcdsa": ("PublicEcdsa", 33, "substrate_crypto_light::ecdsa::Public"),
    "SignatureEd25519": ("SignatureEd25519", 64, "substrate_crypto_light::ed25519::Signature"),
    "SignatureSr25519": ("SignatureSr25519", 64, "substrate_crypto_light::sr25519::Signature"),
    "SignatureEcdsa": ("SignatureEcdsa", 65, "substrate_crypto_light::ecdsa::Signature"),
}
BITS = {"U8": ("u8", 1), "U16": ("u16", 2), "U32": ("u32", 4), "U64": ("u64", 8)}


def reg_int(name, *a, **k):
    return parser_registry(internal(name, *a, **k))


def slice_err(e):
    return parser_buffer(e)


def cut(o, data, pos, n):
    return o.q(read_slice(data, pos, I(n)), slice_err)


def no_compact(o, compact, conv=parser_registry):
    if o.some(compact):
        o.tag("compact-inside", 2)
        o.ret(Err(conv(internal("UnexpectedCompactInsides", id=num(some(compact), "u32")))))


def hint_uint(o, hint):
    h = o.case(hint, HINT)
    k = {"CheckSpecVersion": "SpecVersion", "FieldSpecVersion": "SpecVersion",
         "CheckTxVersion": "TxVersion", "FieldTxVersion": "TxVersion",
         "CheckNonce": "Nonce", "FieldNonce": "Nonce",
         "ChargeTransactionPayment": "Tip", "ChargeAssetTxPayment": "TipAsset",
         "FieldBalance": "Balance"}.get(h, "None")
    return A(SUI, k)


def hint_str(o, hint):
    return A(SSTR, "SpecName" if o.case(hint, HINT) == "FieldSpecName" else "None")


def hint_h256(o, hint):
    return {"CheckGenesis": "GenesisHash", "CheckMortality": "BlockHash"}.get(o.case(hint, HINT), "H256")


def forget_hint(o, hint):
    return hint if o.case(hint, HINT) == "ChargeAssetTxPayment" else A(HINT, "None")


def check_id(o, cyc, id_, conv=parser_registry):
    o.tag("cycle", 2)
    if member(o, cyc, id_):
        o.ret(Err(conv(internal("CyclicMetadata", id=id_))))
    del o.tags[2:]
    return seq_push(cyc, id_)


def member(o, seq, x):
    if seq.op == "arr":
        return any(o.eq(e, x) for e in seq.args)
    if seq.op == "push":
        return o.eq(seq.args[1], x) or member(o, seq.args[0], x)
    return o.test(mk("contains", seq, x))


def type_failure(pos, ty):
    return Err(A(PE, "TypeFailure", position=pos, ty=S(ty)))


# ---- leaves ---------------------------------------------------------------------
def decode_exact(o, ty, name, data, pos, n):
    s = cut(o, data, pos, n)
    if ty in INT_BITS:
        return mk("frombytes", "le_bytes", ty, s)
    d = C("parity_scale_codec::DecodeAll::decode_all<%s>" % ty, s)
    if not o.ok(d):
        o.ret(type_failure(pos, name))
    return ok(d)


def primitive(o, prim, data, pos, compact, hint):
    """(value, position after)"""
    p = o.case(prim, TDP)
    out = "Primitive" + p
    o.tag("prim." + p, 1)
    if p in UINTS:
        ty = p.lower()
        if o.some(compact):
            o.tag("compact-value", 2)
            fc = find_compact(data, pos, ty)
            if not o.ok(fc):
                o.ret(Err(err(fc)))
            v, pos = fc_value(fc, ty), fc_next(fc)
        else:
            n = INT_BITS[ty] // 8
            v = decode_exact(o, ty, ty, data, pos, n)
            pos = add(pos, I(n))
        return A(PD, out, value=v, specialty=hint_uint(o, hint)), pos
    no_compact(o, compact)
    if p == "Str":
        fc = find_compact(data, pos)
        if not o.ok(fc):
            o.ret(Err(err(fc)))
        start, n = fc_next(fc), fc_value(fc)
        s = o.q(read_slice(data, start, n), slice_err)
        t = C("std::string::String::from_utf8", s)
        if not o.ok(t):
            o.ret(type_failure(pos, "str"))
        return A(PD, "Text", text=ok(t), specialty=hint_str(o, hint)), add(start, n)
    if p == "Bool":
        return A(PD, out, decode_exact(o, "bool", "bool", data, pos, 1)), add(pos, I(1))
    if p == "Char":
        s = cut(o, data, pos, 4)
        c = C("core::char::methods::from_u32", mk("frombytes", "le_bytes", "u32", s))
        if not o.some(c):
            o.ret(type_failure(pos, "char"))
        return A(PD, out, some(c)), add(pos, I(4))
    if p == "U256":
        return A(PD, out, C("num_bigint::BigUint::from_bytes_le", cut(o, data, pos, 32))), add(pos, I(32))
    if p == "I256":
        return A(PD, out, C("num_bigint::BigInt::from_signed_bytes_le", cut(o, data, pos, 32))), add(pos, I(32))
    n = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[p]
    return A(PD, out, decode_exact(o, p.lower(), p.lower(), data, pos, n)), add(pos, I(n))


def perthing(o, name, data, pos, compact):
    path = "sp_arithmetic::" + name
    if o.some(compact):
        o.tag("compact-value", 2)
        fc = find_compact(data, pos, path)
        if not o.ok(fc):
            o.ret(Err(err(fc)))
        return A(PD, name, F(ok(fc), "compacts::FoundCompact", None, "compact")), fc_next(fc)
    n = PERTHINGS[name]
    return A(PD, name, decode_exact(o, path, name, data, pos, n)), add(pos, I(n))


def special_array(o, name, data, pos):
    kind, n, path = SPECIAL_ARRAYS[name]
    s = cut(o, data, pos, n)
    if path.startswith("substrate"):
        v = A(path, None, s)
    else:
        v = A(path, None, s)
    return A(PD, kind, v), add(pos, I(n))


def era(o, data, pos):
    d = C("parity_scale_codec::DecodeAll::decode_all<additional_types::Era>", cut(o, data, pos, 1))
    if o.ok(d):
        return A(PD, "Era", ok(d)), add(pos, I(1))
    d = C("parity_scale_codec::DecodeAll::decode_all<additional_types::Era>", cut(o, data, pos, 2))
    if o.ok(d):
        return A(PD, "Era", ok(d)), add(pos, I(2))
    o.ret(type_failure(pos, "Era"))


def split_words(o, order, data, f):
    """64-bit storage units on a target without 64-bit bit vectors: both halves of
    every unit are kept, ordered as the bit order counts them"""
    ord_ = o.case(order, FBO)
    o.tag("split-words", 1)

    def read(o, i, r):
        s = read_slice(data, add(f("data_start"), mulc(i, 8)), I(8))
        if not o.ok(s):
            o.ret(Err(parser_buffer(A(BE, "DataTooShort", position=f("bitvec_start"),
                                      minimal_length=f("minimal_length")))))
        return "next", {"acc": seq_push(r["acc"], ok(s))}
    units = o.loop(f("number_of_elements"), {"acc": EMPTY}, read, "storage units")["acc"]

    def halve(o, i, r):
        x = elem(units, i)
        lo, hi = (frombytes("le_bytes", "u32", subseq(x, I(a), I(a + 4))) for a in (0, 4))
        a, b = (lo, hi) if ord_ == "Lsb0" else (hi, lo)
        return "next", {"acc": seq_push(seq_push(r["acc"], a), b)}
    words = o.loop(length(units), {"acc": EMPTY}, halve, "halves")["acc"]
    inst = "<u32, bitvec::order::%s>" % ord_
    bv = C("bitvec::vec::BitVec::try_from_vec" + inst, words)
    if not o.ok(bv):
        o.ret(type_failure(f("bitvec_start"), "BitVec < u64, %s >" % ord_))
    return A(PD, "BitVecU64" + ord_, C("bits::first", ok(bv), f("bit_length"))), f("bitvec_end")


def bit_sequence(o, bits, id_, data, pos, reg):
    start = pos
    order = C("decoding_sci::find_bit_order_ty", bits, id_, EXT, reg)
    if not o.ok(order):
        o.ret(Err(parser_registry(err(order))))
    store = o.q(resolve_ty(reg, sym_id(F(bits, "scale_info::TypeDefBitSequence", None, "bit_store_type"))),
                parser_registry)
    td = F(store, TYPE, None, "type_def")
    if o.isv(td, TD, "Primitive"):
        p = o.case(F(td, TD, "Primitive", 0), TDP)
        if p in BITS:
            ty, n = BITS[p]
            bp = C("decoding_sci::BitVecPositions::new<%s>" % ty, data, EXT, pos)
            if not o.ok(bp):
                o.ret(Err(err(bp)))
            f = lambda x: num(F(ok(bp), BVP, None, x))
            if p == "U64" and PTR() == 32:
                return split_words(o, ok(order), data, f)
            s = o.q(read_slice(data, f("bitvec_start"), f("minimal_length")), slice_err)
            ord_ = o.case(ok(order), FBO)
            full = "bitvec::vec::BitVec<%s>" % (ty if ord_ == "Lsb0" else ty + ", bitvec::order::" + ord_)
            d = C("parity_scale_codec::DecodeAll::decode_all<%s>" % full, s)
            if not o.ok(d):
                o.ret(type_failure(start, "BitVec<%s, %s>" % (ty, ord_)))
            return A(PD, "BitVec%s%s" % (p, ord_), ok(d)), f("bitvec_end")
    o.ret(Err(reg_int("NotBitStoreType", id=id_)))


# ---- composite parts ----------------------------------------------------------------
def fields_of(o, fields, data, pos, reg, compact, hint, cyc):
    n = length(fields)
    o.tag("fields", 1)
    if o.test(lt(I(1), n)):
        no_compact(o, compact)
        hint = forget_hint(o, hint)

    def body(o, i, r):
        f = elem(fields, i)
        h = hint if o.case(hint, HINT) != "None" else C("special_indicators::Hint::from_field", f)
        ty = F(f, FIELD, None, "ty")
        c2 = check_id(o, cyc, sym_id(ty))
        d = dwt(symbol(ty), data, r["pos"], reg, propagated(checker(specialty_set(compact, h), c2)))
        if not o.ok(d):
            o.ret(Err(err(d)))
        fd = A("cards::FieldData", None, field_name=F(f, FIELD, None, "name"),
               type_name=F(f, FIELD, None, "type_name"),
               field_docs=C("cards::Documented::collect_docs<scale_info::Field%s>" % PF, f), data=ok(d))
        return "next", {"acc": seq_push(r["acc"], fd), "pos": dwt_pos(d)}
    r = o.loop(n, {"acc": EMPTY, "pos": pos}, body, "fields")
    return r["acc"], r["pos"]


def variant_of(o, variants, data, pos, reg):
    """(name, docs, fields, position after)"""
    o.tag("variant-pick", 1)
    pv = C("decoding_sci::pick_variant", variants, data, EXT, pos)
    if not o.ok(pv):
        o.ret(Err(err(pv)))
    v = ok(pv)
    fs, p = fields_of(o, F(v, VARIANT, None, "fields"), data, add(pos, I(1)), reg, NONE, A(HINT, "None"), EMPTY)
    return F(v, VARIANT, None, "name"), C("cards::Documented::collect_docs<scale_info::Variant%s>" % PF, v), fs, p


def uint_seq(o, seq, p):
    """all elements plain unsigned integers of kind p -> list of values, else None"""
    def body(o, i, r):
        x = elem(seq, i)
        if not o.isv(x, PD, "Primitive" + p):
            return "break", None
        if not o.isv(F(x, PD, "Primitive" + p, "specialty"), SUI, "None"):
            return "break", None
        return "next", {"acc": seq_push(r["acc"], value(i))}
    value = lambda i: num(F(elem(seq, i), PD, "Primitive" + p, "value"), p.lower())
    r = o.loop(length(seq), {"acc": EMPTY}, body, "uniform integers", made={"acc": value})
    return None if r is None else A(SEQ, p, r["acc"])


def bytes_seq(o, seq):
    SD = "cards::SequenceData"

    def body(o, i, r):
        x = elem(seq, i)
        k = o.case(x, PD)
        if k == "Sequence":
            sd = F(x, PD, "Sequence", 0)
            if not o.isv(F(sd, SD, None, "data"), SEQ, "U8"):
                return "break", None
            ei = F(sd, SD, None, "element_info")
            if o.some(r["info"]):
                if not o.eq(some(r["info"]), ei):
                    return "break", None
                info = r["info"]
            else:
                info = Some(ei)
            return "next", {"acc": seq_push(r["acc"], F(F(sd, SD, None, "data"), SEQ, "U8", 0)), "info": info}
        if k == "SequenceRaw":
            d = F(F(x, PD, k, 0), "cards::SequenceRawData", None, "data")
            if not o.test(int_eq(length(d), I(0))):
                return "break", None
            return "next", {"acc": seq_push(r["acc"], EMPTY), "info": r["info"]}
        return "break", None
    r = o.loop(length(seq), {"acc": EMPTY, "info": NONE}, body, "uniform byte vectors")
    if r is None:
        return None
    info = some(r["info"]) if o.some(r["info"]) else EMPTY
    return A(SEQ, "VecU8", sequence=r["acc"], inner_element_info=info)


def wrap(o, seq):
    """a uniform sequence, or None"""
    o.tag("uniform", 1)
    if o.test(int_eq(length(seq), I(0))):
        return None
    first = elem(seq, I(0))
    k = o.case(first, PD)
    for p in UINTS:
        if k == "Primitive" + p:
            return uint_seq(o, seq, p)
    if k == "Sequence" and o.isv(F(F(first, PD, k, 0), "cards::SequenceData", None, "data"), SEQ, "U8"):
        return bytes_seq(o, seq)
    return None


def elements(o, element, count, data, pos, reg, compact, hint, cyc):
    o.tag("elements", 1)
    no_compact(o, compact)
    hk = C("decoding_sci::husk_type", element, reg, EXT, checker(specialty_set(compact, hint), cyc))
    if not o.ok(hk):
        o.ret(Err(parser_registry(err(hk))))
    h = lambda f: F(ok(hk), HUSKED, None, f)
    raw = lambda d: A(PD, "SequenceRaw", A("cards::SequenceRawData", None, element_info=h("info"), data=d))
    if o.test(int_eq(count, I(0))):
        return raw(EMPTY), pos

    def body(o, i, r):
        d = dwt(resolved(h("ty"), num(h("id"), "u32")), data, r["pos"], reg, propagated(h("checker")))
        if not o.ok(d):
            o.ret(Err(err(d)))
        return "next", {"acc": seq_push(r["acc"], F(ok(d), ED, None, "data")), "pos": dwt_pos(d)}
    r = o.loop(count, {"acc": EMPTY, "pos": pos}, body, "elements")
    w = wrap(o, r["acc"])
    if w is None:
        return raw(r["acc"]), r["pos"]
    return A(PD, "Sequence", A("cards::SequenceData", None, element_info=h("info"), data=w)), r["pos"]


def tuple_of(o, fields, data, pos, reg, compact, hint, cyc):
    n = length(fields)
    o.tag("tuple", 1)
    if o.test(lt(I(1), n)):
        no_compact(o, compact)
        hint = forget_hint(o, hint)

    def body(o, i, r):
        id_ = sym_id(elem(fields, i))
        ty = o.q(resolve_ty(reg, id_), parser_registry)
        c2 = check_id(o, cyc, id_)
        h = hint if o.case(hint, HINT) != "None" else \
            C("special_indicators::Hint::from_path", F(ty, TYPE, None, "path"))
        d = dwt(resolved(ty, id_), data, r["pos"], reg, propagated(checker(specialty_set(compact, h), c2)))
        if not o.ok(d):
            o.ret(Err(err(d)))
        return "next", {"acc": seq_push(r["acc"], ok(d)), "pos": dwt_pos(d)}
    r = o.loop(n, {"acc": EMPTY, "pos": pos}, body, "tuple")
    return r["acc"], r["pos"]


def m_decode_with_type(o):
    tyin, data, pos0, reg, prop = IN(1), IN(2), IN(4, "usize"), IN(5), IN(6)
    if o.isv(tyin, TY, "Resolved"):
        r = F(tyin, TY, "Resolved", 0)
        ty, id_ = F(r, "decoding_sci::ResolvedTy", None, "ty"), num(F(r, "decoding_sci::ResolvedTy", None, "id"), "u32")
    else:
        id_ = sym_id(F(tyin, TY, "Symbol", 0))
        ty = o.q(resolve_ty(reg, id_), parser_registry)
    ck = F(prop, PR, None, "checker")
    ss = F(ck, CK, None, "specialty_set")
    compact, hint, cyc = F(ss, SS, None, "compact_at"), F(ss, SS, None, "hint"), F(ck, CK, None, "cycle_check")
    info = F(prop, PR, None, "info")
    it = info_from_ty(ty)
    empty = o.test(int_eq(length(F(it, INFO, None, "docs")), I(0))) and \
        o.test(int_eq(length(F(F(it, INFO, None, "path"), "scale_info::Path", None, "segments")), I(0)))
    if not empty:
        info = seq_push(info, it)
    done = lambda v, p: (Ok(A(ED, None, data=v, info=info)), {4: p})
    spec = C("special_indicators::SpecialtyTypeChecked::from_type", ty, data, EXT, pos0, reg)
    pos = num(O(3, spec))
    s = o.case(spec, CTY)
    o.tag("special." + s)
    if s == "None":
        td = F(ty, TYPE, None, "type_def")
        k = o.case(td, TD)
        o.tag("def." + k)
        x = F(td, TD, k, 0)
        if k == "Composite":
            fs, p = fields_of(o, F(x, "scale_info::TypeDefComposite", None, "fields"), data, pos, reg, compact, hint, cyc)
            return done(A(PD, "Composite", fs), p)
        if k == "Variant":
            no_compact(o, compact)
            vs = F(x, "scale_info::TypeDefVariant", None, "variants")
            if o.test(int_eq(length(vs), I(0))):
                return done(A(PD, "EmptyEnum"), pos)
            n, d, fs, p = variant_of(o, vs, data, pos, reg)
            return done(A(PD, "Variant", A("cards::VariantData", None, variant_name=n, variant_docs=d, fields=fs)), p)
        if k == "Sequence":
            fc = find_compact(data, pos)
            if not o.ok(fc):
                o.ret(Err(err(fc)))
            v, p = elements(o, F(x, "scale_info::TypeDefSequence", None, "type_param"), fc_value(fc), data,
                            fc_next(fc), reg, compact, hint, EMPTY)
            return done(v, p)
        if k == "Array":
            v, p = elements(o, F(x, "scale_info::TypeDefArray", None, "type_param"),
                            num(F(x, "scale_info::TypeDefArray", None, "len"), "u32"), data, pos, reg, compact, hint, cyc)
            return done(v, p)
        if k == "Tuple":
            v, p = tuple_of(o, F(x, "scale_info::TypeDefTuple", None, "fields"), data, pos, reg, compact, hint, cyc)
            return done(A(PD, "Tuple", v), p)
        if k == "Primitive":
            v, p = primitive(o, x, data, pos, compact, hint)
            return done(v, p)
        if k == "Compact":
            no_compact(o, compact)
            inner = F(x, "scale_info::TypeDefCompact", None, "type_param")
            c2 = check_id(o, cyc, sym_id(inner))
            d = dwt(symbol(inner), data, pos, reg, propagated(checker(specialty_set(Some(id_), hint), c2), info))
            if not o.ok(d):
                o.ret(Err(err(d)))
            return Ok(ok(d)), {4: dwt_pos(d)}
        if k == "BitSequence":
            no_compact(o, compact)
            v, p = bit_sequence(o, x, id_, data, pos, reg)
            return done(v, p)
        raise Mismatch("type definition %s has no specified decoding" % k)
    if s in PERTHINGS:
        v, p = perthing(o, s, data, pos, compact)
        return done(v, p)
    no_compact(o, compact)
    if s == "Era":
        v, p = era(o, data, pos)
    elif s == "H256":
        h = hint_h256(o, hint)
        b = cut(o, data, pos, 32)
        v, p = A(PD, h, A("primitive_types::H256", None, b)), add(pos, I(32))
    elif s == "PalletSpecific":
        g = lambda f: F(spec, CTY, s, f)
        n, d, fs, p = variant_of(o, g("variants"), data, pos, reg)
        c = A(PSD, None, pallet_info=g("pallet_info"), variant_docs=d, pallet_name=g("pallet_name"),
              variant_name=n, fields=fs)
        it = o.case(g("item"), PSI)
        v = A(PD, it, A("cards::" + it, None, c))
    elif s in SPECIAL_ARRAYS:
        v, p = special_array(o, s, data, pos)
    else:
        raise Mismatch("special type %s has no specified decoding" % s)
    return done(v, p)

"""Reference behaviour: type resolution helpers, hints and special-type detection."""
from .decode import *

SI = "special_indicators::"
FC = "compacts::FoundCompact"
SIG = SI + "SignatureIndicator"

# ---- compacts -------------------------------------------------------------------
COMPACT_TYPES = ("u8", "u16", "u32", "u64", "u128", "sp_arithmetic::PerU16", "sp_arithmetic::Percent",
                 "sp_arithmetic::Permill", "sp_arithmetic::Perbill", "sp_arithmetic::Perquintill")


def m_find_compact(ty, bound):
    """shortest prefix that decodes as a compact; `bound` prefixes are tried (17 suffice)"""
    def spec(o):
        data, pos = IN(1), IN(3, "usize")
        n = total_len(data)
        if o.test(lt(n, pos)):
            o.ret(Err(parser_buffer(A(BE, "OutOfRange", position=pos, total_length=n))))
        none = Err(A(PE, "NoCompact", position=pos))

        def body(o, i, r):
            if bound is not None and o.test(le(I(bound), i)):
                o.ret(none)
            s = o.q(read_slice(data, pos, add(i, I(1))), slice_err)
            d = C("parity_scale_codec::Decode::decode<parity_scale_codec::Compact<%s>, &[u8]>" % ty, s)
            if o.ok(d):
                v = F(ok(d), "parity_scale_codec::Compact", None, 0)
                o.ret(Ok(A(FC, None, compact=v, start_next_unit=add(pos, add(i, I(1))))))
            return "next", r
        o.loop(sub(n, pos), {}, body, "prefixes")
        return none, {}
    return spec


# ---- enum variants ----------------------------------------------------------------
def m_pick_variant(o):
    vs, data, pos = IN(1), IN(2), IN(4, "usize")
    b = num(o.q(read_byte(data, pos), slice_err), "u8")

    def body(o, i, r):
        v = elem(vs, i)
        if o.test(int_eq(num(F(v, VARIANT, None, "index"), "u8"), b)):
            o.ret(Ok(v))
        return "next", r
    o.loop(length(vs), {}, body, "variants")
    return Err(A(PE, "UnexpectedEnumVariant", position=pos)), {}


# ---- bit sequences ------------------------------------------------------------------
def path_ident(o, path):
    seg = F(path, "scale_info::Path", None, "segments")
    if o.test(int_eq(length(seg), I(0))):
        return None, None
    return elem(seg, sub(length(seg), I(1))), subseq(seg, I(0), sub(length(seg), I(1)))


def m_find_bit_order_ty(o):
    bits, id_, reg = IN(1), IN(2, "u32"), IN(4)
    t = o.q(resolve_ty(reg, sym_id(F(bits, "scale_info::TypeDefBitSequence", None, "bit_order_type"))))
    bad = Err(internal("NotBitOrderType", id=id_))
    if not o.isv(F(t, TYPE, None, "type_def"), TD, "Composite"):
        o.ret(bad)
    ident, _ = path_ident(o, F(t, TYPE, None, "path"))
    if ident is None:
        o.ret(bad)
    for n in ("Lsb0", "Msb0"):
        if o.eq(ident, S(n)):
            return Ok(A(FBO, n)), {}
    o.ret(bad)


def m_bitvec_positions(width):
    def spec(o):
        data, pos = IN(1), IN(3, "usize")
        fc = find_compact(data, pos)
        if not o.ok(fc):
            o.ret(Err(err(fc)))
        bits, start = fc_value(fc), fc_next(fc)
        # smallest whole number of storage units holding the bits
        units = udiv(add(bits, I(width * 8 - 1)), width * 8)
        byts = mulc(units, width)
        end = add(start, byts)
        g = dict(bitvec_start=pos, data_start=start, bitvec_end=end, bit_length=bits,
                 number_of_elements=units, minimal_length=sub(end, pos))
        have = {x[0] for x in ADTS[BVP]["v"][0]["f"]}
        return Ok(A(BVP, None, **{k: v for k, v in g.items() if k in have})), {}
    return spec


# ---- husking ---------------------------------------------------------------------------
def m_husk_type(o):
    sym, reg, ck = IN(1), IN(2), IN(4)
    same_err = lambda e: e
    id0 = sym_id(sym)
    cyc = check_id(o, F(ck, CK, None, "cycle_check"), id0, same_err)
    ty = o.q(resolve_ty(reg, id0))
    roles = {"ty": ty, "id": id0, "info": EMPTY, "compact": NONE, "hint": A(HINT, "None"), "cyc": cyc}

    def body(o, i, r):
        ty, info = r["ty"], r["info"]
        it = info_from_ty(ty)
        empty = o.test(int_eq(length(F(it, INFO, None, "docs")), I(0))) and \
            o.test(int_eq(length(F(F(it, INFO, None, "path"), "scale_info::Path", None, "segments")), I(0)))
        if not empty:
            info = seq_push(info, it)
        r = dict(r, info=info)
        if not o.isv(C(HTY + "::from_type", ty), HTY, "None"):
            return "break", r
        td = F(ty, TYPE, None, "type_def")
        k = o.case(td, TD)
        if k == "Composite":
            fs = F(F(td, TD, k, 0), "scale_info::TypeDefComposite", None, "fields")
            if not o.test(int_eq(length(fs), I(1))):
                return "break", r
            f = elem(fs, I(0))
            inner = F(f, FIELD, None, "ty")
            cyc = check_id(o, r["cyc"], sym_id(inner), same_err)
            t2 = o.q(resolve_ty(reg, sym_id(inner)))
            h = r["hint"] if o.case(r["hint"], HINT) != "None" else C(SI + "Hint::from_field", f)
            return "next", dict(r, ty=t2, id=sym_id(inner), cyc=cyc, hint=h)
        if k == "Compact":
            no_compact(o, r["compact"], same_err)
            inner = F(F(td, TD, k, 0), "scale_info::TypeDefCompact", None, "type_param")
            cyc = check_id(o, r["cyc"], sym_id(inner), same_err)
            t2 = o.q(resolve_ty(reg, sym_id(inner)))
            return "next", dict(r, ty=t2, id=sym_id(inner), cyc=cyc, compact=Some(r["id"]))
        return "break", r
    r = o.loop(None, roles, body, "husk")
    return Ok(A(HUSKED, None, info=r["info"], ty=r["ty"], id=r["id"],
                checker=checker(specialty_set(r["compact"], r["hint"]), r["cyc"]))), {}


# ---- hints -------------------------------------------------------------------------------
FIELD_NAME_HINTS = [("nonce", "FieldNonce"), ("spec_version", "FieldSpecVersion"), ("spec_name", "FieldSpecName"),
                    ("tx_version", "FieldTxVersion"), ("transaction_version", "FieldTxVersion")]
BALANCE_TYPE_NAMES = ["Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance",
                      "PalletBalanceOf<T>", "T::Balance"]
EXT_HINTS = ["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce",
             "ChargeAssetTxPayment", "ChargeTransactionPayment"]
PATH_HINTS = ["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"]


def lookup(o, text, table):
    for k, v in table:
        if o.eq(text, S(k)):
            return v
    return None


def m_hint_from_field(o):
    f = IN(1)
    name, tn = F(f, FIELD, None, "name"), F(f, FIELD, None, "type_name")
    h = lookup(o, some(name), FIELD_NAME_HINTS) if o.some(name) else None
    if h is None and o.some(tn):
        h = lookup(o, some(tn), [(k, "FieldBalance") for k in BALANCE_TYPE_NAMES])
    return A(HINT, h or "None"), {}


def m_hint_from_ext_meta(o):
    ident = F(IN(1), "traits::SignedExtensionMetadata", None, "identifier")
    return A(HINT, lookup(o, ident, [(k, k) for k in EXT_HINTS]) or "None"), {}


def m_hint_from_path(o):
    ident, _ = path_ident(o, IN(1))
    h = lookup(o, ident, [(k, k) for k in PATH_HINTS]) if ident is not None else None
    return A(HINT, h or "None"), {}


def m_hint_unsigned(o):
    return hint_uint(o, IN(1)), {}


def m_hint_string(o):
    return hint_str(o, IN(1)), {}


def m_hint_hash(o):
    h = hint_h256(o, IN(1))
    return A(SH256, "None" if h == "H256" else h), {}


# ---- special types --------------------------------------------------------------------------
CRYPTO = {"ed25519": "Ed25519", "sr25519": "Sr25519", "ecdsa": "Ecdsa"}
PLAIN_IDENT = {"AccountId32": "AccountId32", "Era": "Era", "AccountId20": "H160", "H160": "H160", "H256": "H256",
               "H512": "H512", "MultiSignature": "MultiSignature", "Perbill": "Perbill", "Percent": "Percent",
               "Permill": "Permill", "Perquintill": "Perquintill", "PerU16": "PerU16"}
ITEM_IDENT = {"Call": "Call", "RuntimeCall": "Call", "Event": "Event", "RuntimeEvent": "Event"}


def is_ns(o, ns, want):
    if not o.test(int_eq(length(ns), I(len(want)))):
        return False
    return all(o.eq(elem(ns, I(i)), S(w)) for i, w in enumerate(want))


def m_hinted_from_type(o):
    ident, ns = path_ident(o, F(IN(1), TYPE, None, "path"))
    none = A(HTY, "None")
    if ident is None:
        return none, {}
    v = lookup(o, ident, list(PLAIN_IDENT.items()))
    if v:
        return A(HTY, v), {}
    v = lookup(o, ident, list(ITEM_IDENT.items()))
    if v:
        return A(HTY, "PalletSpecific", A(PSI, v)), {}
    for kind in ("Public", "Signature"):
        if o.eq(ident, S(kind)):
            for mod, suffix in CRYPTO.items():
                if is_ns(o, ns, ("sp_core", mod)):
                    return A(HTY, kind + suffix), {}
            return none, {}
    if o.eq(ident, S("UncheckedExtrinsic")):
        if is_ns(o, ns, ("sp_runtime", "generic", "unchecked_extrinsic")):
            return A(HTY, "UncheckedExtrinsic"), {}
    return none, {}


def pick(vs, data, pos):
    return C("decoding_sci::pick_variant", vs, data, EXT, pos)


def m_checked_from_type(o):
    ty, data, pos, reg = IN(1), IN(2), IN(4, "usize"), IN(5)
    h = C(HTY + "::from_type", ty)
    v = o.case(h, HTY)
    none = A(CTY, "None"), {4: pos}
    if v in ("None", "UncheckedExtrinsic"):
        return none
    if v not in ("MultiSignature", "PalletSpecific"):
        return A(CTY, v), {4: pos}
    td = F(ty, TYPE, None, "type_def")
    if not o.isv(td, TD, "Variant"):
        return none
    pv = pick(F(F(td, TD, "Variant", 0), "scale_info::TypeDefVariant", None, "variants"), data, pos)
    if not o.ok(pv):
        return none
    var = ok(pv)
    fs = F(var, VARIANT, None, "fields")
    if not o.test(int_eq(length(fs), I(1))):
        return none
    f = elem(fs, I(0))
    if v == "MultiSignature":
        s = o.case(C(SIG + "::from_field", f, EXT, reg), SIG)
        if s == "None":
            return none
        return A(CTY, "Signature" + s), {4: add(pos, I(1))}
    id_ = sym_id(F(f, FIELD, None, "ty"))
    it = resolve_ty(reg, id_)
    if not o.ok(it):
        return none
    inner = ok(it)
    h2 = C(HTY + "::from_type", inner)
    if not o.isv(h2, HTY, "PalletSpecific"):
        return none
    item = F(h, HTY, "PalletSpecific", 0)
    if not o.eq(item, F(h2, HTY, "PalletSpecific", 0)):
        return none
    td2 = F(inner, TYPE, None, "type_def")
    if not o.isv(td2, TD, "Variant"):
        return none
    return A(CTY, "PalletSpecific", pallet_name=F(var, VARIANT, None, "name"), pallet_info=info_from_ty(inner),
             pallet_variant=var, item_ty_id=id_,
             variants=F(F(td2, TD, "Variant", 0), "scale_info::TypeDefVariant", None, "variants"),
             item=item), {4: add(pos, I(1))}


def m_signature_from_field(o):
    f, reg = IN(1), IN(3)
    none = A(SIG, "None"), {}
    hk = C("decoding_sci::husk_type", F(f, FIELD, None, "ty"), reg, EXT, checker())
    if not o.ok(hk):
        return none
    td = F(F(ok(hk), HUSKED, None, "ty"), TYPE, None, "type_def")
    if not o.isv(td, TD, "Array"):
        return none
    arr_ = F(td, TD, "Array", 0)
    el = resolve_ty(reg, sym_id(F(arr_, "scale_info::TypeDefArray", None, "type_param")))
    if not o.ok(el):
        return none
    et = F(ok(el), TYPE, None, "type_def")
    if not o.isv(et, TD, "Primitive"):
        return none
    if not o.isv(F(et, TD, "Primitive", 0), TDP, "U8"):
        return none
    n = num(F(arr_, "scale_info::TypeDefArray", None, "len"), "u32")
    tn = F(f, FIELD, None, "type_name")
    if not o.some(tn):
        return none
    for text, size, v in (("ecdsa::Signature", 65, "Ecdsa"), ("ed25519::Signature", 64, "Ed25519"),
                          ("sr25519::Signature", 64, "Sr25519")):
        if o.eq(some(tn), S(text)):
            return (A(SIG, v), {}) if o.test(int_eq(n, I(size))) else none
    return none


# ---- eras ------------------------------------------------------------------------------------
ERA = "additional_types::Era"


def m_era_decode(o):
    rb = lambda x: C("parity_scale_codec::Input::read_byte", x)
    r1 = rb(IN(1))
    p1 = O(0, r1)
    first = num(o.q(r1), "u8")
    if o.test(int_eq(first, I(0))):
        return Ok(A(ERA, "Immortal")), {1: p1}
    r2 = rb(p1)
    p2 = O(0, r2)
    second = num(o.q(r2), "u8")
    # low four bits: log2(period) - 1; the rest: phase in units of max(period / 4096, 1)
    low = umod(first, 16, "u8")
    if not o.test(le(I(1), low)):
        o.ret(Err(ANY))
    period = shl1(add(low, I(1)))
    unit = udiv(period, 4096, "u64")
    if o.test(lt(unit, I(1))):
        unit = I(1)
    phase = settle(o.facts, mul(add(mulc(second, 16), udiv(first, 16, "u8")), unit))
    if o.test(lt(phase, period)):
        return Ok(A(ERA, "Mortal", period, phase)), {1: p2}
    o.ret(Err(ANY))


def m_era_encode(o):
    out = IN(2)
    if o.case(IN(1), ERA) == "Immortal":
        return mk("tup"), {2: O(0, C("parity_scale_codec::Output::push_byte", out, I(0)))}
    period, phase = (num(F(IN(1), ERA, "Mortal", i), "u64") for i in (0, 1))
    log = mk("op", "trailing_zeros", period)
    T.term_range.setdefault(log, (0, 64))
    unit = udiv(period, 4096, "u64")
    if o.test(lt(unit, I(1))):
        units = phase
    else:
        units = mk("op", "Div", phase, unit)
        note_type(units, "u64")
    low = sub(log, I(1))
    if o.test(lt(low, I(1))):
        low = I(1)
    elif o.test(lt(I(15), low)):
        low = I(15)
    v = add(low, umod(mulc(units, 16), 1 << 16))
    return mk("tup"), {2: O(1, C("parity_scale_codec::Encode::encode_to<u16>", v, out))}


TABLE = {
    "decoding_sci::pick_variant": m_pick_variant,
    "decoding_sci::find_bit_order_ty": m_find_bit_order_ty,
    "decoding_sci::husk_type": m_husk_type,
    SI + "Hint::from_field": m_hint_from_field,
    SI + "Hint::from_ext_meta": m_hint_from_ext_meta,
    SI + "Hint::from_path": m_hint_from_path,
    SI + "Hint::unsigned_integer": m_hint_unsigned,
    SI + "Hint::string": m_hint_string,
    SI + "Hint::hash256": m_hint_hash,
    SI + "SpecialtyTypeHinted::from_type": m_hinted_from_type,
    SI + "SpecialtyTypeChecked::from_type": m_checked_from_type,
    SI + "SignatureIndicator::from_field": m_signature_from_field,
    "<additional_types::Era as parity_scale_codec::Decode>::decode": m_era_decode,
    "<additional_types::Era as parity_scale_codec::Encode>::encode_to": m_era_encode,
}

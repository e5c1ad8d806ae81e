"""Reference behaviour: whole-input decoders, marked transactions, extensions,
unchecked extrinsics and storage entries."""
from .base import *

MD = "MarkedData"
AMD = "traits::AsMetadata::"
ACM = "traits::AsCompleteMetadata::"


# ---- whole input as a type -----------------------------------------------------
def decode_all(o, ty_symbol, data, registry, conv=None, inst=""):
    """Ok(value) | return Err"""
    d = dwt(symbol(ty_symbol), data, I(0), registry, inst=inst)
    v = o.q(d, conv)
    pos = dwt_pos(d)
    o.tag("consume")
    if not o.test(int_eq(pos, total_len(data))):
        e = A(PE, "SomeDataNotUsedBlob", **{"from": pos})
        o.ret(Err(conv(e) if conv else e))
    return v


def m_decode_all_as_type(o):
    return Ok(decode_all(o, IN(1), IN(2), IN(4))), {}


def m_decode_as_type_at_position(o):
    p = IN(5, "usize")
    d = dwt(symbol(IN(1)), IN(2), p, IN(4))
    v = o.q(d)
    return Ok(v), {5: dwt_pos(d)}


# ---- marked data -------------------------------------------------------------------
class Marked:
    """how MarkedData is read: derived from its public accessors"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.get = {}
        for f in ("data", "call_start", "extensions_start"):
            ps = ctx.paths("MarkedData::" + f)
            if len(ps) != 1 or ps[0].kind != "ret":
                raise Anchor("MarkedData::%s is no longer a plain accessor" % f)
            self.get[f] = ps[0].value

    def read(self, m, f):
        t = subst(self.get[f], {IN(1): m})
        if f != "data":
            note_type(t, "usize")
        return t


def mark_parts(o, data):
    """(call_start, extensions_start) or return Err(CutSignable)"""
    cut = Err(A(SE, "CutSignable"))
    o.tag("mark")
    fc = find_compact(data, I(0))
    if not o.ok(fc):
        o.ret(cut)
    start, n = fc_next(fc), fc_value(fc)
    end = add(start, n)
    if o.test(mk("ovf", "usize", end)):
        o.ret(cut)
    if not o.ok(read_slice(data, start, n)):
        o.ret(cut)
    return start, end


def m_mark(marked):
    def m(o):
        data = IN(1)
        start, end = mark_parts(o, data)

        def check(o, v):
            if not (v.op == "adt" and v.args[:2] == (RES, 0)):
                return "returns %s instead of the marked data" % show(v), {"extra-error"}
            got = v.args[2]
            for f, want in (("data", data), ("call_start", start), ("extensions_start", end)):
                x = marked.read(got, f)
                if not same(o.facts, x, want):
                    return "marks %s at %s instead of %s" % (f, show(x), show(want)), {f}
        return Pred(check), {}
    return m


def m_data_no_extensions(marked):
    def m(o):
        lim = C(AB + "limit_length", marked.read(IN(1), "data"), marked.read(IN(1), "extensions_start"))
        o.tag("confine")
        if not o.ok(lim):
            raise Infeasible()
        return ok(lim), {}
    return m


def decode_call(o, data, pos, md):
    """returns (call, position after)"""
    o.tag("call")
    call_ty = o.q(C(AMD + "call_ty", md), lambda e: A(SE, "MetaStructure", e))
    d = dwt(symbol(call_ty), data, pos, C(AMD + "types", md))
    v = o.q(d, lambda e: A(SE, "Parsing", e))
    pd = F(v, ED, None, "data")
    if not o.isv(pd, PD, "Call"):
        o.ret(Err(A(SE, "NotACall", sym_id(call_ty))))
    return F(pd, PD, "Call", 0), dwt_pos(d)


def m_decode_as_call_unmarked(o):
    c, p = decode_call(o, IN(1), IN(2, "usize"), IN(4))
    return Ok(c), {2: p}


def call_of_marked(o, data, start, end, md):
    lim = C(AB + "limit_length", data, end)
    if not o.ok(lim):
        raise Infeasible()          # excluded by construction of MarkedData
    o.tag("confine")
    c, p = decode_call(o, ok(lim), start, md)
    o.tag("consume")
    if not o.test(int_eq(p, end)):
        o.ret(Err(A(SE, "SomeDataNotUsedCall", **{"from": p, "to": end})))
    return c


def m_decode_as_call(marked):
    def spec(o):
        m = IN(1)
        return Ok(call_of_marked(o, marked.read(m, "data"), marked.read(m, "call_start"),
                                 marked.read(m, "extensions_start"), IN(3))), {}
    return spec


# ---- extensions -----------------------------------------------------------------------
SEM = "traits::SignedExtensionMetadata"
CE_FIELDS = ("era", "genesis", "block", "version")


def ext_prop(meta):
    return propagated(checker(specialty_set(hint=C("special_indicators::Hint::from_ext_meta", meta))))


def ext_decode(o, data, pos, md):
    o.tag("ext")
    reg = C(AMD + "types", md)
    se = o.q(C(AMD + "signed_extensions", md), lambda e: A(SE, "MetaStructure", e))
    n = length(se)
    cur = {"acc": EMPTY, "pos": pos}
    for which in ("ty", "additional_signed"):
        def body(o, i, r, which=which):
            meta = elem(se, i)
            d = dwt(symbol(F(meta, SEM, None, which)), data, r["pos"], reg, ext_prop(meta))
            v = o.q(d, lambda e: A(SE, "Parsing", e))
            return "next", {"acc": seq_push(r["acc"], v), "pos": dwt_pos(d)}
        cur = o.loop(n, cur, body, "extensions." + which)
    pos = cur["pos"]
    o.tag("consume")
    if not o.test(int_eq(pos, total_len(data))):
        o.ret(Err(A(SE, "SomeDataNotUsedExtensions", **{"from": pos})))
    return cur["acc"], pos


def twice(what):
    return Err(A(SE, "ExtensionsList", A(EE, what)))


def ext_collect(o, data, r):
    """one decoded extension value"""
    v = o.case(data, PD)
    if v == "Era":
        if o.some(r["era"]):
            o.ret(twice("EraTwice"))
        return dict(r, era=Some(F(data, PD, v, 0)))
    if v == "GenesisHash":
        if o.some(r["genesis"]):
            o.ret(twice("GenesisHashTwice"))
        return dict(r, genesis=Some(F(data, PD, v, 0)))
    if v == "BlockHash":
        if o.some(r["block"]):
            o.ret(twice("BlockHashTwice"))
        return dict(r, block=Some(F(data, PD, v, 0)))
    if v in ("PrimitiveU8", "PrimitiveU16", "PrimitiveU32", "PrimitiveU64", "PrimitiveU128"):
        if o.isv(F(data, PD, v, "specialty"), SUI, "SpecVersion"):
            if o.some(r["version"]):
                o.ret(twice("SpecVersionTwice"))
            return dict(r, version=Some(int_text(num(F(data, PD, v, "value"), v[9:].lower()), v[9:].lower())))
    return r


def int_text(t, ty):
    return mk("disp", t, "int")


def ext_check(o, exts, version, gen):
    o.tag("gate")
    n = length(exts)
    init = {k: NONE for k in CE_FIELDS}

    def body(o, i, r):
        d = F(elem(exts, i), ED, None, "data")
        if o.isv(d, PD, "Composite"):
            fs = F(d, PD, "Composite", 0)
            if not o.test(int_eq(length(fs), I(1))):
                return "next", r
            d = F(F(elem(fs, I(0)), "cards::FieldData", None, "data"), ED, None, "data")
        return "next", ext_collect(o, d, r)
    r = o.loop(n, init, body, "check")
    if not o.some(r["version"]):
        o.ret(twice("NoSpecVersion"))
    found = some(r["version"])
    if not o.eq(found, version):
        o.ret(Err(A(SE, "WrongSpecVersion", as_decoded=found, in_metadata=version)))
    if not o.some(r["genesis"]):
        o.ret(twice("NoGenesisHash"))
    g = some(r["genesis"])
    if o.some(gen):
        if not o.eq(g, some(gen)):
            o.ret(Err(A(SE, "WrongGenesisHash", as_decoded=g, expected=some(gen))))
    if o.some(r["era"]) and o.isv(some(r["era"]), ERA, "Immortal") and o.some(r["block"]):
        if not o.eq(g, some(r["block"])):
            o.ret(Err(A(SE, "ImmortalHashMismatch")))


def extensions(o, data, pos, md, gen):
    exts, p = ext_decode(o, data, pos, md)
    snv = o.q(C(AMD + "spec_name_version", md), lambda e: A(SE, "MetaStructure", e))
    ext_check(o, exts, F(snv, "traits::SpecNameVersion", None, "printed_spec_version"), gen)
    return exts, p


def m_decode_extensions_unmarked(o):
    e, p = extensions(o, IN(1), IN(2, "usize"), IN(4), IN(5))
    return Ok(e), {2: p}


def m_decode_extensions(marked):
    def spec(o):
        m = IN(1)
        e, p = extensions(o, marked.read(m, "data"), marked.read(m, "extensions_start"), IN(3), IN(4))
        return Ok(e), {}
    return spec


def sub_result(fn):
    """run a model as an expression yielding a Result term"""
    try:
        return Ok(fn())
    except SpecReturn as e:
        return e.v


def m_parse_transaction(o):
    data, md, gen = IN(1), IN(3), IN(4)
    start, end = mark_parts(o, data)
    exts, _ = extensions(o, data, end, md, gen)
    call = sub_result(lambda: call_of_marked(o, data, start, end, md))
    return Ok(A("TransactionParsed", None, call_result=call, extensions=exts)), {}


def m_parse_transaction_unmarked(o):
    data, md, gen = IN(1), IN(3), IN(4)
    call, p = decode_call(o, data, I(0), md)
    exts, _ = extensions(o, data, p, md, gen)
    return Ok(A("TransactionUnmarkedParsed", None, call=call, extensions=exts)), {}


# ---- unchecked extrinsics -----------------------------------------------------------------
UX = "unchecked_extrinsic::UncheckedExtrinsic"
ETP = "traits::ExtrinsicTypeParams"


def m_unchecked(o):
    data, md = IN(1), IN(3)
    meta = lambda e: A(UE, "MetaStructure", e)
    parsing = lambda e: A(UE, "Parsing", e)
    o.tag("envelope")
    params = o.q(C(ACM + "extrinsic_type_params", md), meta)
    reg = C(AMD + "types", md)
    fc = find_compact(data, I(0))
    if not o.ok(fc):
        o.ret(Err(A(UE, "FormatNoCompact")))
    start, n = fc_next(fc), fc_value(fc)
    end, ln = add(start, n), total_len(data)
    if o.test(lt(ln, end)):
        o.ret(Err(parsing(parser_buffer(A(BE, "DataTooShort", position=ln, minimal_length=sub(end, ln))))))
    if o.test(lt(end, ln)):
        o.ret(Err(parsing(A(PE, "SomeDataNotUsedBlob", **{"from": end}))))
    vb = o.q(read_byte(data, start), lambda e: parsing(parser_buffer(e)))
    note_type(vb, "u8")
    ver = num(o.q(C(ACM + "extrinsic_version", md), meta), "u8")
    # lower seven bits are the version, the top bit tells signed from unsigned
    if not o.test(int_eq(umask(vb, 127, "u8"), ver)):
        o.ret(Err(A(UE, "VersionMismatch", version_byte=vb, version=ver)))
    o.tag("parts")
    signed = not o.test(int_eq(umask(vb, 128, "u8"), I(0)))
    pos = add(start, I(1))
    parts = {}
    for f in (("address", "signature", "extra") if signed else ()):
        d = dwt(symbol(F(params, ETP, None, f + "_ty")), data, pos, reg)
        parts[f] = o.q(d, parsing)
        pos = dwt_pos(d)
    cty = F(params, ETP, None, "call_ty")
    d = dwt(symbol(cty), data, pos, reg)
    v = o.q(d, parsing)
    pd = F(v, ED, None, "data")
    if not o.isv(pd, PD, "Call"):
        o.ret(Err(A(UE, "UnexpectedCallTy", call_ty_id=sym_id(cty))))
    call = F(pd, PD, "Call", 0)
    pos = dwt_pos(d)
    if not o.test(int_eq(pos, ln)):
        return MustFail("bytes left inside the envelope after the call are silently ignored (%s)" % (
            "signed" if signed else "unsigned"), "trailing"), {}
    if signed:
        return Ok(A(UX, "Signed", call=call, **parts)), {}
    return Ok(A(UX, "Unsigned", call=call)), {}


# ---- storage ---------------------------------------------------------------------------------
SH = "frame_metadata::v14::StorageHasher"
SET = "frame_metadata::v14::StorageEntryType"
SEMD = "frame_metadata::v14::StorageEntryMetadata"
KD = "storage_data::KeyData"
KP = "storage_data::KeyPart"
HASHERS = {
    # hasher: (hash length, bare-hash variant or hash function applied to the decoded bytes)
    "Blake2_128": (16, "Blake2_128"),
    "Blake2_256": (32, "Blake2_256"),
    "Twox128": (16, "Twox128"),
    "Twox256": (32, "Twox256"),
    "Blake2_128Concat": (16, "sp_crypto_hashing::blake2_128"),
    "Twox64Concat": (8, "sp_crypto_hashing::twox_64"),
    "Identity": (0, None),
}


def key_part(o, hasher, ty, data, pos, reg):
    h = o.case(hasher, SH)
    o.tag("key-part")
    if h not in HASHERS:
        raise Mismatch("storage hasher %s has no specified layout" % h)
    n, kind = HASHERS[h]
    key = lambda e: A(ST, "ParsingKey", e)
    if n:
        hs = o.q(read_slice(data, pos, I(n)), lambda e: key(parser_buffer(e)))
        pos = add(pos, I(n))
        if not kind.startswith("sp_"):
            return A(KP, "Hash", A("storage_data::HashData", None,
                                   hash=A("storage_data::Hash", kind, hs), type_id=sym_id(ty))), pos
    d = dwt(symbol(ty), data, pos, reg)
    v = o.q(d, key)
    after = dwt_pos(d)
    if n:
        again = o.q(read_slice(data, pos, sub(after, pos)), lambda e: key(parser_buffer(e)))
        if not o.eq(hs, C(kind, again)):
            o.ret(Err(A(ST, "KeyPartHashMismatch")))
    return A(KP, "Parsed", v), after


def mapped_key(o, hashers, key_ty, data, pos, reg):
    nh = length(hashers)
    if o.test(int_eq(nh, I(1))):
        part, pos = key_part(o, elem(hashers, I(0)), key_ty, data, pos, reg)
        out = A(KD, "SingleHash", content=part)
    else:
        ty = o.q(resolve_ty(reg, sym_id(key_ty)), lambda e: A(ST, "ParsingKey", parser_registry(e)))
        td = F(ty, TYPE, None, "type_def")
        if not o.isv(td, TD, "Tuple"):
            o.ret(Err(A(ST, "MultipleHashesNotATuple")))
        fields = F(F(td, TD, "Tuple", 0), "scale_info::TypeDefTuple", None, "fields")
        if not o.test(int_eq(length(fields), nh)):
            o.ret(Err(A(ST, "MultipleHashesNumberMismatch")))

        def body(o, i, r):
            part, p = key_part(o, elem(hashers, i), elem(fields, i), data, r["pos"], reg)
            return "next", {"acc": seq_push(r["acc"], part), "pos": p}
        r = o.loop(length(fields), {"acc": EMPTY, "pos": pos}, body, "key parts")
        pos = r["pos"]
        out = A(KD, "TupleHash", content=r["acc"], info=info_from_ty(ty))
    o.tag("consume")
    if not o.test(int_eq(pos, total_len(data))):
        o.ret(Err(A(ST, "KeyPartsUnused")))
    return out


def m_process_key_mapped(o):
    return Ok(mapped_key(o, IN(1), IN(2), IN(3), IN(5, "usize"), IN(6))), {}


def m_storage_entry(o):
    key_in, val_in, entry, reg = IN(1), IN(2), IN(4), IN(5)
    docs = C("cards::Documented::collect_docs<frame_metadata::v14::StorageEntryMetadata<scale_info::form::PortableForm>>", entry)
    n = total_len(key_in)
    o.tag("prefix")
    if o.test(lt(n, I(32))):
        o.ret(Err(A(ST, "KeyShorterThanPrefix")))
    ty = F(entry, SEMD, None, "ty")
    val = lambda e: A(ST, "ParsingValue", e)
    o.tag("value")
    if o.isv(ty, SET, "Plain"):
        if not o.test(int_eq(n, I(32))):
            o.ret(Err(A(ST, "PlainKeyExceedsPrefix")))
        key = A(KD, "Plain")
        v = decode_all(o, F(ty, SET, "Plain", 0), val_in, reg, val)
    else:
        key = mapped_key(o, F(ty, SET, "Map", "hashers"), F(ty, SET, "Map", "key"), key_in, I(32), reg)
        v = decode_all(o, F(ty, SET, "Map", "value"), val_in, reg, val)
    return Ok(A("storage_data::Storage", None, key=key, value=v, docs=docs)), {}

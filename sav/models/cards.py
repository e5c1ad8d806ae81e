"""Reference behaviour: rendering decoded data into cards and text."""
from .types import *
from .. import terms
from ..builtins import concat, cat, strrep

PC = "cards::ParserCard"
EC = "cards::ExtendedCard"
INFO = "cards::Info"
FLAT = "cards::InfoFlat"
FIELD = "cards::FieldData"
PSD = "cards::PalletSpecificData"
SPECS = "ShortSpecs"
SEQ = "cards::Sequence"
STRI = "special_indicators::SpecialtyStr"


def tab(n, f):
    return mk("tab", n, f(mk("bound")))


def card(c, indent, info):
    return A(EC, None, parser_card=c, indent=indent, info_flat=info)


def flatten(i):
    return C("cards::Info::flatten", i)


def flat_all(infos):
    return tab(length(infos), lambda b: flatten(elem(infos, b)))


def docs_only(o, docs):
    if o.test(int_eq(length(docs), I(0))):
        return EMPTY
    return arr(A(FLAT, None, docs=Some(docs), path_flat=NONE))


class Style:
    """what is passed down unchanged while rendering"""

    def __init__(self, specs, name):
        self.specs, self.name = specs, name

    def data(self, d, info, indent, bal):
        return C("cards::ParsedData::card", d, info, indent, bal, self.specs, self.name)

    def ext(self, d, indent, bal):
        return C("cards::ExtendedData::card", d, indent, bal, self.specs, self.name)


def single_unnamed(o, fields):
    """is there exactly one field, without a name"""
    if not o.test(int_eq(length(fields), I(1))):
        return False
    return not o.some(F(elem(fields, I(0)), FIELD, None, "field_name"))


def unnamed(o, st, f, info, indent, bal):
    """the only field, unnamed, is shown in place with its docs and type info"""
    o.tag("single-field")
    docs = F(f, FIELD, None, "field_docs")
    ext = F(f, FIELD, None, "data")
    info = concat(concat(info, docs_only(o, docs)), flat_all(F(ext, ED, None, "info")))
    return st.data(F(ext, ED, None, "data"), info, indent, bal)


def field_set(o, st, out, fields, indent, bal):
    """each field: its name or number with its docs, then its value one step deeper"""
    o.tag("field-set")

    def body(o, i, r):
        f = elem(fields, i)
        name = F(f, FIELD, None, "field_name")
        c = A(PC, "FieldName", some(name)) if o.some(name) else A(PC, "FieldNumber", add(i, I(1)))
        head = card(c, indent, docs_only(o, F(f, FIELD, None, "field_docs")))
        return "next", {"out": concat(push(r["out"], head), st.ext(F(f, FIELD, None, "data"), add(indent, I(1)), bal))}
    return o.loop(length(fields), {"out": out}, body, "fields")["out"]


def push(a, x):
    return seq_push(a, x)


def fields_at(o, st, out, fields, indent, bal):
    if single_unnamed(o, fields):
        return concat(out, unnamed(o, st, elem(fields, I(0)), EMPTY, indent, bal))
    return field_set(o, st, out, fields, indent, bal)


# ---- one value -----------------------------------------------------------------------
PLAIN = (["BitVecU%d%s" % (n, e) for n in (8, 16, 32, 64) for e in ("Lsb0", "Msb0")]
         + ["BlockHash", "Era", "GenesisHash", "H160", "H256", "H512", "PerU16", "Percent", "Permill", "Perbill",
            "Perquintill", "PrimitiveBool", "PrimitiveChar", "PrimitiveI8", "PrimitiveI16", "PrimitiveI32",
            "PrimitiveI64", "PrimitiveI128", "PrimitiveI256", "PrimitiveU256", "SignatureEd25519",
            "SignatureSr25519", "SignatureEcdsa"])
IDS = {"Id": ("substrate_crypto_light::common::AccountId32", "from_account_id32"),
       "PublicEd25519": ("substrate_crypto_light::ed25519::Public", "from_public_ed25519"),
       "PublicSr25519": ("substrate_crypto_light::sr25519::Public", "from_public_sr25519"),
       "PublicEcdsa": ("substrate_crypto_light::ecdsa::Public", "from_public_ecdsa")}
WIDTHS = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "U128": "u128"}


def text_of(v):
    return mk("disp", v, "int")


def pretty(v, ty, st):
    return C("printing_balance::AsBalance::convert_balance_pretty<%s>" % ty, v, F(st.specs, SPECS, None, "decimals"),
             F(st.specs, SPECS, None, "unit"))


def integer(o, st, k, x, bal):
    w = k[len("Primitive"):]
    ty = WIDTHS[w]
    v = num(F(x, PD, k, "value"), ty)
    s = o.case(F(x, PD, k, "specialty"), SUI)
    o.tag("integer")
    if s == "None":
        return A(PC, k, v)
    if s == "Balance":
        o.tag("balance")
        if o.test(bal):
            return A(PC, "Balance", pretty(v, ty, st))
        return A(PC, "BalanceRaw", text_of(v))
    if s == "Tip":
        o.tag("balance")
        return A(PC, "Tip", pretty(v, ty, st))
    if s == "SpecVersion":
        return A(PC, "NameSpecVersion", name=st.name, version=text_of(v))
    return A(PC, s, text_of(v))


def utf8(o, bytes_):
    r = C("std::string::String::from_utf8", bytes_)
    return Some(ok(r)) if o.ok(r) else NONE


def bytes_card(o, bytes_, info):
    return A(PC, "SequenceU8", hex=mk("hex", bytes_), text=utf8(o, bytes_), element_info_flat=info)


def m_id(ty):
    def m(o):
        v = IN(1)
        parts = {"base58": C("substrate_crypto_light::common::AsBase58::to_base58_string<%s>" % ty, v, num(IN(2), "u16"))}
        if "identicon" in [f[0] for f in terms.ADTS["cards::IdData"]["v"][0]["f"]]:      # only with std
            parts["identicon"] = C("plot_icon::generate_png_scaled_default", F(v, ty, None, 0))
        return A("cards::IdData", None, **parts), {}
    return m


def m_parsed_data(o):
    x, info, indent, bal = IN(1), IN(2), IN(3, "u32"), IN(4)
    st = Style(IN(5), IN(6))
    one = lambda c: arr(card(c, indent, info))
    k = o.case(x, PD)
    if k in PLAIN:
        o.tag("plain")
        return one(A(PC, k, F(x, PD, k, 0))), {}
    if k in IDS:
        o.tag("account")
        v = F(x, PD, k, 0)
        ty, fn = IDS[k]
        return one(A(PC, k, C("cards::IdData::" + fn, v, F(st.specs, SPECS, None, "base58prefix")))), {}
    if k in ("Call", "Event"):
        o.tag("pallet")
        return C("cards::%s::card" % k, F(x, PD, k, 0), indent, st.specs, st.name), {}
    if k == "EmptyEnum":
        return one(A(PC, "EmptyEnum")), {}
    if k.startswith("PrimitiveU"):
        return one(integer(o, st, k, x, bal)), {}
    if k == "Text":
        o.tag("text")
        t = F(x, PD, k, "text")
        return one(A(PC, "SpecName" if o.case(F(x, PD, k, "specialty"), STRI) == "SpecName" else "Text", t)), {}
    if k == "Composite":
        o.tag("composite")
        fs = F(x, PD, k, 0)
        if o.test(int_eq(length(fs), I(0))):
            return EMPTY, {}
        if single_unnamed(o, fs):
            return unnamed(o, st, elem(fs, I(0)), info, indent, bal), {}
        return field_set(o, st, one(A(PC, "CompositeAnnounced", length(fs))), fs, add(indent, I(1)), bal), {}
    if k == "Tuple":
        o.tag("tuple")
        es = F(x, PD, k, 0)
        if o.test(int_eq(length(es), I(0))):
            return EMPTY, {}
        return each(o, one(A(PC, "TupleAnnounced", length(es))), length(es), lambda i: st.ext(
            elem(es, i), add(indent, I(1)), bal)), {}
    if k == "SequenceRaw":
        o.tag("sequence")
        r = F(x, PD, k, 0)
        es = F(r, "cards::SequenceRawData", None, "data")
        out = one(A(PC, "SequenceAnnounced", len=length(es),
                    element_info_flat=flat_all(F(r, "cards::SequenceRawData", None, "element_info"))))
        return each(o, out, length(es), lambda i: st.data(elem(es, i), EMPTY, add(indent, I(1)), bal)), {}
    if k == "Sequence":
        o.tag("sequence")
        r = F(x, PD, k, 0)
        q = F(r, "cards::SequenceData", None, "data")
        ei = flat_all(F(r, "cards::SequenceData", None, "element_info"))
        s = o.case(q, SEQ)
        if s == "U8":
            return one(bytes_card(o, F(q, SEQ, s, 0), ei)), {}
        if s == "VecU8":
            vs = F(q, SEQ, s, "sequence")
            inner = flat_all(F(q, SEQ, s, "inner_element_info"))

            def body(o, i, r):
                return "next", {"out": push(r["out"], card(bytes_card(o, elem(vs, i), inner), add(indent, I(1)), EMPTY))}
            out = one(A(PC, "SequenceAnnounced", len=length(vs), element_info_flat=ei))
            return o.loop(length(vs), {"out": out}, body, "byte vectors")["out"], {}
        vs = F(q, SEQ, s, 0)
        out = one(A(PC, "SequenceAnnounced", len=length(vs), element_info_flat=ei))
        return each1(o, out, length(vs), lambda i: card(A(PC, "Primitive" + s, num(elem(vs, i), WIDTHS[s])),
                                                      add(indent, I(1)), EMPTY)), {}
    if k == "Variant":
        o.tag("variant")
        v = F(x, PD, k, 0)
        g = lambda f: F(v, "cards::VariantData", None, f)
        out = arr(card(A(PC, "EnumAnnounced"), indent, info),
                  card(A(PC, "EnumVariantName", g("variant_name")), add(indent, I(1)), docs_only(o, g("variant_docs"))))
        return fields_at(o, st, out, g("fields"), add(indent, I(2)), bal), {}
    raise Mismatch("unknown kind of decoded data: %s" % k, {"*"})


def each(o, out, n, f):
    def body(o, i, r):
        return "next", {"out": concat(r["out"], f(i))}
    return o.loop(n, {"out": out}, body, "elements")["out"]


def each1(o, out, n, f):
    return concat(out, tab(n, f))


def m_extended_data(o):
    d = IN(1)
    return C("cards::ParsedData::card", F(d, ED, None, "data"), flat_all(F(d, ED, None, "info")), IN(2, "u32"),
             IN(3), IN(4), IN(5)), {}


BALANCE_PALLETS = ("Balances", "Staking")


def m_pallet(kind):
    def m(o):
        d = F(IN(1), "cards::" + kind, None, 0)
        indent = IN(2, "u32")
        st = Style(IN(3), IN(4))
        g = lambda f: F(d, PSD, None, f)
        o.tag("pallet")
        out = arr(card(A(PC, "PalletName", g("pallet_name")), indent, arr(flatten(g("pallet_info")))),
                  card(A(PC, kind + "Name", g("variant_name")), add(indent, I(1)), docs_only(o, g("variant_docs"))))
        o.tag("balance-pallet")
        bal = any(o.eq(g("pallet_name"), S(p)) for p in BALANCE_PALLETS)
        return fields_at(o, st, out, g("fields"), add(indent, I(2)), I(1 if bal else 0)), {}
    return m


# ---- info ------------------------------------------------------------------------------
def m_flatten(o):
    i = IN(1)
    docs = F(i, INFO, None, "docs")
    seg = F(F(i, INFO, None, "path"), "scale_info::Path", None, "segments")
    d = NONE if o.test(int_eq(length(docs), I(0))) else Some(docs)
    p = NONE if o.test(int_eq(length(seg), I(0))) else Some(mk("join", seg, S(" >> ")))
    return A(FLAT, None, docs=d, path_flat=p), {}


def m_info_from_ty(o):
    t = IN(1)
    docs = C("cards::Documented::collect_docs<%s>" % DOCUMENTED[0], t)
    return A(INFO, None, docs=docs, path=F(t, TYPE, None, "path")), {}


DOCUMENTED = ["scale_info::Type<scale_info::form::PortableForm>", "scale_info::Field<scale_info::form::PortableForm>",
              "scale_info::Variant<scale_info::form::PortableForm>",
              "frame_metadata::v14::StorageEntryMetadata<scale_info::form::PortableForm>"]


def m_docs(ty):
    return lambda o: (mk("join", F(IN(1), ty.split("<")[0], None, "docs"), S("\n")), {})


def m_info_display(o):
    x = IN(1)

    def g(f):
        v = F(x, FLAT, None, f)
        return some(v) if o.some(v) else S("None")
    t = S("(docs: ")
    for part in (g("docs"), S(", path: "), g("path_flat"), S(")")):
        t = cat(t, part)
    return Ok(tup()), {2: cat(IN(2), t)}


def m_info_empty(o):
    i = IN(1)
    seg = F(F(i, INFO, None, "path"), "scale_info::Path", None, "segments")
    a = o.test(int_eq(length(F(i, INFO, None, "docs")), I(0)))
    b = o.test(int_eq(length(seg), I(0)))
    return I(1 if a and b else 0), {}


# ---- text -------------------------------------------------------------------------------
def line(indent, head, *parts):
    t = cat(strrep(S("  "), indent), S(head))
    for i, p in enumerate(parts):
        t = cat(t, S(": ")) if i == 0 else t
        t = cat(t, S(p) if isinstance(p, str) else p)
    return t


NAMED = {"BalanceRaw": "Balance Raw", "CallName": "Call", "EnumVariantName": "Enum Variant Name",
         "EventName": "Event", "FieldName": "Field Name", "Nonce": "Nonce", "PalletName": "Pallet",
         "SpecName": "Spec Name", "Text": "Text", "TipAsset": "Tip Asset", "TxVersion": "Tx Version"}
MONEY = {"Balance": "Balance", "Tip": "Tip"}
HASHES = {"BlockHash": ("Block Hash", "primitive_types::H256"), "GenesisHash": ("Genesis Hash", "primitive_types::H256"),
          "H160": ("H160", "primitive_types::H160"), "H256": ("H256", "primitive_types::H256"),
          "H512": ("H512", "primitive_types::H512"),
          "SignatureEd25519": ("Signature Ed25519", "substrate_crypto_light::ed25519::Signature"),
          "SignatureSr25519": ("Signature Sr25519", "substrate_crypto_light::sr25519::Signature"),
          "SignatureEcdsa": ("Signature Ecdsa", "substrate_crypto_light::ecdsa::Signature")}
ID_NAMES = {"Id": "Id", "PublicEd25519": "PublicKey Ed25519", "PublicSr25519": "PublicKey Sr25519",
            "PublicEcdsa": "PublicKey Ecdsa"}
FRACTIONS = {"PerU16": "u16", "Percent": "u8", "Permill": "u32", "Perbill": "u32", "Perquintill": "u64"}
COUNTED = {"CompositeAnnounced": ("Struct", " field(s)"), "TupleAnnounced": ("Tuple", " element(s)")}


def shown(o, x):
    """text of one card without type information"""
    n = num(F(x, EC, None, "indent"), "u32")
    c = F(x, EC, None, "parser_card")
    k = o.case(c, PC)
    o.tag("show." + k)
    v = lambda f=0: F(c, PC, k, f)
    if k in NAMED:
        return line(n, NAMED[k], v())
    if k in MONEY:
        cur = "printing_balance::Currency"
        return line(n, MONEY[k], F(v(), cur, None, "number"), " ", F(v(), cur, None, "units"))
    if k in HASHES:
        name, ty = HASHES[k]
        return line(n, name, mk("hex", F(v(), ty, None, 0)))
    if k in ID_NAMES:
        return line(n, ID_NAMES[k], F(v(), "cards::IdData", None, "base58"))
    if k in FRACTIONS:
        parts = C("sp_arithmetic::%s::deconstruct" % k, v())
        return line(n, k, mk("disp", parts, "int"))
    if k in COUNTED:
        a, b = COUNTED[k]
        return line(n, a, mk("disp", num(v()), "int"), b)
    if k.startswith("BitVec"):
        w, order = k[7:-4], k[-4:]
        return line(n, "BitVec<u%s, %s>" % (w, order), mk("disp", v(), "bitvec::vec::BitVec"))
    if k == "EmptyEnum":
        return cat(strrep(S("  "), n), S("Enum With No Variants"))
    if k == "EnumAnnounced":
        return cat(strrep(S("  "), n), S("Enum"))
    if k == "Era":
        e = o.case(v(), ERA)
        if e == "Immortal":
            return line(n, "Era", "Immortal")
        return line(n, "Era", "Mortal, phase: ", mk("disp", num(F(v(), ERA, e, 1), "u64"), "int"), ", period: ",
                    mk("disp", num(F(v(), ERA, e, 0), "u64"), "int"))
    if k == "FieldNumber":
        return line(n, "Field Number", mk("disp", num(v()), "int"))
    if k == "NameSpecVersion":
        return line(n, "Chain", v("name"), v("version"))
    if k == "SequenceAnnounced":
        return line(n, "Sequence", mk("disp", num(v("len")), "int"), " element(s)")
    if k == "SequenceU8":
        if o.some(v("text")):
            return line(n, "Text", some(v("text")))
        return line(n, "Sequence u8", v("hex"))
    if k == "PrimitiveBool":
        return line(n, "Bool", mk("disp", v(), "bool"))
    if k == "PrimitiveChar":
        return line(n, "Char", mk("disp", v(), "char"))
    if k == "PrimitiveI256":
        return line(n, "BigInt", mk("disp", v(), "num_bigint::BigInt"))
    if k == "PrimitiveU256":
        return line(n, "BigUint", mk("disp", v(), "num_bigint::BigUint"))
    ty = k[len("Primitive"):].lower()
    return line(n, ty, mk("disp", num(v(), ty), "int"))


def m_show(o):
    return shown(o, IN(1)), {}


def m_show_with_docs(o):
    x = IN(1)
    n = num(F(x, EC, None, "indent"), "u32")
    infos = F(x, EC, None, "info_flat")
    o.tag("info")

    def body(o, i, r):
        t = cat(cat(r["t"], cat(S("\n"), strrep(S("  "), n))), mk("disp", elem(infos, i), FLAT))
        return "next", {"t": t}
    tail_ = o.loop(length(infos), {"t": S("")}, body, "type info")["t"]
    c = F(x, EC, None, "parser_card")
    for k in ("SequenceAnnounced", "SequenceU8"):
        if o.isv(c, PC, k):
            o.tag("element-info")
            ei = F(c, PC, k, "element_info_flat")
            if k == "SequenceAnnounced":
                head, what = "Sequence", cat(mk("disp", num(F(c, PC, k, "len")), "int"), S(" element(s)"))
            elif o.some(F(c, PC, k, "text")):
                head, what = "Text", some(F(c, PC, k, "text"))
            else:
                head, what = "Sequence u8", F(c, PC, k, "hex")
            if not o.test(int_eq(length(ei), I(0))):
                parts = mk("join", tab(length(ei), lambda b: mk("disp", elem(ei, b), FLAT)), S(","))
                what = cat(cat(cat(what, S(", element info: [")), parts), S("]"))
            return cat(line(n, head, what), tail_), {}
    return cat(C("cards::ExtendedCard::show", x), tail_), {}


def m_show_all(fn):
    def m(o):
        cards = C("cards::ExtendedData::card", IN(1), IN(2, "u32"), IN(3), IN(4), IN(5))
        return mk("join", tab(length(cards), lambda b: C("cards::ExtendedCard::" + fn, elem(cards, b))), S("\n")), {}
    return m


# ---- whole transactions ----------------------------------------------------------------
def extension_cards(o, ty):
    """the cards of every extension, one after another, in order"""
    exts = F(IN(1), ty, None, "extensions")

    def body(o, i, r):
        return "next", {"cards": concat(r["cards"], C("cards::ExtendedData::card", elem(exts, i), I(0), TRUE,
                                                      IN(2), IN(3)))}
    return o.loop(length(exts), {"cards": arr()}, body, "extensions")["cards"]


def m_transaction(o):
    o.tag("extensions")
    exts = extension_cards(o, "TransactionParsed")
    o.tag("call_result")
    r = F(IN(1), "TransactionParsed", None, "call_result")
    if o.isv(r, "core::result::Result", "Ok"):
        r = Ok(C("cards::Call::card", F(r, "core::result::Result", "Ok", 0), I(0), IN(2), IN(3)))
    return A("TransactionCarded", None, call_result=r, extensions=exts), {}


def m_transaction_unmarked(o):
    o.tag("extensions")
    exts = extension_cards(o, "TransactionUnmarkedParsed")
    o.tag("call")
    c = C("cards::Call::card", F(IN(1), "TransactionUnmarkedParsed", None, "call"), I(0), IN(2), IN(3))
    return A("TransactionUnmarkedCarded", None, call=c, extensions=exts), {}


TABLE = {
    "TransactionParsed::card": m_transaction,
    "TransactionUnmarkedParsed::card": m_transaction_unmarked,
    "cards::ParsedData::card": m_parsed_data,
    "cards::ExtendedData::card": m_extended_data,
    "cards::Call::card": m_pallet("Call"),
    "cards::Event::card": m_pallet("Event"),
    "cards::Info::flatten": m_flatten,
    "cards::Info::from_ty": m_info_from_ty,
    "cards::Info::is_empty": m_info_empty,
    "<cards::InfoFlat as core::fmt::Display>::fmt": m_info_display,
    "cards::ExtendedCard::show": m_show,
    "cards::ExtendedCard::show_with_docs": m_show_with_docs,
    "cards::ExtendedData::show": m_show_all("show"),
    "cards::ExtendedData::show_with_docs": m_show_all("show_with_docs"),
}
for _k, (_ty, _fn) in IDS.items():
    TABLE["cards::IdData::" + _fn] = m_id(_ty)
for _ty in DOCUMENTED:
    TABLE["<%s as cards::Documented>::collect_docs" % _ty] = m_docs(_ty)

"""Reference behaviour: what is read from V14 and V15 runtime metadata."""
from .types import *
from . import top

RM = {"14": "frame_metadata::v14::RuntimeMetadataV14", "15": "frame_metadata::v15::RuntimeMetadataV15"}
EX = {"14": "frame_metadata::v14::ExtrinsicMetadata", "15": "frame_metadata::v15::ExtrinsicMetadata"}
PALLET = {"14": "frame_metadata::v14::PalletMetadata", "15": "frame_metadata::v15::PalletMetadata"}
SEMD = {"14": "frame_metadata::v14::SignedExtensionMetadata", "15": "frame_metadata::v15::SignedExtensionMetadata"}
CONSTANT = "frame_metadata::v14::PalletConstantMetadata"
E14 = "error::MetaStructureErrorV14"
MVE = "error::MetaVersionErrorPallets"
SNV = "traits::SpecNameVersion"
ETP = "traits::ExtrinsicTypeParams"


def m_resolve_ty(o):
    id_ = IN(2, "u32")
    r = C("scale_info::PortableRegistry::resolve", IN(1), id_)
    if not o.some(r):
        return Err(internal("TypeNotResolved", id=id_)), {}
    return Ok(some(r)), {}


def resolve(o, reg, id_):
    r = C("scale_info::PortableRegistry::resolve", reg, id_)
    if not o.some(r):
        o.ret(Err(A(E14, "ExtrinsicTypeNotResolved", A(RIE, "TypeNotResolved", id=id_))))
    return some(r)


# ---- spec name and version ------------------------------------------------------------
STYLES = ("pair", "ref", "rev", "first", "first ref")


def constant_of(o, pallets, ver, bad, style="pair"):
    """data and type of the constant `Version` of the first pallet `System`

    style: what the search keeps: the last pair itself, the last constant, the first match from the
    end; or the first (nothing says which of several constants of one name counts)
    """
    o.tag("version-constant")

    def find(o, i, r):
        p = elem(pallets, i)
        if o.eq(F(p, PALLET[ver], None, "name"), S("System")):
            return "break", {"p": Some(p)}
        return "next", r
    r = o.loop(length(pallets), {"p": NONE}, find, "pallets")
    if not o.some(r["p"]):
        o.ret(Err(bad("NoSystemPallet")))
    cs = F(some(r["p"]), PALLET[ver], None, "constants")

    pair = style in ("pair", "first")

    def both(c):
        return tup(F(c, CONSTANT, None, "value"), F(c, CONSTANT, None, "ty"))

    def const(o, i, r):
        c = elem(cs, sub(sub(length(cs), I(1)), i) if style == "rev" else i)
        if o.eq(F(c, CONSTANT, None, "name"), S("Version")):
            return "next" if style in ("pair", "ref") else "break", {"found": Some(both(c) if pair else c)}
        return "next", r
    r = o.loop(length(cs), {"found": NONE}, const, "constants")
    if not o.some(r["found"]):
        o.ret(Err(bad("NoVersionInConstants")))
    return some(r["found"]) if pair else both(some(r["found"]))


def m_version_constant(ver):
    def m(style):
        return lambda o: (Ok(constant_of(o, IN(1), ver, lambda n: A(MVE, n), style)), {})
    return [m(style) for style in STYLES]


def runtime_version(o, data, bad):
    o.tag("runtime-version")
    if not o.isv(data, PD, "Composite"):
        o.ret(Err(bad("UnexpectedRuntimeVersionFormat")))
    fs = F(data, PD, "Composite", 0)

    def body(o, i, r):
        x = F(F(elem(fs, i), "cards::FieldData", None, "data"), ED, None, "data")
        k = o.case(x, PD)
        for p in UINTS:
            if k == "Primitive" + p and o.isv(F(x, PD, k, "specialty"), SUI, "SpecVersion"):
                if o.some(r["version"]):
                    o.ret(Err(bad("SpecVersionIdentifierTwice")))
                return "next", dict(r, version=Some(top.int_text(num(F(x, PD, k, "value"), p.lower()), p.lower())))
        if k == "Text" and o.isv(F(x, PD, k, "specialty"), "special_indicators::SpecialtyStr", "SpecName"):
            if o.some(r["name"]):
                o.ret(Err(bad("SpecNameIdentifierTwice")))
            return "next", dict(r, name=Some(F(x, PD, k, "text")))
        return "next", r
    r = o.loop(length(fs), {"version": NONE, "name": NONE}, body, "version fields")
    if not o.some(r["version"]):
        o.ret(Err(bad("NoSpecVersionIdentifier")))
    if not o.some(r["name"]):
        o.ret(Err(bad("NoSpecNameIdentifier")))
    return A(SNV, None, printed_spec_version=some(r["version"]), spec_name=some(r["name"]))


def m_spec_name_version(ver):
    def m(o, style):
        bad = (lambda n: A(E14, "Version", A(MVE, n))) if ver == "14" else (lambda n: A(MVE, n))
        md = IN(1)
        c = constant_of(o, F(md, RM[ver], None, "pallets"), ver, bad, style)
        value, ty = project(c, "tuple", 0, 0, 2), project(c, "tuple", 0, 1, 2)
        o.tag("decode-constant")
        nope = bad("RuntimeVersionNotDecodeable")
        d = dwt(symbol(ty), value, I(0), F(md, RM[ver], None, "types"),
                inst="<&[u8], (), %s>" % RM[ver], ext=tup())
        if not o.ok(d):
            o.ret(Err(nope))
        if not o.test(int_eq(dwt_pos(d), C(AB + "total_len<&[u8], ()>", value))):
            o.ret(Err(nope))
        return Ok(runtime_version(o, F(ok(d), ED, None, "data"), bad)), {}
    return [lambda o, style=style: m(o, style) for style in STYLES]


# ---- registry, extensions, extrinsic ------------------------------------------------------
def m_types(ver):
    return lambda o: (F(IN(1), RM[ver], None, "types"), {})


def extrinsic(ver, f):
    return F(F(IN(1), RM[ver], None, "extrinsic"), EX[ver], None, f)


def m_signed_extensions(ver):
    def m(o):
        se = extrinsic(ver, "signed_extensions")

        def body(o, i, r):
            x = elem(se, i)
            g = lambda f: F(x, SEMD[ver], None, f)
            return "next", {"acc": seq_push(r["acc"], A("traits::SignedExtensionMetadata", None, identifier=g("identifier"),
                                                        ty=g("ty"), additional_signed=g("additional_signed")))}
        return Ok(o.loop(length(se), {"acc": EMPTY}, body, "signed extensions")["acc"]), {}
    return m


def m_extrinsic_version(ver):
    return lambda o: (Ok(extrinsic(ver, "version")), {})


PARAMS = (("address", "Address"), ("call", "Call"), ("extra", "Extra"), ("signature", "Signature"))


def type_params(o, params):
    o.tag("type-params")

    def body(o, i, r):
        p = elem(params, i)
        n = F(p, "scale_info::TypeParameter", None, "name")
        for k, text in PARAMS:
            if o.eq(n, S(text)):
                return "next", dict(r, **{k: F(p, "scale_info::TypeParameter", None, "ty")})
        return "next", r
    r = o.loop(length(params), {k: NONE for k, _ in PARAMS}, body, "type parameters")
    for k, text in PARAMS:
        if not o.some(r[k]):
            o.ret(Err(A(E14, "No%sParam" % text)))
    return {k: some(r[k]) for k, _ in PARAMS}


def params14(o):
    reg = F(IN(1), RM["14"], None, "types")
    hk = C("decoding_sci::husk_type<(), %s>" % RM["14"], extrinsic("14", "ty"), reg, tup(), checker())
    o.tag("extrinsic-type")
    if not o.ok(hk):
        e = err(hk)
        if o.isv(e, RE, "Internal"):
            o.ret(Err(A(E14, "ExtrinsicTypeNotResolved", F(e, RE, "Internal", 0))))
        raise Infeasible()             # no external memory, so no error from it
    h = lambda f: F(ok(hk), HUSKED, None, f)
    bad = Err(A(E14, "UnexpectedExtrinsicType", extrinsic_ty_id=num(h("id"), "u32")))
    td = F(h("ty"), TYPE, None, "type_def")
    k = o.case(td, TD)
    if k == "Composite":
        fs = F(F(td, TD, k, 0), "scale_info::TypeDefComposite", None, "fields")
        if not o.test(int_eq(length(fs), I(1))):
            o.ret(bad)
        td = F(resolve(o, reg, sym_id(F(elem(fs, I(0)), FIELD, None, "ty"))), TYPE, None, "type_def")
        k = o.case(td, TD)
    if k != "Sequence":
        o.ret(bad)
    el = resolve(o, reg, sym_id(F(F(td, TD, k, 0), "scale_info::TypeDefSequence", None, "type_param")))
    ed = F(el, TYPE, None, "type_def")
    if not (o.isv(ed, TD, "Primitive") and o.isv(F(ed, TD, "Primitive", 0), TDP, "U8")):
        o.ret(bad)
    return type_params(o, F(h("ty"), TYPE, None, "type_params"))


def m_params14(o):
    return Ok(A(ETP, None, **{k + "_ty": v for k, v in params14(o).items()})), {}


def m_params15(o):
    return Ok(A(ETP, None, **{k + "_ty": extrinsic("15", k + "_ty") for k, _ in PARAMS})), {}


def m_call_ty(ver):
    if ver == "14":
        return lambda o: (Ok(params14(o)["call"]), {})
    return lambda o: (Ok(extrinsic("15", "call_ty")), {})


TABLE = {"<scale_info::PortableRegistry as traits::ResolveType<E>>::resolve_ty": m_resolve_ty}
for v in ("14", "15"):
    TABLE["traits::version_constant_data_and_ty_v" + v] = m_version_constant(v)
    AM, ACM = ("<%s as traits::As%sMetadata<E>>::" % (RM[v], x) for x in ("", "Complete"))
    TABLE[AM + "types"] = m_types(v)
    TABLE[AM + "spec_name_version"] = m_spec_name_version(v)
    TABLE[AM + "call_ty"] = m_call_ty(v)
    TABLE[AM + "signed_extensions"] = m_signed_extensions(v)
    TABLE[ACM + "extrinsic_type_params"] = m_params14 if v == "14" else m_params15
    TABLE[ACM + "extrinsic_version"] = m_extrinsic_version(v)

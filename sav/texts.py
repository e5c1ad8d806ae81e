"""Error texts: what `Display` of every error type writes, path by path.

For each path of `<X as Display>::fmt` the appended text is taken apart into
literal pieces and displayed payload values, and these rules are decided:

  subject   the wording names the variant's subject (CUES), and differs from the
            wording of every other variant of the type;
  payload   every payload value of the variant is written out in full (numbers
            in decimal, hashes in hex, texts and nested errors as they are),
            at its place in the wording (ORDER).
"""
from .terms import mk, Term, ADTS, show, project
from .ctx import Anchor, IN

# wording that must appear, as alternatives, lower case
CUES = {
    "SignableError": {
        "CutSignable": [("call",), ("extension",)], "ImmortalHashMismatch": [("immortal",), ("block hash",)],
        "MetaStructure": [("metadata",)], "NotACall": [("call",), ("not",)], "Parsing": [("pars", "decod")],
        "SomeDataNotUsedCall": [("call",), ("unused", "not used")],
        "SomeDataNotUsedExtensions": [("extension",), ("unused", "not used")],
        "WrongGenesisHash": [("genesis",)], "WrongSpecVersion": [("version",)]},
    "StorageError": {
        "KeyPartHashMismatch": [("key",), ("hash",), ("match",)], "KeyPartsUnused": [("key",), ("unused", "not used")],
        "KeyShorterThanPrefix": [("key",), ("short",), ("prefix",)],
        "MultipleHashesNotATuple": [("hasher",), ("tuple",), ("not a",)],
        "MultipleHashesNumberMismatch": [("hasher",), ("number", "count"), ("match", "differ")],
        "ParsingKey": [("key",)], "ParsingValue": [("value",)], "PlainKeyExceedsPrefix": [("plain",), ("prefix",)]},
    "ParserError": {
        "NoCompact": [("compact",)], "SomeDataNotUsedBlob": [("unused", "not used")],
        "TypeFailure": [("decode",)], "UnexpectedEnumVariant": [("variant",)]},
    "RegistryError": {"External": [("external",)]},
    "RegistryInternalError": {
        "CyclicMetadata": [("cycl",)], "ExtrinsicNoCallParam": [("call",)], "NotBitOrderType": [("bitorder", "bit order")],
        "NotBitStoreType": [("bitstore", "bit store")], "TypeNotResolved": [("resolve",)],
        "UnexpectedCompactInsides": [("compact",)], "UnexpectedExtrinsicType": [("extrinsic",)]},
    "ExtensionsError": {
        "BlockHashTwice": [("block hash",), ("more than one", "twice", "several", "duplicate")],
        "EraTwice": [("era",), ("more than one", "twice", "several", "duplicate")],
        "GenesisHashTwice": [("genesis hash",), ("more than one", "twice", "several", "duplicate")],
        "NoGenesisHash": [("genesis hash",), ("not", "no ", "missing", "absent", "without")],
        "NoSpecVersion": [("version",), ("not", "no ", "missing", "absent", "without")],
        "SpecVersionTwice": [("version",), ("more than one", "twice", "several", "duplicate")]},
    "MetaStructureErrorV14": {
        "ExtrinsicTypeNotResolved": [("resolve",), ("extrinsic",)], "NoAddressParam": [("address",)],
        "NoCallParam": [("call",)], "NoExtraParam": [("extra param", "extra ")], "NoSignatureParam": [("signature",)],
        "UnexpectedExtrinsicType": [("extrinsic",)]},
    "MetaVersionErrorPallets": {
        "NoSpecNameIdentifier": [("spec name", "spec_name"), ("no ", "not")],
        "NoSpecVersionIdentifier": [("spec version", "spec_version"), ("no ", "not")],
        "NoSystemPallet": [("system",), ("pallet",)], "NoVersionInConstants": [("version",), ("constant",)],
        "RuntimeVersionNotDecodeable": [("version",), ("decod",)],
        "SpecNameIdentifierTwice": [("spec name", "spec_name"), ("twice", "more than one")],
        "SpecVersionIdentifierTwice": [("spec version", "spec_version"), ("twice", "more than one")],
        "UnexpectedRuntimeVersionFormat": [("version",), ("composite",)]},
    "UncheckedExtrinsicError": {
        "FormatNoCompact": [("compact",)], "MetaStructure": [("metadata",)], "Parsing": [("pars", "decod")],
        "VersionMismatch": [("version",)], "UnexpectedCallTy": [("call",)]},
}

# order in which the wording presents payload values, where it is not the declared one
ORDER = {("SignableError", "WrongSpecVersion"): ["in_metadata", "as_decoded"]}


def pieces(out):
    """what is appended to the formatter"""
    base = IN(2)
    if out is base:
        return []
    if out.op != "cat":
        return None
    args = list(out.args)
    if args[0] is not base:
        return None
    return args[1:]


def shows(part, t):
    """does this piece write out the whole value t"""
    while True:
        if part is t:
            return True
        if part.op in ("disp", "hex") and isinstance(part.args[0], Term):
            part = part.args[0]
            continue
        if part.op == "fld" and inner_of(part) is not None and len_one(part):
            part = inner_of(part)
            continue
        return False


def inner_of(part):
    a = part.args[0]
    return a if isinstance(a, Term) else None


def len_one(part):
    """a projection to the only field of a one-field struct loses nothing"""
    path = part.args[1][0]
    info = ADTS.get(path)
    return info is not None and len(info["v"]) == 1 and len(info["v"][0]["f"]) == 1


def chain(facts, t, path, out):
    """(type, variant name) down the inlined nested errors, and the payload leaves"""
    info = ADTS.get(path)
    v = facts.variant(t)
    if v is None:
        if len(info["v"]) != 1:
            return None
        v = 0
    name = info["v"][v]["n"]
    fs = info["v"][v]["f"]
    leaves = []
    out.append((path.split("::")[-1], name))
    for i, f in enumerate(fs):
        x = project(t, path, v, i, len(fs))
        sub = facts.variants.get(x)
        nested = next((c.args[1] for c, yes in facts.trail() if c.op == "isvar" and c.args[0] is x), None)
        if sub is not None and nested in ADTS and nested.startswith("error::"):
            r = chain(facts, x, nested, out)
            if r is None:
                return None
            leaves += r
        else:
            leaves.append((str(f[0]), x))
    return leaves


def check(ctx):
    """yields (fn, where, ok, text, message) per decided path"""
    out = []
    names = sorted({b["np"] for b in ctx.p.bodies.values()
                    if b.get("local") and not b.get("derived") and b["np"].startswith("<error::")
                    and b["np"].endswith(" as core::fmt::Display>::fmt")})
    for fn in names:
        where = (ctx.p.root(fn) or {}).get("span")
        try:
            ps = ctx.paths(fn)
        except Anchor as e:
            out.append((fn, where, None, None, str(e)))
            continue
        path = fn[1:].split(" as ")[0].split("<")[0]
        ty = path.split("::")[-1]
        seen, variants = {}, set()
        for p in ps:
            if p.kind != "ret":
                out.append((fn, where, None, None, "formatting the error can panic"))
                continue
            ch = []
            leaves = chain(p.facts, IN(1), path, ch)
            if leaves is None:
                out.append((fn, where, None, None, "the text does not depend on the variant"))
                continue
            label = "::".join(v for _, v in ch)
            variants.add(ch[0][1])
            if show(p.value) != "Result::Ok{()}":
                out.append((fn, where, label, None, "formatting can fail by itself"))
                continue
            parts = pieces(p.outs.get(2, IN(2)))
            if parts is None:
                out.append((fn, where, label, None, "the text is not appended to the output: %s" % show(p.outs[2])))
                continue
            text = " ".join(x.args[0] if x.op == "str" else "\0" for x in parts).lower()
            lit = "".join(x.args[0] for x in parts if x.op == "str")
            msg = None
            left = [x for x in parts if x.op != "str"]
            order = ORDER.get(ch[-1])
            names_ = [n for n, _ in leaves]
            if order and sorted(order) == sorted(names_):
                leaves = [next(l for l in leaves if l[0] == n) for n in order]
            at = 0
            for n, t in leaves:
                k = next((i for i in range(at, len(left)) if shows(left[i], t)), None)
                if k is None:
                    msg = "payload `%s` of %s is not written out at its place in the text" % (n, label)
                    break
                at = k + 1
            if msg is None:
                for t_, v_ in ch:
                    for alts in CUES.get(t_, {}).get(v_, ()):
                        if not any(a in text for a in alts) and v_ == ch[-1][1]:
                            msg = "the text of %s does not name its subject (%s)" % (label, " / ".join(alts))
            key = text
            if msg is None and not lit.strip() and not left:
                msg = "the text of %s is empty" % label
            if msg is None and lit.strip():
                if key in seen and seen[key] != label:
                    msg = "the text of %s is the one of %s" % (label, seen[key])
                seen.setdefault(key, label)
            out.append((fn, where, label, text, msg))
        info = ADTS.get(path)
        for v in (info["v"] if info else []):
            if v["n"] not in variants and v.get("inhabited", True):
                out.append((fn, where, v["n"], None, "no text for variant %s" % v["n"]))
    return out

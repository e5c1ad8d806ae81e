"""Vocabulary shared by the reference models."""
from ..terms import *
from ..spec import *
from ..ctx import IN, Anchor
from ..contracts import total_len, AB

PE = "error::ParserError"
SE = "error::SignableError"
RE = "error::RegistryError"
RIE = "error::RegistryInternalError"
EE = "error::ExtensionsError"
ST = "error::StorageError"
UE = "error::UncheckedExtrinsicError"
BE = "external_memory_tools::BufferError"
PD = "cards::ParsedData"
ED = "cards::ExtendedData"
TY = "decoding_sci::Ty"
TD = "scale_info::TypeDef"
TDP = "scale_info::TypeDefPrimitive"
HINT = "special_indicators::Hint"
SUI = "special_indicators::SpecialtyUnsignedInteger"
SYM = "scale_info::interner::UntrackedSymbol"
TYPE = "scale_info::Type"
ERA = "additional_types::Era"
EMPTY = mk("arr")


def parser_buffer(e):
    return A(PE, "Buffer", e)


def parser_registry(e):
    return A(PE, "Registry", e)


def internal(name, *a, **k):
    return A(RE, "Internal", A(RIE, name, *a, **k))


def read_slice(data, pos, n):
    return C(AB + "read_slice", data, EXT, pos, n)


def read_byte(data, pos):
    t = C(AB + "read_byte", data, EXT, pos)
    note_type(ok(t), "u8")
    return t


def find_compact(data, pos, ty="u32"):
    return C("compacts::find_compact<%s>" % ty, data, EXT, pos)


def fc_value(fc, ty="u32"):
    return num(F(ok(fc), "compacts::FoundCompact", None, "compact"), ty)


def fc_next(fc):
    return num(F(ok(fc), "compacts::FoundCompact", None, "start_next_unit"))


def symbol(sym):
    return A(TY, "Symbol", sym)


def resolved(ty, id_):
    return A(TY, "Resolved", A("decoding_sci::ResolvedTy", None, ty=ty, id=id_))


def sym_id(sym):
    return num(F(sym, SYM, None, "id"), "u32")


def specialty_set(compact=NONE, hint=None):
    return A("propagated::SpecialtySet", None, compact_at=compact,
             hint=hint if hint is not None else A(HINT, "None"))


def checker(ss=None, cyc=EMPTY):
    return A("propagated::Checker", None, specialty_set=ss or specialty_set(), cycle_check=cyc)


def propagated(ch=None, info=EMPTY):
    return A("propagated::Propagated", None, checker=ch or checker(), info=info)


def dwt(ty, data, pos, registry, prop=None, inst="", ext=None):
    return C("decoding_sci::decode_with_type" + inst, ty, data, EXT if ext is None else ext, pos, registry, prop or propagated())


def dwt_pos(call):
    return num(O(3, call))


def resolve_ty(registry, id_, inst=""):
    return C("traits::ResolveType::resolve_ty" + inst, registry, id_, EXT)


def info_from_ty(ty):
    return C("cards::Info::from_ty", ty)


def seq_push(a, x):
    from ..builtins import push
    return push(a, x)

"""Which obligations, and which aspects of them, decide each property.

An entry is (function name or prefix*, labels).  A disagreement counts for a
property when its labels meet the entry's labels; `None` takes every
disagreement of that function.  Labels are clause tags of the specification,
variant names of the results involved and names of the differing fields; `*`
marks a disagreement that cannot be attributed and counts for every property of
that function.
"""
from .models import meta, cards, balance, errors

D = "decoding_sci::"
DWT = D + "decode_with_type"
SI = "special_indicators::"
TOP_EXT = ["decoding_sci_ext::decode_extensions", "decoding_sci_ext::decode_extensions_unmarked",
           "parse_transaction", "parse_transaction_unmarked"]
STORAGE = ["storage_data::process_key_mapped", "storage_data::decode_as_storage_entry"]
UX = "unchecked_extrinsic::decode_as_unchecked_extrinsic"
BITPOS = D + "BitVecPositions::new*"
ERA_DECODE = "<additional_types::Era as parity_scale_codec::Decode>::decode"
ERA_ENCODE = "<additional_types::Era as parity_scale_codec::Encode>::encode_to"
COMPACT = "compacts::find_compact*"


def many(fns, labels):
    return [(f, labels) for f in fns]


CONSUME = {"consume", "SomeDataNotUsedBlob", "SomeDataNotUsedCall", "SomeDataNotUsedExtensions", "KeyPartsUnused",
           "PlainKeyExceedsPrefix"}
GATE = {"gate", "check", "EraTwice", "GenesisHashTwice", "BlockHashTwice", "SpecVersionTwice", "NoSpecVersion",
        "NoGenesisHash", "WrongSpecVersion", "WrongGenesisHash", "ImmortalHashMismatch"}
EXT = {"ext", "extensions.ty", "extensions.additional_signed", "extensions"}
PRIMS = ["prim." + p for p in ("U8", "U16", "U32", "U64", "U128", "U256", "I8", "I16", "I32", "I64", "I128", "I256",
                               "Bool", "Char", "Str")]
SPECIALS = ["special." + s for s in (
    "AccountId32", "Era", "H160", "H256", "H512", "PublicEd25519", "PublicSr25519", "PublicEcdsa",
    "SignatureEd25519", "SignatureSr25519", "SignatureEcdsa", "Perbill", "Percent", "Permill", "Perquintill",
    "PerU16", "PalletSpecific", "None")]

NAMES = {"info", "inner_element_info", "element_info", "field_docs", "field_name", "type_name", "variant_docs", "variant_name",
         "pallet_name", "pallet_info", "docs", "path"}

PROPS = {
    "C01": [(f, CONSUME) for f in ["decode_all_as_type", D + "decode_as_call"] + TOP_EXT + STORAGE],
    "C02": many(["parse_transaction", D + "decode_as_call"],
                {"mark", "confine", "call", "consume", "CutSignable", "NotACall", "SomeDataNotUsedCall", "call_result", "decode_with_type#1", "decode_with_type#3", "call_start",
                 "extensions_start"})
    + many(["MarkedData::mark", "MarkedData::data_no_extensions"], None)
    + [(D + "decode_as_call_unmarked", None)]
    + many(["decoding_sci_ext::decode_extensions"], {"ext", "extensions.ty"}),
    "C03": many(TOP_EXT, GATE) + [(SI + "Hint::from_ext_meta", None)]
    + many([SI + "Hint::unsigned_integer"], {"SpecVersion", "*"})
    + many([SI + "Hint::hash256"], None)
    + many([DWT], {"SpecVersion", "GenesisHash", "BlockHash", "Era", "special.Era"}),
    "C04": many(TOP_EXT, EXT | {"SomeDataNotUsedExtensions"}),
    "C05": many(STORAGE, None),
    "C06": [(UX, None)],
    "C08": many([DWT, D + "husk_type"], {"cycle", "cycle_check", "CyclicMetadata", "cyc"}),
    "C09": [(COMPACT, None)] + many([DWT], {"compact-value", "compact-inside", "compact_at", "def.Compact",
                                           "UnexpectedCompactInsides", "NoCompact", "compact"})
    + many([D + "husk_type"], {"compact", "compact_at", "compact-inside", "UnexpectedCompactInsides"}),
    "C10": many([DWT], set(PRIMS) | set(SPECIALS) - {"special.None", "special.PalletSpecific"})
    + [(ERA_DECODE, None)],
    "C27": [(ERA_DECODE, None), (ERA_ENCODE, None)] + many([DWT], {"Era", "special.Era"}),
    "C11": many([DWT], {"position", "pos", "start_next_unit", "decode_with_type#3"}) + [(COMPACT, None), (BITPOS, None),
                                                                   ("decode_as_type_at_position", None),
                                                                   (SI + "SpecialtyTypeChecked::from_type",
                                                                    {"position"})],
    "C12": many([DWT], {"def.Composite", "def.Tuple", "def.Array", "def.Sequence", "fields", "tuple", "elements"}),
    "C13": [(D + "pick_variant", None)] + many([DWT], {"def.Variant", "variant-pick", "special.PalletSpecific"}),
    "C14": many([DWT, D + "husk_type"], {"hint"}) + many(
        [SI + "Hint::from_field", SI + "Hint::from_path", SI + "Hint::string", SI + "Hint::unsigned_integer",
         SI + "Hint::hash256"], None) + many([DWT], {"specialty"}),
    "C15": [(SI + "SpecialtyTypeHinted::from_type", None), (SI + "SpecialtyTypeChecked::from_type", None),
            (SI + "SignatureIndicator::from_field", None)],
    "C24": many([DWT], {"uniform", "uniform integers", "uniform byte vectors", "Sequence", "SequenceRaw"}),
    "C26": many([DWT], {"def.BitSequence", "split-words", "storage units", "halves"}) + [(BITPOS, None),
                                                                (D + "find_bit_order_ty", None)],
    "C16": [(f, None) for f in cards.TABLE],
    "C17": many(["cards::ParsedData::card"], {"balance", "ParsedData.card#3", "ExtendedData.card#2", "Balance",
                                              "BalanceRaw", "Tip", "TipAsset", "convert_balance_pretty"})
    + many(["cards::ExtendedData::card"], {"ParsedData.card#3"})
    + many(["cards::Call::card", "cards::Event::card"], {"balance-pallet", "ParsedData.card#3", "ExtendedData.card#2"})
    + many(["cards::ExtendedCard::show"], {"show.Balance", "show.BalanceRaw", "show.Tip", "show.TipAsset"}),
    "C18": [(f, None) for f in balance.TABLE],
    "C32": many([DWT, D + "husk_type"], NAMES) + many([SI + "SpecialtyTypeChecked::from_type"], NAMES)
    + many(["cards::Info::from_ty", "cards::Info::is_empty"] + [f for f in cards.TABLE if f.endswith("Documented>::collect_docs")], None)
    + many(STORAGE, NAMES) + [(D + "pick_variant", None)],
    "C23": [(f, None) for f in meta.TABLE],
}

# properties about every specified function: which aspect of a disagreement they take
EVERY = {
    "C19": {"dropped-error"},
    "C25": {"error-detail"},
    "C28": {"extra-error"},
}


def everything():
    from . import obligations
    return sorted(obligations.table())


for _p, _labels in EVERY.items():
    PROPS[_p] = []
PROPS["C25"] += [(f, None) for f in errors.TABLE]
# the checker only serves to refuse: its state decides which types are refused, and the identifier named
for _p in ("C19", "C25", "C28"):
    PROPS[_p] += many([DWT, D + "husk_type"], {"compact_at", "cycle_check", "cycle", "cyc"})


def owns(pid, name):
    """is the property about everything this function returns, or about whole kinds of types it handles?"""
    return pid not in EVERY and any(selects(e, name) and (e[1] is None or any("." in x for x in e[1])) for e in PROPS[pid])


def takes(pid, name, labels):
    return any(selects(e, name) and (e[1] is None or labels & e[1]) for e in PROPS[pid])


def selects(entry, name):
    pat = entry[0]
    return name == pat or pat.endswith("*") and name.startswith(pat[:-1])


def needed(pid, names):
    """obligation names this property depends on"""
    if pid in EVERY:
        return list(names)
    return [n for n in names if any(selects(e, n) for e in PROPS[pid])]


ALL_BY_FN = {}


def relevant(pid, f):
    """does this finding count for the property?"""
    if "*" in f.labels:
        return True
    if f.labels & EVERY.get(pid, frozenset()):
        return True
    for e in PROPS[pid]:
        if selects(e, f.fn) and (e[1] is None or f.labels & e[1]):
            return True
    # nobody claims it: everybody who depends on the function reports it
    for q in PROPS:
        for e in PROPS[q]:
            if selects(e, f.fn) and (e[1] is None or f.labels & e[1]):
                return False
    return True

FLOORS = {p: len({e[0] for e in es}) for p, es in PROPS.items()}
FLOORS.update({p: 85 for p in EVERY})

ASSUME = [
    "implementations of the buffer, memory, registry and metadata interfaces are deterministic for unchanged arguments",
    "a successful ranged read returns exactly the requested bytes and lies inside the reported total length",
    "buffers are at most isize::MAX bytes long",
]

MORE_ASSUME = {"C21": [
    "cards are indented at most 2^28 deep; an indentation is written out in one piece",
    "requests of up to 65536 elements beyond what is already held count as small",
    "external crates ask for no more than the amounts they are given",
], "C29": [
    "implementations of the buffer, memory, registry and metadata interfaces and of library iterators return",
    "items nest no deeper than the stack holds; the time and memory taken are not bounded",
], "C07": [
    "items nest and cards are indented at most 2^28 deep (stack depth is not covered)",
    "lists held in memory have at most isize::MAX / 1024 elements",
    "allocation itself does not fail, and external crates do not panic on the arguments they get (listed in coverage)",
    "a hand-built mortal Era that is encoded has an even period, as every decoded one has",
]}

I = ["inputs"]
IP = ["inputs", "configurations"]
FEW = "The tests decode a few dozen fixed hex strings against four recorded metadata sets; "

prop("C01", "Whole-input decoding accounts for every byte",
     "Whenever an entry point that is meant to consume a whole input (a typed blob, a marked call, the extensions that end a "
     "transaction, a storage key, a storage value) reports success, the last decoded item ends exactly at the end of that input. "
     "Any surplus byte makes it fail with the leftover-data error naming the position where decoding stopped; the call of a marked "
     "transaction must end exactly at the declared boundary.",
     I, "all byte strings, all type registries, all buffer implementations",
     FEW + "only a handful of inputs have surplus bytes, and a missing or weakened end check on one entry point goes unnoticed.",
     "src/lib.rs src/decoding_sci.rs src/decoding_sci_ext.rs src/storage_data.rs",
     [("end-of-input comparison after the last decoded item", "decode_all_as_type, decode_as_call, decode_ext_attempt, process_key_mapped, decode_as_storage_entry")])

prop("C02", "Call and extensions of a marked transaction never overlap",
     "A signable transaction with a length prefix is split once: the call occupies exactly the number of bytes the compact prefix "
     "declares, directly after that prefix, and the extensions start at the next byte. Decoding the call can only read up to that "
     "boundary and must yield a call item, extensions are read only from the boundary on, and a prefix that is unreadable or reaches "
     "beyond the data makes marking fail. Failure to decode the call does not hide the extensions.",
     I, "all byte strings and length prefixes, all metadata",
     FEW + "boundary mistakes (off by one, wrong base, unlimited call buffer) show only for inputs whose call reads past the mark.",
     "src/lib.rs src/decoding_sci.rs src/decoding_sci_ext.rs",
     [("marking by compact prefix", "MarkedData::mark"), ("buffer limited to the call", "MarkedData::data_no_extensions"),
      ("call decoding from the mark", "decode_as_call")])

prop("C03", "Extensions are accepted only after the chain identity gate",
     "Decoded transaction extensions are returned only if a spec version was found and its decimal text equals the one in the "
     "metadata, a genesis hash was found and equals the expected one when one is supplied, and an immortal era comes with a block "
     "hash equal to the genesis hash. A second era, genesis hash, block hash or spec version is an error, and each mismatch is "
     "reported as its own error.",
     I, "all transactions, metadata and optional genesis hashes",
     FEW + "the combinations of missing, duplicated and mismatching identity extensions, also wrapped in single-field structs, are far more than the few tested.",
     "src/decoding_sci_ext.rs src/special_indicators.rs",
     [("collected extension set and its checks", "check_extensions, decode_extensions, decode_extensions_unmarked")])

prop("C04", "Every declared extension part is decoded once, in declared order",
     "The extensions result holds, for every signed extension the metadata declares and in its order, first all explicit parts and "
     "then all implicit (additional signed) parts, each decoded with the type the metadata names, where the previous one ended, and "
     "with the special meaning derived from that extension's identifier. The first failing part fails the whole decoding.",
     I, "all metadata (any number and order of extensions), all byte strings",
     FEW + "all recorded metadata declare nearly the same extension list, so skipped, reordered or re-read parts of other lists are never seen.",
     "src/decoding_sci_ext.rs src/propagated.rs",
     [("two passes over the declared list", "decode_ext_attempt")])

prop("C05", "Storage keys are parsed and verified hasher by hasher",
     "A storage key is accepted only if it has the 32-byte prefix followed by exactly the parts its hashers require: for plain hashers the "
     "hash bytes alone, for concatenating hashers the hash followed by a decoded key whose re-computed hash of exactly the consumed "
     "bytes equals the stored one, for identity the decoded key only. Several hashers need a tuple key with as many elements, taken in "
     "order; plain entries take nothing after the prefix; a mismatch of any kind is an error.",
     I, "all keys, values and entry descriptions",
     FEW + "hash verification, part boundaries and count mismatches are sampled for one or two hashers only.",
     "src/storage_data.rs",
     [("per-hasher parsing and hash re-check", "process_key_mapped"), ("entry dispatch", "decode_as_storage_entry")])

prop("C06", "Unchecked extrinsic envelope is validated and decoded part by part",
     "An unchecked extrinsic is accepted only if its compact length prefix equals the number of remaining bytes and the low seven "
     "bits of the version byte equal the version in the metadata; the top bit alone decides between signed and unsigned. Signed ones "
     "yield address, signature, extra and call decoded in this order from consecutive bytes with the types the metadata names, "
     "unsigned ones only the call, and the call must be a call item ending where the envelope ends.",
     I, "all byte strings and metadata",
     FEW + "unchecked extrinsics have three tests; prefix off-by-one, version-bit and leftover cases are not sampled.",
     "src/unchecked_extrinsic.rs",
     [("envelope checks and part sequence", "decode_as_unchecked_extrinsic")],
     note="Bytes left inside the envelope after the call are accepted by the current code (pinned by an existing test): known finding.")

prop("C07", "No input makes the library panic",
     "Parsing, rendering and formatting end with a value or an error for every input: no byte string, type registry, metadata, storage entry, "
     "expected genesis hash, decimals or buffer implementation (including one whose reads fail at any point) makes any reachable function "
     "overflow an integer, index or slice outside its bounds, unwrap a missing value or hit any other runtime assertion, on 64-bit and 32-bit targets. "
     "Marked data always keeps call start <= extensions start <= data length, and positions never leave the data.",
     ["inputs", "configurations", "fault_sequences"], "all inputs, all failing reads of external memory, 64-bit and 32-bit targets",
     FEW + "hostile lengths near the type limits, failing external memory and 32-bit overflow are outside what they run.",
     "src/lib.rs src/decoding_sci.rs src/decoding_sci_ext.rs src/compacts.rs src/storage_data.rs src/unchecked_extrinsic.rs src/cards.rs src/printing_balance.rs src/traits.rs src/special_types.rs",
     [("positions and reads", "find_compact, decode_with_type, BitVecPositions::new"), ("marking", "MarkedData"), ("amount text slicing", "convert_balance_string"),
      ("storage hash re-reads", "process_key_mapped"), ("envelope length check", "decode_as_unchecked_extrinsic")],
     technique="abstract interpretation of MIR: every assert, diverging call and panicking library operation must be unreachable in the "
               "interval/linear-inequality domain, with inferred loop invariants and assume-guarantee contracts over the recursion")

prop("C08", "Every type visited inside a composite chain is checked for cycles",
     "Following a chain of types that consumes no input (struct fields, tuple elements, compacts, arrays, transparent wrappers), decoding "
     "fails with the cyclic-metadata error as soon as a type identifier repeats, instead of recursing again. The set of "
     "visited identifiers is carried unchanged into every nested item and only starts anew where at least one input byte has been consumed.",
     IP, "all type registries, including maliciously cyclic ones; all inputs",
     FEW + "recorded metadata is acyclic, so lost or reset visited sets are invisible to them.",
     "src/propagated.rs src/decoding_sci.rs",
     [("visited identifier set", "Checker::check_id, update_for_field, update_for_ty, drop_cycle_check")])

prop("C09", "Compact encoding applies only to integer-like leaves and is parsed exactly",
     "A compact value is the shortest readable compact prefix at the position, and decoding continues right after it. A compact "
     "marker reaches only unsigned integers and fixed-point fractions, possibly through single-field wrappers, which are "
     "then read as compacts; for every other type, a nested compact, or a struct or tuple of several elements, decoding fails with the "
     "unexpected-compact error instead of ignoring the marker.",
     IP, "all inputs, all type registries",
     FEW + "misplaced compact markers do not occur in recorded metadata.",
     "src/compacts.rs src/propagated.rs src/decoding_sci.rs",
     [("compact search", "find_compact"), ("compact rejection", "reject_compact")])

prop("C10", "Each primitive and special type has its fixed encoding and output kind",
     "Every primitive and specially recognised type is decoded from exactly its SCALE width, little-endian where multi-byte, into its own "
     "output kind holding exactly those bytes' value: integers, 256-bit integers, bool, char, text, hashes, keys, signatures, account "
     "ids, fixed-point fractions and eras. Bytes that are no valid value of the type fail with a type failure naming the type and position.",
     I, "all inputs for each of the leaf types",
     FEW + "several widths and kinds (256-bit, H512, ecdsa, PerU16 ...) are sampled by at most one value.",
     "src/decoding_sci.rs src/special_types.rs src/additional_types.rs",
     [("leaf decoding table", "decode_type_def_primitive, decode_with_type")])

prop("C11", "Decoding advances by exactly what was read",
     "Each successful decoding step leaves the position at the end of the item it returned: the fixed width for fixed-size items, the "
     "prefix plus payload for length-prefixed ones, and the end of the last element for nested ones; an empty item does not move it. Items are "
     "therefore contiguous, without gaps or overlaps.",
     I, "all inputs, registries and starting positions",
     FEW + "an item that over- or under-advances is noticed only if something follows it in a sample.",
     "src/decoding_sci.rs src/compacts.rs",
     [("position threading", "decode_with_type and the helpers it calls")])

prop("C12", "Composite values are decoded completely and in order",
     "A struct yields one entry per declared field with its name, type name, docs and value, a tuple one per element, an "
     "array as many elements as declared and a sequence as many as its length prefix says; all in declared order, each decoded with its own "
     "declared type right after the previous one. If any of them fails the whole value fails.",
     I, "all registries and inputs",
     FEW + "rare shapes (several unnamed fields, empty arrays, nested tuples) are not sampled.",
     "src/decoding_sci.rs",
     [("field, tuple and element loops", "decode_fields, decode_tuple_elements, decode_elements_set")])

prop("C13", "Enum values are selected by declared variant index",
     "An enum value's first byte selects the variant whose declared index equals it, regardless of its place in the list; its name, docs and "
     "fields are those of that variant and fields follow right after the byte. A byte matching no declared index is an "
     "error carrying the position, and an enum without variants yields the empty-enum value without consuming input.",
     I, "all registries (any index assignment) and inputs",
     FEW + "recorded metadata has mostly dense, ordered indices, so selection by place passes.",
     "src/decoding_sci.rs",
     [("variant selection", "pick_variant, decode_variant")])

prop("C14", "Hints add meaning but never change what is decoded",
     "Special meaning (balance, nonce, tip, spec version, tx version, hashes) is derived from field names, type names, paths and extension "
     "identifiers by fixed tables, given to fields only when no outer hint is set and dropped for multi-element structs and tuples, except "
     "for the asset-payment tip. It only labels unsigned integers, text and 32-byte hashes: value, width and position stay the same.",
     IP, "all hints, registries and inputs",
     FEW + "most combinations of hint and carried type never occur in the samples.",
     "src/special_indicators.rs src/propagated.rs src/decoding_sci.rs",
     [("hint tables and propagation", "Hint, SpecialtySet")])

prop("C15", "Special types are recognised only by exact path and matching structure",
     "A type is treated as special only if the last segment of its path is a known name, keys and signatures additionally only in their exact "
     "namespace. Multi-signatures and call or event items additionally need the matching structure: an enum whose selected variant has a "
     "single field of the fitting inner type. Anything else is decoded as the plain type at the unchanged position.",
     IP, "all type registries and inputs",
     FEW + "look-alike types (same name, other namespace or shape) do not occur in recorded metadata.",
     "src/special_indicators.rs",
     [("path and structure recognition", "SpecialtyTypeHinted::from_type, SpecialtyTypeChecked::from_type, SignatureIndicator::from_field")])

prop("C16", "Rendering shows every decoded item once, in order and under its name",
     "The cards of decoded data list every item in decoded order, nested ones one step deeper than what contains them, each under the card "
     "kind of its type with its exact value: struct, tuple, enum, sequence, call and event headers with counts and names, fields by name "
     "or one-based number, docs and type paths where they exist, and the text form prints each card under its own label. Nothing decoded is "
     "left out, repeated or mislabelled.",
     I, "all decoded data, chain specs and indents",
     FEW + "a card kind that is mislabelled, skipped or given another item's docs shows only for data the samples do not contain.",
     "src/cards.rs",
     [("flat cards", "ParsedData::card, ExtendedData::card, Call::card, Event::card"),
      ("text", "ExtendedCard::show, show_with_docs, ExtendedData::show, show_with_docs")])

prop("C17", "Amounts are shown in chain units only where that is known to be right",
     "A balance is shown scaled by the chain decimals and units only while scaling is enabled: by the caller, or inside a call or event exactly of the "
     "Balances and Staking pallets; anywhere else it is shown as the raw integer. The permission is passed on unchanged through every "
     "nesting level. The native tip is always scaled, the asset tip never.",
     I, "all decoded data, with any nesting of calls and containers",
     FEW + "amounts of other pallets nested in Balances or Staking calls, or behind tuples and sequences, are barely sampled.",
     "src/cards.rs",
     [("permission passed down", "ParsedData::card, ExtendedData::card"), ("pallet gate", "Call::card, Event::card")])

prop("C18", "Formatting an amount keeps every digit at its exact magnitude",
     "The text of an amount holds all digits of the integer in order, with leading zeros only where the smallest prefix does not suffice and "
     "trailing ones only to complete a prefix step, and digits, point and SI prefix together are exactly value / 10^decimals units. The "
     "prefix is the one that leaves one to three digits before the point, limited to tera and atto. No value or decimals makes it fail.",
     I, "all values of u8, u16, u32, u64 and u128, all decimals 0-255, all unit names",
     "The tests sample about forty of the 2^128 x 256 combinations; boundaries between prefixes and lengths are far more.",
     "src/printing_balance.rs",
     [("balance formatting", "AsBalance::convert_balance_pretty")])

prop("C23", "Runtime metadata is read faithfully, or refused with its own error",
     "What decoding takes from V14 and V15 runtime metadata is what the metadata says: a type identifier resolves to the registry entry "
     "with that identifier; the extrinsic version, the signed extensions in order and the address, call, signature and extra types "
     "are those declared; spec name and version come from the System pallet's Version constant, which must decode to its last byte and "
     "hold each of them exactly once. Anything missing, doubled or undecodable is refused with the error for it.",
     I, "all V14 and V15 runtime metadata",
     FEW + "all recorded metadata is well formed, so doubled identifiers, missing parameters or surplus constant bytes never occur.",
     "src/traits.rs",
     [("AsMetadata for V14 and V15", "spec_name_version, signed_extensions, extrinsic_version, extrinsic_type_params, call_ty"),
      ("type resolution", "ResolveType::resolve_ty")])

prop("C24", "Compacting uniform sequences loses nothing",
     "A sequence or array whose elements are all plain unsigned integers of one width, or all byte vectors with the same element "
     "description, is returned as a typed list with the same values in the same order; an element with special meaning, of another kind or with "
     "another description keeps the raw element list. Empty sequences stay raw.",
     I, "all element lists",
     FEW + "mixed and nested element lists are barely sampled.",
     "src/decoding_sci.rs",
     [("sequence wrapping", "wrap_sequence")])

prop("C26", "Bit sequences keep all bits for every store and order, also on 32-bit",
     "A bit sequence occupies its compact bit count followed by the smallest whole number of storage units that holds the bits, and is "
     "decoded from exactly these bytes in the declared order and unit width. On targets without 64-bit bit vectors, both "
     "halves of every 64-bit unit are kept in the order of the bits, and the declared length is cut exactly.",
     ["inputs", "configurations"], "all bit counts, store types, orders, on 64-bit and 32-bit targets",
     "Tests run on the 64-bit host only and the 32-bit code is not even compiled there; few lengths are sampled.",
     "src/decoding_sci.rs",
     [("bit positions", "BitVecPositions::new"), ("decoding per store and order", "decode_type_def_bit_sequence"),
      ("32-bit patch", "patch_bitvec_u64, reform_vec_lsb0, reform_vec_msb0")])

ALLFN = ("src/lib.rs src/decoding_sci.rs src/decoding_sci_ext.rs src/storage_data.rs src/unchecked_extrinsic.rs src/traits.rs "
         "src/special_indicators.rs src/special_types.rs src/compacts.rs src/propagated.rs src/cards.rs src/printing_balance.rs src/error.rs")

prop("C19", "No failure is swallowed",
     "A failed read of the data, a failed registry or metadata lookup, and a failed check anywhere below a public entry point make that "
     "entry point fail. No default, partial or skipped value takes the place of the failing item; the only fallbacks are the declared "
     "ones (the call of a marked transaction failing next to good extensions, lossy account rendering, raw instead of special values).",
     ["inputs", "fault_sequences"], "all inputs, and every failure of a buffer, external memory, registry or metadata access",
     "Tests use infallible in-memory buffers and registries, and check a few wrong inputs; a swallowed failure at another place is invisible.",
     ALLFN,
     [("error propagation in every specified function", "all functions reached from the public entry points")])

prop("C25", "Errors name the actual cause and place",
     "When decoding fails, the returned error is the one for the first failing step: the variant for its cause, wrapped according to the part "
     "being read, carrying the position at which the offending item starts or the identifier of the offending type, and conversions "
     "between the error types keep the wrapped error whole. Only the call split, the envelope prefix and the runtime version constant "
     "report one summary error whatever failed in them.",
     ["inputs", "fault_sequences"], "all failing inputs, registries, metadata and memory accesses",
     "Tests assert a few dozen error values; positions and causes of the others are never looked at.",
     ALLFN,
     [("error construction in every specified function", "all functions reached from the public entry points"),
      ("conversions between error types", "From impls in error.rs")])

prop("C28", "Valid data is never refused",
     "Decoding fails only for a stated cause: data that ends early or has surplus bytes, a value outside its type, an identifier the registry "
     "lacks, a metadata structure that is unsuitable, a failed identity check or a failed access. Any other input, whatever its types, "
     "lengths, names and values, is accepted, and amounts and unit names of any size can be formatted.",
     I, "all byte strings, registries and metadata",
     FEW + "types, lengths and values outside the recorded ones could be refused without any test noticing.",
     ALLFN,
     [("every return of an error in every specified function", "all functions reached from the public entry points")])

prop("C31", "Error texts tell variants apart and show their payload",
     "The displayed text of every error is non-empty, names the subject of its variant, differs from the text of every other variant of its "
     "type and writes out every value the variant carries in full: positions and identifiers in decimal, hashes in hex, texts and nested errors "
     "as they are, each at its own place in the wording. Formatting an error never fails by itself.",
     I, "all error values of all nine error types",
     "No test formats an error; compiling only shows that some text exists.",
     "src/error.rs",
     [("Display of the error types", "error_text, impl_display_and_error macros")],
     technique="per-path taint of error payload into the rendered text: abstract interpretation of every Display::fmt path over rustc "
               "MIR, decomposed into literal and payload pieces")

prop("C20", "Decoding is a pure function of its arguments",
     "Equal arguments give equal results, whatever was decoded before, in which thread, process or order: nothing in the library reads a clock, "
     "the environment, files, randomness, hash order or memory addresses, keeps state between calls, or changes anything but what it is given "
     "for change. The library has no unsafe code of its own.",
     ["inputs", "histories", "schedules"], "all arguments, histories of earlier calls and thread schedules",
     "A test sees one history in one process; hidden state or hash-order dependence shows only on a second call, another thread or another run.",
     ALLFN,
     [("absence of state, effects and unsafe code", "every function of the crate")],
     technique="whole-program effect analysis over rustc HIR/MIR: items, unsafe blocks, casts and every resolved callee of every body "
               "against a table of effect kinds")

prop("C21", "Memory is never reserved ahead of the data",
     "No function asks the allocator, in one step, for an amount taken from the input or from a type description (a compact element count, "
     "a text or bit length, an array length) that nothing present backs: every request for room is for a small fixed amount, or for no more than the "
     "length of something already held or of the data actually there. Lists of decoded items grow with the items, so a short input "
     "announcing billions of elements fails at its end without exhausting memory first.",
     I, "all byte strings, type registries and metadata",
     FEW + "a large announced count over a short input is never decoded in them, and a reservation of a small count shows no difference.",
     "src/decoding_sci.rs src/decoding_sci_ext.rs src/cards.rs src/printing_balance.rs src/storage_data.rs src/special_types.rs",
     [("element lists", "decode_with_type, wrap_sequence"), ("padding of amounts", "convert_balance_pretty"), ("indentation", "ExtendedCard::show")],
     note="Zero-width elements still take memory one by one as counted; only reservations in one step are decided.",
     technique="abstract interpretation of MIR: at every call that takes an amount of memory (with_capacity, reserve, vec![x; n], repeat, "
               "collecting or extending from a range) the amount must be bounded, in the linear-inequality domain, by a constant or a held length")

prop("C29", "Parsing and rendering always come to an end",
     "Every function returns on every input, however the type registry refers to itself and whatever counts the data announce: each loop "
     "moves through something finite that it does not itself extend, or past type identifiers it has not met before, and each recursive call "
     "works on data that lies further on in the input, on one more type identifier that had not been met at this place, or on a strict part of "
     "what its caller was given. (How long it takes is not claimed, nor how deep nested data may be for the stack.)",
     IP, "all byte strings, all type registries and metadata, including cyclic ones, all parsed data",
     FEW + "no recorded registry is cyclic and no recorded input makes a loop stand still.",
     "src/decoding_sci.rs src/decoding_sci_ext.rs src/propagated.rs src/cards.rs src/compacts.rs src/traits.rs src/storage_data.rs "
     "src/special_types.rs src/special_indicators.rs src/printing_balance.rs src/error.rs",
     [("recursion", "decode_with_type, ParsedData::card"), ("wrapping types", "husk_type"), ("compact length search", "find_compact"),
      ("all loops", "every function reachable from outside")],
     note="Implementations of ExternalMemory, AddressableBuffer, ResolveType and library iterators are assumed to return.",
     technique="termination by measures over MIR step relations: for every loop a counter with a fixed bound or a list of not yet contained "
               "ids, for every recursive call (call-graph components) a lexicographic measure on its arguments, decided in the "
               "linear-inequality and membership domain")

prop("C22", "Every build configuration behaves alike",
     "With and without the standard library, on 64-bit and 32-bit targets, with and without debug assertions, the library compiles and decodes, "
     "refuses and renders every input in the same way: no configuration adds, drops, reorders or changes an item, an error, its position or text, "
     "or panics where another does not.",
     ["inputs", "configurations"], "all inputs, over the four build configurations (default, no_std, 32-bit no_std, debug assertions)",
     "The test suite is built in one configuration only: 64-bit with default features and debug assertions on.",
     ALLFN,
     [("code under cfg attributes and debug assertions, pointer-width dependent arithmetic", "every specified function")],
     technique="path-sensitive interprocedural dataflow over rustc MIR run once per build configuration, refinement verdicts and reachable "
               "panics of the configurations compared function by function")

prop("C32", "Names, docs and type info accompany every item",
     "Every decoded item carries the metadata's own description unchanged: field and variant names, type names, docs joined line by line in order, "
     "pallet names and info, and the docs and paths of all types resolved on the way to the item, outermost first, each once, "
     "empty entries left out. List elements and storage keys and values carry the info of their own type.",
     I, "all registries, names, docs and nestings of types",
     FEW + "most recorded types have no docs, and nestings of documented single-field wrappers are not sampled.",
     "src/decoding_sci.rs src/cards.rs src/propagated.rs src/special_indicators.rs src/storage_data.rs",
     [("type info collection", "decode_with_type, husk_type, Propagated::add_info, add_info_slice, Info::from_ty, Info::is_empty"),
      ("names and docs of fields and variants", "decode_fields, decode_variant, Documented::collect_docs"),
      ("pallet data", "SpecialtyTypeChecked::from_type")])

prop("C27", "Eras are coded as in the runtime",
     "A first byte of zero is the immortal era and takes one byte. Otherwise two bytes hold, lowest four bits first, the binary logarithm of the "
     "period less one, and above them the phase in units of a 4096th of the period (at least one); periods below four and phases not below "
     "the period are refused. Encoding an era yields the bytes that decode to it, and the parser advances by one or two bytes accordingly.",
     I, "all byte pairs and all eras",
     "Three byte strings are tested; quantisation starts only above period 4096 and is never reached.",
     "src/additional_types.rs src/special_types.rs",
     [("era decoding and encoding", "Era as Decode, Era as Encode"), ("use in the parser", "special_case_era")])

prop("C30", "Nested data never exhausts the stack",
     "However deep the data nest (a recursive enum consuming one byte per level nests as deep as the data are long), decoding and rendering "
     "end with a value or an error instead of running out of stack.",
     I, "all byte strings and type registries with recursive types",
     "No test nests deeply.",
     "src/decoding_sci.rs src/cards.rs",
     [("recursion", "decode_with_type, ParsedData::card")],
     na="Nesting depth is a run-time quantity of the data, the stack's size one of the platform; the code has no depth limit whose presence a "
        "static rule could check, so no static bound on stack use exists (C29 decides that the recursion ends, C07 excludes stack depth).")

prop("C33", "Decoded values agree with native SCALE decoding",
     "For every value of a Rust type with derived SCALE encoding and type info, decoding its bytes with the registry entry of its type yields that value.",
     ["inputs", "programs"], "all types deriving Encode and TypeInfo, all their values",
     "Tests compare a few recorded values.",
     "src/decoding_sci.rs",
     [("dispatch on type definitions", "decode_with_type")],
     na="The oracle is another program's derived code (parity-scale-codec's Encode of arbitrary types); it is not in this repository and cannot be "
        "analysed against it. The encoding rules themselves are decided construct by construct in C09 to C13, C26 and C27.")

prop("C34", "Work and memory stay proportional to the input",
     "Decoding takes time and memory at most proportional to the length of the data and the size of the type descriptions used.",
     I, "all byte strings and type registries",
     "No test measures time or memory.",
     "src/decoding_sci.rs",
     [("element loops", "decode_elements_set")],
     na="A count of zero-width elements is a number in the data: by the encoding's own definition its decoding has that many items whatever the input's "
        "length, so the bound does not hold for the format and depends on run-time counts (C21 decides single-step reservations, C29 the end).")

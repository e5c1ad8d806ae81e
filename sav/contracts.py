"""Assumed/guaranteed contracts of calls kept opaque, added as facts when their
success is assumed.

Assumed (interface of the environment): `AddressableBuffer` implementations
respect their documented bounds.  Guaranteed (proved by the C07/C11 checks on
the bodies themselves, assume-guarantee over the recursion): a successful
`find_compact` / `decode_with_type` leaves the position inside the buffer and
never moves it backwards.
"""
from .terms import *
from . import facts as _facts

AB = "external_memory_tools::AddressableBuffer::"
FOUND = "compacts::FoundCompact"


def total_len(data):
    t = mk("call", AB + "total_len", data)
    term_range[t] = (0, INT_RANGE["isize"][1])
    return t


def _read_slice(f, c):
    _, data, _e, pos, n = c.args
    f.ineqs.append(sub(total_len(data), add(pos, n)))


def _read_byte(f, c):
    _, data, _e, pos = c.args
    f.ineqs.append(sub(total_len(data), add(pos, I(1))))


def _limit(f, c):
    _, data, n = c.args
    f.ineqs.append(sub(total_len(data), n))
    t = total_len(mk("fld", c, (RES, 0), 0, 1))
    f.ineqs.append(sub(t, n))
    f.ineqs.append(sub(n, t))


def _find_compact(f, c):
    _, data, _e, pos = c.args
    info = ADTS.get(FOUND)
    if info is None:
        return
    names = [x[0] for x in info["v"][0]["f"]]
    if "start_next_unit" not in names:
        return
    o = project(mk("fld", c, (RES, 0), 0, 1), FOUND, 0, names.index("start_next_unit"), len(names))
    note_type(o, "usize")
    f.ineqs.append(add(sub(o, pos), I(-1)))
    f.ineqs.append(sub(total_len(data), o))


def _decode(f, c):
    data, pos = c.args[2], c.args[4]
    o = mk("out", 3, c)
    note_type(o, "usize")
    f.ineqs.append(sub(o, pos))
    if f.entails(sub(total_len(data), pos)):
        f.ineqs.append(sub(total_len(data), o))


def _bits_from_words(f, c):
    m = c.args[0]
    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}.get(m[m.find("<") + 1:].split(",")[0].strip(" >"))
    if w:
        l = length(mk("fld", c, (RES, 0), 0, 1))
        d = sub(l, mulc(length(c.args[1]), w))
        f.ineqs.append(d)
        f.ineqs.append(mulc(d, -1))


def bitvec_positions(f, c):
    """what a successful BitVecPositions::new guarantees (checked on its body)"""
    info = ADTS.get("decoding_sci::BitVecPositions")
    if info is None:
        return
    _, data, _e, pos = c.args
    names = [x[0] for x in info["v"][0]["f"]]
    w = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(c.args[0][c.args[0].find("<") + 1:-1].split(",")[0])
    g = {}
    for i, n in enumerate(names):
        g[n] = project(mk("fld", c, (RES, 0), 0, 1), "decoding_sci::BitVecPositions", 0, i, len(names))
        note_type(g[n], "usize")
    if w is None or not {"bitvec_start", "bitvec_end", "minimal_length"} <= set(g):
        return
    e = add(g["bitvec_start"], g["minimal_length"])
    f.ineqs += [sub(g["bitvec_end"], e), sub(e, g["bitvec_end"]),
                sub(g["bitvec_start"], pos), sub(pos, g["bitvec_start"])]
    if {"data_start", "number_of_elements", "bit_length"} <= set(g):
        e = add(g["data_start"], mulc(g["number_of_elements"], w))
        f.ineqs += [sub(g["bitvec_end"], e), sub(e, g["bitvec_end"]),
                    sub(mulc(g["number_of_elements"], w * 8), g["bit_length"]),
                    add(sub(g["data_start"], pos), I(-1)),
                    sub(total_len(data), g["data_start"])]


RESULT_LEN[AB + "read_slice"] = lambda c: c.args[4]


def _pick(f, c):
    _, _vs, data, _e, pos = c.args
    f.ineqs.append(sub(total_len(data), add(pos, I(1))))


ON_OK = {
    "decoding_sci::pick_variant": _pick,
    "bitvec::vec::BitVec::try_from_vec": _bits_from_words,
    "decoding_sci::BitVecPositions::new": bitvec_positions,
    AB + "read_slice": _read_slice,
    AB + "read_byte": _read_byte,
    AB + "limit_length": _limit,
    "compacts::find_compact": _find_compact,
    "decoding_sci::decode_with_type": _decode,
}


def _limit_fails(f, c):
    """documented: cutting a buffer to a length within it cannot fail"""
    _, data, n = c.args
    over = add(sub(n, total_len(data)), I(-1))
    if f.entails(sub(total_len(data), n)):
        return False
    f.ineqs.append(over)


ON_ERR = {AB + "limit_length": _limit_fails}


CHECKED = "special_indicators::SpecialtyTypeChecked"


def _checked(f, c):
    """looking for a special type moves the position forward, inside the data"""
    data, pos = c.args[2], c.args[4]
    o = mk("out", 3, c)
    note_type(o, "usize")
    f.ineqs.append(sub(o, pos))
    if f.entails(sub(total_len(data), pos)):
        f.ineqs.append(sub(total_len(data), o))


def on_variant(f, t, path, v):
    if t.op != "call":
        return
    n = t.args[0]
    if path == _facts.REFRESH:
        i = n.find("<")
        m = n[:i] if i > 0 else n
        if v == 0 and m == "decoding_sci::decode_with_type":
            return _decode(f, t)
        if m == CHECKED + "::from_type":
            return _checked(f, t)
        return
    if path == CHECKED and n.startswith(CHECKED + "::from_type"):
        return _checked(f, t)
    if path != RES:
        return
    i = n.find("<")
    h = (ON_OK if v == 0 else ON_ERR).get(n[:i] if i > 0 else n)
    if h is not None:
        return h(f, t)


_facts.ON_VARIANT = on_variant

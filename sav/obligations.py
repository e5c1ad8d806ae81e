"""The refinement obligations: which function must agree with which specification."""
import time
from .ctx import Ctx, Anchor
from .interp import Unsupported
from .par import complete
from .spec import Checker, Why, compare, tail
from .models import top, types, decode, meta, cards, balance, errors

D = "decoding_sci::"


class Finding:
    """one disagreement; `key` carries no line numbers"""

    def __init__(self, fn, labels, text, where=None, under=None, bits="64"):
        self.fn, self.labels, self.text, self.where, self.under, self.bits = fn, frozenset(labels), text, where, under, bits

    def key(self):
        return "%s: %s" % (self.fn, self.text[:200])


class Obligation:
    def __init__(self, fn, specs, inst=None, need_ok=True):
        self.fn, self.inst = fn, inst
        self.specs = specs if isinstance(specs, (list, tuple)) else [specs]
        self.need_ok = need_ok

    def name(self):
        return self.fn + ("::<%s>" % self.inst if self.inst else "")


def table():
    t = {}

    def add(fn, spec, inst=None):
        o = Obligation(fn, spec, inst)
        t[o.name()] = o
    add("decode_all_as_type", top.m_decode_all_as_type)
    add("decode_as_type_at_position", top.m_decode_as_type_at_position)
    add(D + "decode_as_call_unmarked", top.m_decode_as_call_unmarked)
    add("decoding_sci_ext::decode_extensions_unmarked", top.m_decode_extensions_unmarked)
    add("parse_transaction", top.m_parse_transaction)
    add("parse_transaction_unmarked", top.m_parse_transaction_unmarked)
    add("unchecked_extrinsic::decode_as_unchecked_extrinsic", top.m_unchecked)
    add("storage_data::process_key_mapped", top.m_process_key_mapped)
    add("storage_data::decode_as_storage_entry", top.m_storage_entry)
    add(D + "decode_as_call", lambda ctx: top.m_decode_as_call(top.Marked(ctx)))
    add("decoding_sci_ext::decode_extensions", lambda ctx: top.m_decode_extensions(top.Marked(ctx)))
    add("MarkedData::mark", lambda ctx: top.m_mark(top.Marked(ctx)))
    add("MarkedData::data_no_extensions", lambda ctx: top.m_data_no_extensions(top.Marked(ctx)))
    for n in (D + "decode_as_call", "decoding_sci_ext::decode_extensions", "MarkedData::mark",
              "MarkedData::data_no_extensions"):
        t[n].needs_ctx = True
    add(D + "decode_with_type", decode.m_decode_with_type)
    for f, s in list(types.TABLE.items()) + list(meta.TABLE.items()) + list(cards.TABLE.items()) \
            + list(balance.TABLE.items()) + list(errors.TABLE.items()):
        add(f, s)
    for ty, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)):
        add(D + "BitVecPositions::new", types.m_bitvec_positions(n), ty)
    for ty in types.COMPACT_TYPES:
        # 17 bytes hold any compact up to 2^128; trying one more changes nothing
        add("compacts::find_compact", [types.m_find_compact(ty, b) for b in (18, 17, None)], ty)
    return t


class Result:
    def __init__(self):
        self.findings = []
        self.paths = self.leaves = self.steps = self.loops = self.panics = 0
        self.samples = []
        self.wall = 0.0


def check(ctx, ob, bits="64"):
    """paths of one function against its specification"""
    try:
        return complete(_check, ctx, ob, bits)
    except Unsupported as e:
        r = Result()
        r.findings.append(Finding(ob.name(), {"*"}, "%s cannot be analysed: %s" % (ob.fn, e), bits=bits))
        return r


def _check(ctx, ob, bits):
    r = Result()
    t0 = time.time()
    try:
        ps = ctx.paths(ob.fn, inst=ob.inst)
        specs = [s(ctx) for s in ob.specs] if getattr(ob, "needs_ctx", False) else ob.specs
    except Anchor as e:
        r.findings.append(Finding(ob.name(), {"*"}, str(e), bits=bits))
        r.wall = time.time() - t0
        return r
    r.paths = len([p for p in ps if p.kind == "ret"])
    r.panics = len(ps) - r.paths
    best = None
    for spec in specs:
        ch = Checker()
        bad = []
        for p, fa, why in ch.run(ps, spec):
            bad.append(Finding(ob.name(), getattr(why, "labels", None) or {"*"}, str(why),
                               getattr(p, "site", None), tail(fa, 10), bits))
            if len(bad) >= 40:
                break
        if best is None or len(bad) < len(best[0]):
            best = (bad, ch)
        if not bad:
            break
    bad, ch = best
    r.findings, r.leaves, r.steps, r.loops = bad, ch.nleaves, ch.nback, ch.nloops
    if not r.paths:
        r.findings.append(Finding(ob.name(), {"*"}, "no returning path was found", bits=bits))
    for p in ps[:: max(1, len(ps) // 3)][:3]:
        if p.kind == "ret":
            r.samples.append("%s under [%s]" % (ob.name(), tail(p.facts, 4)[:300]))
    r.wall = time.time() - t0
    return r

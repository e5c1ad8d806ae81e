"""Analysis context: one dumped program, cached path summaries, reporting."""
import time
from . import terms as T
from .terms import *
from .interp import Program, Interp, strip_generics, Unsupported
from . import contracts                                     # noqa: F401 (registers the hooks)
from .spec import Checker, Mismatch, show, tail

OPAQUE = {
    "decoding_sci::decode_with_type", "decoding_sci::pick_variant", "decoding_sci::husk_type",
    "decoding_sci::find_bit_order_ty", "decoding_sci::BitVecPositions::new",
    "special_indicators::SpecialtyTypeChecked::from_type",
    "special_indicators::SpecialtyTypeHinted::from_type",
    "special_indicators::SignatureIndicator::from_field",
    "special_indicators::Hint::from_field", "special_indicators::Hint::from_path",
    "special_indicators::Hint::from_ext_meta",
    "cards::Info::from_ty", "cards::Documented::collect_docs", "cards::ParsedData::card",
    "cards::ExtendedData::card", "cards::Call::card", "cards::Event::card", "cards::Info::flatten",
    "cards::IdData::from_account_id32", "cards::IdData::from_public_ed25519",
    "cards::IdData::from_public_sr25519", "cards::IdData::from_public_ecdsa",
    "cards::ExtendedCard::show", "cards::ExtendedCard::show_with_docs",
    "compacts::find_compact", "printing_balance::AsBalance::convert_balance_pretty",
}


class Anchor(Exception):
    """something the property is about cannot be found / analysed any more"""


class Ctx:
    def __init__(self, dump):
        self.p = Program(dump)
        self._paths = {}

    def body(self, path):
        b = self.p.root(path)
        if b is None:
            raise Anchor("function %s not found in the crate" % path)
        return b

    def instance(self, path, inst):
        """the body of a generic function at the given leading type arguments"""
        pre = "%s::<%s, " % (path, inst)
        r = [b for k, b in self.p.bodies.items() if b["p"] == path and k.startswith(pre) and ", B, E>" in k]
        if len(r) != 1:
            raise Anchor("function %s::<%s> not found in the crate" % (path, inst))
        return r[0]

    def body_of(self, ob):
        return self.body(ob.fn) if ob.inst is None else self.instance(ob.fn, ob.inst)

    def paths(self, path, opaque=None, key=None, assume=None, inst=None):
        k = (path, key, inst)
        r = self._paths.get(k)
        if r is None:
            b = self.body(path) if inst is None else self.instance(path, inst)
            it = Interp(self.p, (OPAQUE if opaque is None else opaque) - {path})
            try:
                ps = it.analyse(b, assume)
            except Unsupported as e:
                raise Anchor("%s cannot be analysed: %s" % (path, e))
            r = self._paths[k] = (ps, it)
        return r[0]

    def where(self, path):
        b = self.p.root(path)
        return "%s (%s)" % (path, b["span"] if b and "span" in b else "?")


def IN(i, ty=None):
    t = mk("in", i)
    if ty:
        note_type(t, ty)
    return t

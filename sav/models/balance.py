"""Reference behaviour: balances as text with unit prefixes.

With d decimals and n = number of digits - 1 the leading digit has the weight
10^(n-d).  The prefix exponent is the smallest multiple of three that leaves at
least one digit before the point, within tera- and atto-."""
from .types import *
from ..builtins import cat, strrep, disp

CUR = "printing_balance::Currency"
PREFIX = {-4: "T", -3: "G", -2: "M", -1: "k", 0: "", 1: "m", 2: "u", 3: "n", 4: "p", 5: "f", 6: "a"}
LOW, HIGH = -4, 6


def m_balance(ty):
    def m(o):
        v, d, unit = num(IN(1), ty), num(IN(2), "u8"), IN(3)
        text = disp(v, {"k": "uint", "s": ty})
        n = length(text)

        def done(number, mag):
            return A(CUR, None, number=number, units=cat(S(PREFIX[mag]), unit)), {}
        order = sub(n, I(1))
        if o.test(int_eq(v, I(0))):
            o.tag("zero")
            for mag in range(0, HIGH + 1):
                for k in range(3):
                    if 3 * mag + k <= 3 * HIGH and o.test(int_eq(d, I(3 * mag + k))):
                        return done(S("0." + "0" * k if k else "0"), mag)
            return high(o, d, S("0"), I(0), done)
        # d - order <= 3 mag  <=>  the leading digit stays before the point
        for mag in range(LOW, HIGH + 1):
            if o.test(le(sub(d, order), I(3 * mag))):
                after = sub(d, I(3 * mag))
                o.tag("prefix")
                for k in (0, 1, 2):
                    if o.test(int_eq(after, I(-k))):
                        return done(cat(text, S("0" * k)), mag)
                cut = sub(n, after)
                return done(cat(cat(subseq(text, I(0), cut), S(".")), subseq(text, cut, n)), mag)
        return high(o, d, text, order, done)
    return m


def high(o, d, text, order, done):
    o.tag("atto")
    fill = sub(sub(d, order), I(3 * HIGH + 1))
    return done(cat(cat(S("0."), strrep(S("0"), fill)), text), HIGH)


TABLE = {"<%s as printing_balance::AsBalance>::convert_balance_pretty" % t: m_balance(t)
         for t in ("u8", "u16", "u32", "u64", "u128")}

"""P10: floats are IEEE 754 single/double precision numbers, stored big-endian, rounded to nearest even."""
import itertools
import math
from fractions import Fraction
import env
from explorer import unit, outcome, rejects

cdt = env.mod("types.common_data_types")
T = {32: (cdt.Float32, 8, 23, b"\x17"), 64: (cdt.Float64, 11, 52, b"\x18")}


def value(bits, n):
    """exact number of a bit pattern; None when it is not a finite number"""
    _, e, f, _ = T[n]
    s, ex, fr = bits >> n - 1, bits >> f & (1 << e) - 1, bits & (1 << f) - 1
    bias = (1 << e - 1) - 1
    if ex == (1 << e) - 1:
        return None
    m = Fraction(fr, 1 << f) + (1 if ex else 0)
    x = m * Fraction(2) ** ((ex or 1) - bias)
    return -x if s else x


def nearest(x, n):
    """bit pattern (without sign) of the number nearest to Fraction x >= 0, ties to even; None on overflow"""
    _, e, f, _ = T[n]
    top = ((1 << e) - 1 << f) - 1
    lo, hi = 0, top
    while lo < hi:                               # largest pattern whose value <= x
        mid = (lo + hi + 1) // 2
        if value(mid, n) <= x:
            lo = mid
        else:
            hi = mid - 1
    if lo == top:
        ulp = value(top, n) - value(top - 1, n)
        return None if x >= value(top, n) + ulp / 2 else top
    a, b = x - value(lo, n), value(lo + 1, n) - x
    return lo if a < b or a == b and lo % 2 == 0 else lo + 1


def fractions_of(f):
    yield from {0, 1, 2, 3, (1 << f) - 1, (1 << f) - 2, 1 << f - 1, (1 << f - 1) - 1, (1 << f - 1) + 1, 0x155555555555555 & (1 << f) - 1, 0xaaaaaaaaaaaaa & (1 << f) - 1} | {1 << k for k in range(f)} | {(1 << f) - (1 << k) for k in range(f)}


@unit("patterns", 4)
def patterns(ctx):
    ctx.bound("32 bit: all 256 exponents x ~55 fractions x 2 signs; 64 bit: every exponent near the ends, the middle and every 7th x ~110 fractions x 2 signs: decoded exactly, built back from the number, its text and its hex text")

    def one(case, o):
        n, bits = case
        t, e, f, tag = T[n]
        c = bits.to_bytes(n // 8, "big")
        v = t(tag + c)
        o.eq((v.contents, v.encoding), (c, tag + c), "contents", "contents")
        want = value(bits, n)
        if want is None:
            return
        d = v.decode()
        o.eq((Fraction(d), math.copysign(1, d) < 0), (want, bool(bits >> n - 1)), f"number of {c.hex()}", "decode")
        o.eq(t(d).contents, c, "from the number", "from-float")
        o.eq(t(str(v)).contents, c, f"from its text {v}", "text")
        o.eq(t(d.hex()).contents, c, f"from hex text {d.hex()}", "hex")
        o.eq(t(bytearray(c)).contents, c, "from contents", "contents")
        o.eq(t(v).contents, c, "from a value of the type", "same")
        m = 96 - n           # the other width
        u = nearest(abs(want), m)
        if u is None:
            rejects(o, lambda: T[m][0](v), (ValueError, OverflowError), f"{v} does not fit in {m} bits", "other")
        else:
            c2 = (u | bits >> n - 1 << m - 1).to_bytes(m // 8, "big")
            o.eq(T[m][0](v).contents, c2, f"{v} in {m} bits", "other")
            x = T[m][0]()
            x.set(v)
            o.eq(x.contents, c2, f"{v} set in {m} bits", "other")
        if want.denominator == 1 and abs(want) < 1 << 62:
            o.eq(t(int(want)).decode(), float(want), "from an integer", "int")
    step = ctx.pick(37, 5)
    exps = {32: range(256), 64: sorted(set(range(0, 2048, step)) | {0, 1, 2, 3, 1021, 1022, 1023, 1024, 1025, 1074, 1075, 1076, 2044, 2045, 2046, 2047})}
    ctx.all("patterns", ((n, s << n - 1 | ex << T[n][2] | fr) for n in (32, 64) for ex in exps[n] for fr in sorted(fractions_of(T[n][2])) for s in (0, 1)), one)


@unit("rounding", 4)
def rounding(ctx):
    ctx.bound("numbers on, half-way between and just beside neighbouring 32-bit patterns at every 3rd exponent, overflow refused; infinite and not-a-number values refused")

    def one(case, o):
        bits, k = case
        a = value(bits, 32)
        b = value(bits + 1, 32) or (a + (a - value(bits - 1, 32)))
        x = a + (b - a) * k / 8
        if k in (3, 5):
            x = a + (b - a) / 2 + (b - a) * (k - 4) / (1 << 20)
        d = float(x)
        assert Fraction(d) == x
        for sign in (1, -1):
            want = nearest(x, 32)
            if want is None:
                rejects(o, lambda: cdt.Float32(sign * d), (ValueError, OverflowError), f"{sign * d} does not fit", "overflow")
                rejects(o, lambda: cdt.Float32(str(sign * d)), (ValueError, OverflowError), f"text {sign * d} does not fit", "overflow")
            else:
                want |= (1 << 31) if sign < 0 else 0
                o.eq(cdt.Float32(sign * d).contents, want.to_bytes(4, "big"), f"{sign * d} rounded", "round")
                o.eq(cdt.Float32(repr(sign * d)).contents, want.to_bytes(4, "big"), f"text {sign * d} rounded", "round")
    exps = sorted(set(range(0, 255, ctx.pick(3, 1))) | {0, 1, 254})
    ctx.all("round", ((ex << 23 | fr, k) for ex in exps for fr in (0, 1, 2, 0x2aaaaa, 0x7ffffe, 0x7fffff) for k in (0, 2, 3, 4, 5, 6)), one)

    def bad(case, o):
        t, x = case
        rejects(o, lambda: t(x), (ValueError, OverflowError), f"{x!r} is no number", "refuse")
    ctx.all("refuse", [(t, x) for t in (cdt.Float32, cdt.Float64) for x in (float("inf"), -float("inf"), float("nan"), "inf", "-inf", "nan", "", "xyz", "1.2.3", "1e999", 10**400)], bad)


@unit("texts")
def texts(ctx):
    ctx.bound("decimal texts: 13 mantissas x signs x 61 exponents, against exact arithmetic; set, copy, clear")

    def one(case, o):
        m, e, sign = case
        x = Fraction(m) * Fraction(10) ** e
        s = f"{'-' if sign else ''}{m}e{e}"
        for n in (32, 64):
            t, _, _, tag = T[n]
            # a text is first read as a double, then stored
            d64 = nearest(x, 64)
            y = value(d64, 64)
            want = nearest(y, n)
            if want is None:
                rejects(o, lambda: t(s), (ValueError, OverflowError), f"text {s} does not fit", "overflow")
                continue
            want |= sign << n - 1
            v = t(s)
            o.eq(v.contents, want.to_bytes(n // 8, "big"), f"text {s}", "text")
            w = t()
            w.set(s)
            o.eq(w.contents, v.contents, "set", "set")
            o.ok(v.copy() == v and v.copy().contents == v.contents, "copy", "copy")
            w.clear()
            o.eq((w.contents, w.decode()), (bytes(n // 8), 0.0), "clear", "clear")
    ctx.all("texts", itertools.product(("0", "1", "2.5", "0.1", "0.3", "1.1", "3.14159265358979", "9.999999", "16777217", "16777219", "1234567.891", "4.7", "8.589973"), range(-50, 40), (0, 1)), one)

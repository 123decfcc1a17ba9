"""P07: integer types: range, text, scaling with a scaler and unit, comparison, shifts, constrained subclasses."""
import itertools
import os
from fractions import Fraction
import env
import ref
from explorer import unit, outcome, rejects, Mismatch

cdt = env.mod("types.common_data_types")
NAMES = {15: "Integer", 16: "Long", 5: "DoubleLong", 20: "Long64", 17: "Unsigned", 18: "LongUnsigned", 6: "DoubleLongUnsigned", 21: "Long64Unsigned"}
TYPES = {t: getattr(cdt, n) for t, n in NAMES.items()}


def rng(t):
    n, s = ref.INT[t]
    return (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)


def values(t, dense):
    lo, hi = rng(t)
    n, _ = ref.INT[t]
    if n == 1 or n == 2 and dense:
        return range(lo, hi + 1)
    s = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 9, 10, 99, 100, 12345, 5 * 10**8, 999999999}
    for k in range(8 * n):
        s |= {(1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), -(1 << k) - 1, 1 - (1 << k)}
    for k in range(1, 20):
        s |= {10**k - 1, 10**k, 10**k + 1, -10**k, 29 * 10**k // 100}
    return sorted(x for x in s if lo <= x <= hi)


@unit("plain", 4)
def plain(ctx):
    ctx.bound("all 8-bit values, 16-bit values (all in thorough), powers of 2 and 10 and neighbours of the wider types; construction from octets, contents, int, text, another object; values outside the range refused and unchanged")

    def one(case, o):
        t, x = case
        T = TYPES[t]
        n, s = ref.INT[t]
        c = x.to_bytes(n, "big", signed=s)
        for v in (T(x), T(str(x)), T(bytes([t]) + c), T(bytearray(c)), T(T(x))):
            o.eq((v.contents, v.encoding, v.decode(), int(v), str(v)), (c, bytes([t]) + c, x, x, str(x)), f"{T.__name__}({x})", "value")
        v = T()
        o.eq(v.decode(), 0, "default", "default")
        v.set(x)
        o.eq(v.decode(), x, "set", "set")
        v.clear()
        o.eq(v.decode(), 0, "clear", "clear")
        o.eq(v.get_copy(x).decode(), x, "copy with a value", "copy")
        o.eq(v.decode(), 0, "the copied object", "copy")
    ctx.all("values", ((t, x) for t in TYPES for x in values(t, not ctx.quick)), one)

    def out(case, o):
        t, x = case
        T = TYPES[t]
        rejects(o, lambda: T(x), (ValueError,), f"{T.__name__}({x})", "range")
        rejects(o, lambda: T(str(x)), (ValueError,), f"{T.__name__}('{x}')", "range")
        v = T(1)
        rejects(o, lambda: v.set(x), (ValueError,), f"set({x})", "range")
        o.eq(v.decode(), 1, "object after a refused set", "range")
    ctx.all("out-of-range", [(t, x) for t in TYPES for lo, hi in [rng(t)] for x in (lo - 1, hi + 1, lo - 2, hi * 2 + 1, hi * 2 + 2, -hi * 3 - 3, 10**30, -10**30)], out)
    ctx.all("texts", [(t, s) for t in TYPES for s in ("", " ", "a", "0x", "0x1", "0X0a", "0b1", "0o7", "1a", "1 0", "1,0", "+", "+-1", "--", "1-", "1.2.3", "--1", "nan", "inf", "1e999")], lambda c, o: rejects(o, lambda: TYPES[c[0]](c[1]), (ValueError,), f"text {c[1]!r}", "text"))


@unit("order")
def order(ctx):
    ctx.bound("comparison of every pair of about 40 values within and across types; equal objects hash alike")
    vals = {t: [x for x in values(t, False) if abs(x) in (0, 1, 2, 9, 100, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 63) - 1)] for t in TYPES}
    allv = [(t, x) for t in vals for x in vals[t]]

    def one(case, o):
        (t, x), (u, y) = case
        a, b = TYPES[t](x), TYPES[u](y)
        o.eq(a > b, x > y, f"{x} > {y}", "gt")
        o.eq(a > y, x > y, f"{x} > int {y}", "gt")
        o.eq(a == b, (t, x) == (u, y), f"{a!r} == {b!r}", "eq")
        if t == u:
            o.eq(a < b, x < y, f"{x} < {y}", "gt")
            if x == y:
                o.ok(hash(a) == hash(b), "hash", "hash")
    ctx.all("pairs", itertools.product(allv, allv), one)

    def shifts(case, o):
        t, x, k = case
        n, s = ref.INT[t]
        u = x & (1 << 8 * n) - 1
        v = TYPES[t](x)
        v << k
        o.eq(int.from_bytes(v.contents, "big"), u << k & (1 << 8 * n) - 1, f"{x} << {k}", "shift")
        v = TYPES[t](x)
        v >> k
        o.eq(int.from_bytes(v.contents, "big"), u >> k, f"{x} >> {k}", "shift")
    ctx.all("shifts", [(t, x, k) for t in TYPES for x in vals[t] for k in (0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 70)], shifts)


def exact(raw, p):
    return Fraction(raw) * Fraction(10) ** p


def text_of(raw, p):
    if p >= 0:
        return str(raw * 10 ** p)
    q = -p
    a = abs(raw)
    return ("-" if raw < 0 else "") + f"{a // 10 ** q}.{a % 10 ** q:0{q}d}"


@unit("scaled", 6)
def scaled(ctx):
    ctx.bound("scaler -8..8 with units 27 (W), 255 and 33 (A) x 8-bit values all, wider ones at powers of 2 and 10 below 2^49: built-in number, text, report, text and number read back to the same raw value; whole numbers up to 2^64 at scales 0, -1 and -2 to the last digit")
    LIM = 1 << 49
    sc = ctx.pick((-8, -5, -3, -2, -1, 0, 1, 2, 3, 6), range(-8, 9))

    def one(case, o):
        t, x, p, u = case
        T = TYPES[t]
        su = cdt.ScalUnitType((p, u))
        raw = bytes([t]) + x.to_bytes(ref.INT[t][0], "big", signed=ref.INT[t][1])
        for v in (T(raw, su), T(raw)):
            if v.SCALER_UNIT is None:
                v.SCALER_UNIT = su
            eff = p - su.unit.get_scaler()
            o.eq(v.encoding, raw, "raw value", "raw")
            d = v.decode()
            e = exact(x, eff)
            o.ok(abs(Fraction(d) - e) <= abs(e) / 10**14, f"{x} at 10^{eff}: {d!r}", "decode")
            o.eq(str(v), text_of(x, eff), "text", "text")
            o.eq(v.get_report(with_unit=False), text_of(x, eff), "report without unit", "report")
            o.eq(v.get_report(), f"{text_of(x, eff)} {su.unit}", "report", "report")
            o.eq(T(str(v), su).encoding, raw, f"read back from text {v}", "text-back")
            o.eq(T(d, su).encoding, raw, f"read back from {d!r}", "number-back")
            w = T(bytes([t]) + bytes(ref.INT[t][0]), su)
            w.set(str(v))
            o.eq(w.encoding, raw, "set from text", "text-back")
            o.eq(w.copy().encoding, raw, "copy keeps the raw value", "copy")
            o.eq((str(w.copy()), w.copy().get_report(), w.copy().decode()), (str(w), w.get_report(), d), "copy keeps the scaler and the unit", "copy")
    ctx.all("scaled", ((t, x, p, u) for t in TYPES for x in values(t, False) if abs(x) < LIM and (abs(x) < 256 or x % 3 != 1 or not ctx.quick) for p in sc for u in (27, 255, 33)[:ctx.pick(1 if abs(x) > 1000 else 2, 3)]), one)

    def again(case, o):
        """a scaler and unit given once stays"""
        t, (p, u), (q, w), first = case
        su, other = cdt.ScalUnitType((p, u)), cdt.ScalUnitType((q, w))
        v = TYPES[t](bytes([t]) + bytes(ref.INT[t][0] - 1) + b"\5", su) if first else TYPES[t](bytes([t]) + bytes(ref.INT[t][0] - 1) + b"\5")
        v.SCALER_UNIT = su
        was = v.get_report()
        st, _ = outcome(setattr, v, "SCALER_UNIT", other)
        o.eq(st, "ok" if (p, u) == (q, w) else "err", f"{(p, u)} then {(q, w)}", "again")
        o.eq((v.get_report(), v.SCALER_UNIT.encoding), (was, su.encoding), f"{(p, u)} then {(q, w)}", "again")
        v.SCALER_UNIT = None
        o.eq(v.decode(), 5, "without scaler", "again")
        v.SCALER_UNIT = other
        o.eq(v.SCALER_UNIT.encoding, other.encoding, "another one", "again")
    some = [(p, u) for p in (-2, 0, 1) for u in (27, 30, 255)]
    ctx.all("twice", itertools.product(TYPES, some, some, (0, 1)), again)

    def exactly(case, o):
        """whole numbers keep every digit"""
        t, x, p = case
        su = cdt.ScalUnitType((p, 255))
        n, sg = ref.INT[t]
        for src in (x, str(x)):
            o.eq(TYPES[t](src, su).contents, (x * 10 ** -p).to_bytes(n, "big", signed=sg), f"{src!r} at 10^{p}", "exact")
            v = TYPES[t](bytes([t]) + bytes(n), su)
            v.set(src)
            o.eq(v.contents, (x * 10 ** -p).to_bytes(n, "big", signed=sg), f"set to {src!r} at 10^{p}", "exact")
        if p == 0:
            v = TYPES[t](bytes([t]) + x.to_bytes(n, "big", signed=sg), su)
            o.eq((v.decode(), str(v)), (x, str(x)), f"{x} at 10^0", "exact")
    ctx.all("whole numbers", [(t, x, p) for t in TYPES for k in (0, 1, 7, 8, 15, 16, 31, 32, 52, 53, 54, 60, 62, 63, 64) for d in (-1, 0, 1, 3) for s in (1, -1) for p in (0, -1, -2) for x in [s * (2 ** k + d) // 10 ** -p]
                              if -(2 ** (8 * ref.INT[t][0] - 1)) * ref.INT[t][1] <= x * 10 ** -p < 2 ** (8 * ref.INT[t][0] - ref.INT[t][1])], exactly)

    def halves(case, o):
        x, p = case
        su = cdt.ScalUnitType((p, 27))
        v = cdt.DoubleLong(float(exact(x, p - su.unit.get_scaler())), su)
        o.eq(int.from_bytes(v.contents, "big", signed=True), x, f"{x} at 10^{p}", "number-back")
    ctx.all("decimals", [(x, p) for x in range(-ctx.pick(1200, 12000), ctx.pick(1200, 12000)) for p in (-1, -2, -3, -4)], halves)

    def big(case, o):
        x, p = case
        su = cdt.ScalUnitType((p, 255))
        rejects(o, lambda: cdt.Integer(x, su), (ValueError,), f"{x} at 10^{p}", "range")
    ctx.all("out-of-range", [(1.28, -2), (128, 0), (12.8, -1), (-12.9, -1), (1280, 1), (1e300, -8), (float("inf"), -1), (float("nan"), -1)], big)


@unit("constrained")
def constrained(ctx):
    ctx.bound("subclasses limited to min..max or to one constant: every 8-bit value")

    def one(case, o):
        base, lo, hi = case

        class C(base, min=lo, max=hi):
            pass
        r = rng(base.TAG[0])
        for x in range(r[0], r[1] + 1):
            ok = (lo is None or x >= lo) and (hi is None or x <= hi)
            for arg in (x, str(x), bytes(base.TAG) + x.to_bytes(1, "big", signed=r[0] < 0), bytearray(x.to_bytes(1, "big", signed=r[0] < 0))):
                st, v = outcome(C, arg)
                o.eq(st, "ok" if ok else "err", f"{arg!r} in {lo}..{hi}", "limits")
            if ok:
                w = C(x)
                w.clear()
                o.ok((lo is None or int(w) >= lo) and (hi is None or int(w) <= hi), "cleared value within the limits", "limits")
        o.eq(int(C()), max(0, lo or 0), "default", "default")
    ctx.all("limits", [(b, lo, hi) for b in (cdt.Unsigned, cdt.Integer) for lo in (None, -128, -5, 0, 1, 5) for hi in (None, 0, 5, 100, 127) if (b is cdt.Integer or (lo or 0) >= 0) and (hi is None or hi >= (lo or 0))], one)

    def const(k, o):
        class K(cdt.Unsigned, value=k):
            pass
        for x in range(256):
            st, v = outcome(K, x)
            o.eq(st, "ok" if x == k else "err", f"constant {k} from {x}", "constant")
    ctx.all("constant", (0, 1, 7, 255), const)

"""P44: data whose type is to be chosen - the choices of attribute types, and structures whose first element chooses the type of the second."""
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects, _Silent as Quiet

cdt, ut, cst, ch = (env.mod(f"types.{n}") for n in ("common_data_types", "useful_types", "cosem_service_types", "choices"))
p2, s1 = env.mod("cosem_interface_classes.push_setup.ver2"), env.mod("cosem_interface_classes.security_setup.ver1")
ASSUMPTIONS = ["tags as in the Blue Book; without a value an octet string that is a date is a date and time", "a structure and a compact array have no default value: only their encodings are read"]

NAMES = {0: "NullData", 1: "Array", 2: "Structure", 3: "Boolean", 4: "BitString", 5: "DoubleLong", 6: "DoubleLongUnsigned", 9: "OctetString", 10: "VisibleString", 12: "Utf8String", 13: "Bcd", 15: "Integer",
         16: "Long", 17: "Unsigned", 18: "LongUnsigned", 19: "CompactArray", 20: "Long64", 21: "Long64Unsigned", 22: "Enum", 23: "Float32", 24: "Float64", 25: "DateTime", 26: "Date", 27: "Time"}
SIMPLE = [k for k in NAMES if k not in (1, 2, 19)]
DATES = {12: "OctetStringDateTime", 5: "OctetStringDate", 4: "OctetStringTime"}
CHOICES = {"simple_dt": SIMPLE, "complex_dt": [1, 2, 19], "common_dt": list(NAMES), "extended_register": [0, 4, 6, 9, 10, 12, 17, 18, 21],
           "register": [0, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24], "access_selectors": [0, 1], "device_id_object": [6, 9, 10, 12, 17, 18], "any_date_time": [25, 26, 27, 9]}
# encodings of each type that are the same octets when read and written
SAMPLE = {0: [b"\0"], 1: [r.ar(), r.ar(r.u8(1), r.u8(2))], 2: [r.st(r.u8(1)), r.st(r.u8(1), r.os(b"ab"))], 3: [b"\3\0", b"\3\1"], 4: [b"\4\0", b"\4\3\xa0", b"\4\10\xff"], 5: [b"\5\xff\xff\xff\xfe"], 6: [b"\6\0\0\1\0"],
          9: [b"\x09\0", b"\x09\1a", b"\x09\3abc"], 10: [b"\x0a\2ab"], 12: [b"\x0c\2ab"], 13: [b"\x0d\x12"], 15: [b"\x0f\xfe"], 16: [b"\x10\xff\xfe"], 17: [b"\x11\xfe"], 18: [b"\x12\1\0"], 20: [b"\x14" + b"\xff" * 8],
          21: [b"\x15" + bytes(range(8))], 22: [b"\x16\5"], 23: [b"\x17\x3f\x80\0\0"], 24: [b"\x18\x3f\xf0" + bytes(6)],
          25: [b"\x19\x07\xe4\x02\x05\x03\x0a\x0b\x0c\x0d\x00\x78\x00"], 26: [b"\x1a\x07\xe4\x02\x05\x03"], 27: [b"\x1b\x0a\x0b\x0c\x0d"]}
OCT_DATES = {12: b"\x09\x0c\x07\xe4\x02\x05\x03\x0a\x0b\x0c\x0d\x00\x78\x00", 5: b"\x09\x05\x07\xe4\x02\x05\x03", 4: b"\x09\x04\x0a\x0b\x0c\x0d"}


@unit("choices")
def choices(ctx):
    ctx.bound(f"{len(CHOICES)} choices of types x all 256 tags, by tag and by encoding, with and without force; octet strings of 0 to 15 octets as dates")

    def by_tag(c, o):
        n, t = c
        x = getattr(ch, n)
        known = t in CHOICES[n]
        o.eq(x.is_key(t), known, f"{n}: tag {t} known", "known")
        k, v = outcome(x, t)
        if not known:
            o.ok(k == "err" and isinstance(v, ut.UserfulTypesException), f"{n}({t}): {v!r}", "refused")
            for e in (bytes([t]), bytes([t, 0]), *SAMPLE.get(t, ())):
                k, v = outcome(x, e)
                o.ok(k == "err" and isinstance(v, ut.UserfulTypesException), f"{n}({e.hex()}): {v!r}", "refused")
        else:
            want = DATES[12] if n == "any_date_time" and t == 9 else NAMES[t]
            if t not in (2, 19):
                o.eq(type(v).__name__ if k == "ok" else v, want, f"{n}({t})", "default")
                o.eq(int.from_bytes(v.TAG, "big"), t, f"{n}({t})", "tag")
            if not (n == "any_date_time" and t == 9):
                for e in SAMPLE.get(t, ()):
                    k, v = outcome(x, e)
                    o.eq((type(v).__name__, v.encoding) if k == "ok" else v, (want, e), f"{n}({e.hex()})", "encoding")
        k, v = outcome(x, t, True)
        if t not in (2, 19):
            o.eq(type(v).__name__ if k == "ok" else k, NAMES.get(t, "err"), f"{n}({t}) forced", "forced")
    ctx.all("tags", itertools.product(CHOICES, range(256)), by_tag)

    def dates(n, o):
        e = OCT_DATES.get(n, bytes([9, n]) + bytes([7] * n))
        k, v = outcome(ch.any_date_time, e)
        o.eq((type(v).__name__, v.encoding) if k == "ok" else k, (DATES[n], e) if n in DATES else "err", f"octet string of {n} octets as a date", "dates")
        for tail in (b"\0", b"\x09\x04", bytes(12)):
            k, v = outcome(ch.any_date_time, e + tail)
            o.eq((type(v).__name__, v.encoding) if k == "ok" else k, (DATES[n], e) if n in DATES else "err", f"octet string of {n} octets as a date before other octets", "dates")
        for i in range(1, len(e)):
            k, v = outcome(ch.any_date_time, e[:i])
            o.eq(k, "err", f"octet string of {n} octets cut to {e[:i].hex()} as a date: {v!r}", "dates-cut")
    ctx.all("dates", range(16), dates)

    def whole(n, o):
        x = getattr(ch, n)
        o.eq(len(x), len(CHOICES[n]), f"{n}: number of types", "length")
        w = [y for t in CHOICES[n] for y in (DATES.values() if n == "any_date_time" and t == 9 else [NAMES[t]])]
        o.eq(sorted(t.__name__ for t in x.get_types()), sorted(w), f"{n}: types", "types")
        for t in CHOICES[n]:
            if not isinstance(x[t], dict):
                o.eq(x[t].TYPE.__name__, NAMES[t], f"{n}[{t}]", "element")
        rejects(o, lambda: x("text"), (ValueError,), f"{n} of a text", "text")
    ctx.all("whole", CHOICES, whole)


# ------------------------------------------------------------------ a structure whose first element chooses the second
D1, D2 = b"\x09\5\7\xe4\1\1\xff", b"\x09\5\7\xe4\2\3\xff"
BOX = {  # class, {type: [(encoding, as python values)]}
    "RestrictionElement": (p2, {0: [(b"\0", None)], 1: [(r.st(D1, D2), None), (r.st(D2, D1), None)], 2: [(r.st(r.u32(1), r.u32(9)), ["1", "9"]), (r.st(r.u32(5), r.u32(5)), ("5", "5"))]}),
    "KeyInfoElement": (p2, {0: [(b"\x16\0", "0"), (b"\x16\1", "1")], 1: [(r.st(b"\x16\0", r.os(b"abc")), ["0", "616263"])], 2: [(r.st(r.os(b"k"), r.os(b"ab")), ["6b", "6162"]), (r.st(r.os(b""), r.os(b"")), ["", ""])]}),
    "CertificateIdentification": (s1, {0: [(r.st(b"\x16\0", b"\x16\0", r.os(b"meter")), ["0", "0", "6d65746572"]), (r.st(b"\x16\3", b"\x16\2", r.os(b"")), ["3", "2", ""])],
                                       1: [(r.st(r.os(b"\1\2"), r.os(b"CA")), ["0102", "4341"])]}),
}


def cls(n):
    return getattr(BOX[n][0], n)


def whole(t, e):
    return b"\x02\x02\x16" + bytes([t]) + e


class Chosen:
    """histories of one such structure"""
    def __init__(self, n):
        self.n = n
        self.good = [(t, e, p) for t, l in BOX[n][1].items() for e, p in l]

    def fresh(self):
        return [cls(self.n)(), None]

    def ops(self, s):
        g = range(len(self.good))
        return [("octets", i) for i in g] + [("list", i) for i in g] + [("other", i) for i in g] + [("value", i) for i in g] + [("type", t) for t in BOX[self.n][1]] + [("wrong", t) for t in BOX[self.n][1]] + [("copy",)]

    def apply(self, s, op, o):
        x, m = s
        k, *a = op
        if k in ("octets", "list", "other"):
            t, e, p = self.good[a[0]]
            v = whole(t, e) if k == "octets" else [str(t), p if p is not None else e] if k == "list" else cls(self.n)(whole(t, e))
            st, err = outcome(x.set, v)
            o.eq(st, "ok", f"{op}: {err!r}", "set")
            s[1] = self.good[a[0]][:2]
        elif k == "value":      # the value alone, in the type there is
            t, e, p = self.good[a[0]]
            cur = 0 if m is None else m[0]
            if t == cur:
                st, err = outcome(x[1].set, e)
                o.eq(st, "ok", f"{op}: {err!r}", "value")
                s[1] = (t, e)
        elif k == "type":       # the type alone is never changed
            rejects(o, lambda: x[0].set(a[0]), (RuntimeError,), f"{op}", "type")
        elif k == "wrong":      # a value of another type
            for t, e, p in self.good:
                if t != a[0] and not outcome(type(cls(self.n)(whole(a[0], BOX[self.n][1][a[0]][0][0]))[1]), e)[0] == "ok":
                    rejects(o, lambda: x.set(whole(a[0], e)), (Exception,), f"{op} with {e.hex()}", "wrong")
            rejects(o, lambda: x.set(whole(9, b"\0")), (Exception,), f"{op} 9", "unknown")
        else:
            y = x.copy()
            o.ok(y is not x and y[0] is not x[0] and y[1] is not x[1], "the copy shares elements", "copy")
            o.eq(y.encoding, x.encoding, "copy", "copy")
            s[0] = y

    def invariant(self, s):
        o = Quiet()
        x, m = s
        if m is None:
            o.eq(int(x[0]), 0, "the first type", "default")
            o.eq(cls(self.n)(x.encoding).encoding, x.encoding, "default read back", "default")
        else:
            o.eq(x.encoding, whole(*m), "octets", "state")
        want = type(cls(self.n)(x.encoding)[1])
        o.ok(type(x[1]) is want, f"value of type {type(x[1]).__name__} for the type {int(x[0])}", "agree")
        names = [e.NAME for e in x.ELEMENTS]
        o.ok(getattr(x, names[0]) is x[0] and getattr(x, names[1]) is x[1] and len(x) == 2, "elements by name", "name")
        return o

    def canon(self, s):
        return (s[1], s[0].encoding)


@unit("chosen")
def chosen(ctx):
    d = ctx.pick(3, 5)
    ctx.bound(f"all histories of up to {d} assignments (octets, list, another structure, value alone, type alone, wrong type) and copies of {', '.join(BOX)}; every encoding cut short; inside the structures that contain them")
    for n in BOX:
        ctx.bfs(n, Chosen(n), d)

    def made(c, o):
        n, t, e, p = c
        w = whole(t, e)
        for f in (lambda: cls(n)(w), lambda: cls(n)([t, e]), lambda: cls(n)((str(t), e)), lambda: cls(n)(cls(n)(w)), lambda: cls(n)(bytearray(w[2:])), lambda: cls(n)([str(t), p if p is not None else e])):
            k, v = outcome(f)
            o.eq(v.encoding if k == "ok" else v, w, f"{n} {t}", "made")
        for i in range(len(w)):
            rejects(o, lambda: cls(n)(w[:i]), (Exception,), f"{w[:i].hex()} of {w.hex()}", "cut")
        rejects(o, lambda: cls(n)([t]), (Exception,), "one element", "one")
        rejects(o, lambda: cls(n)([t, e, e]), (Exception,), "three elements", "three")
    ctx.all("made", [(n, t, e, p) for n in BOX for t, l in BOX[n][1].items() for e, p in l], made)

    def inside(c, o):
        n, t, e, p = c
        w = whole(t, e)
        if n == "RestrictionElement":
            x = r.st(r.u16(3), b"\x09\6\1\0\1\x08\0\xff", r.i8(2), r.u16(0), w, r.ar())
            outer = p2.PushObjectDefinition
        elif n == "KeyInfoElement":
            x = r.st(b"\x16\1", r.st(*[r.os(b"")] * 4, w))
            outer = p2.ProtectionParametersElement
        else:
            return
        o.eq(outer(x).encoding, x, f"{n} inside", "inside")
        o.eq(outer().encoding[:2], x[:2], f"{n} inside by default", "inside")
        o.eq(outer(outer().encoding).encoding, outer().encoding, "default read back", "inside")
        y = outer()
        y.set(x)
        o.eq(y.encoding, x, "set", "inside")
    ctx.all("inside", [(n, t, e, p) for n in BOX for t, l in BOX[n][1].items() for e, p in l], inside)

"""P03: service-level (context) types: encode / decode / text against an independent A-XDR encoder."""
import dataclasses
import itertools
import env
from explorer import unit, outcome, rejects, Mismatch

ut = env.mod("types.useful_types")
REFUSE = (ValueError, TypeError, IndexError, OverflowError, AssertionError)
INTS = {"Integer8": (1, True, 15), "Integer16": (2, True, 16), "Integer32": (4, True, 5), "Integer64": (8, True, 20), "Unsigned8": (1, False, 17),
        "Unsigned16": (2, False, 18), "Unsigned32": (4, False, 6), "Unsigned64": (8, False, 21), "CosemObjectAttributeId": (1, True, None),
        "CosemObjectMethodId": (1, True, None), "CosemClassId": (2, False, None)}


def ref_len(n):
    if n < 0x80:
        return bytes([n])
    k = next(k for k in (1, 2, 4, 5, 6, 7, 8, 9) if n < 1 << 8 * k)
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def fill(n, s=1):
    return bytes((i * 7 + s) & 255 for i in range(n))


def both(o, t, value, wire, tail=b"\x5a\xa5"):
    """encode gives wire; decoding wire with anything after it gives the same value back"""
    o.eq(value.contents, wire, "encoding", "encode")
    back = t.from_contents(wire + tail)
    o.eq(back.contents, wire, "decode then encode", "decode")
    o.eq(t.from_contents(wire).contents, wire, "decode without a tail", "decode")
    return back


def cuts(o, t, wire):
    for cut in sorted(set(range(min(len(wire), 12))) | {len(wire) - 1}):
        if 0 <= cut < len(wire):
            rejects(o, lambda: t.from_contents(wire[:cut]), REFUSE, f"{t.__name__} cut at {cut} of {len(wire)}", "truncated")


def boundary(n, signed):
    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
    vals = range(lo, hi + 1) if n == 1 else sorted({v for k in range(8 * n + 1) for d in (-1, 0, 1) for s in (1, -1) for v in [s * (1 << k) + d] if lo <= v <= hi})
    return lo, hi, vals


@unit("lengths")
def lengths(ctx):
    ctx.bound("lengths 0..699 and 2^k-2..2^k+1 for k in 8..64 (encode), every form of 1..8 octets (decode), each truncation")
    ns = sorted(set(list(range(700)) + [2**k + d for k in range(8, 65) for d in (-2, -1, 0, 1)]))
    ctx.all("encode", ns, lambda n, o: o.eq(ut.encode_length(n), ref_len(n), "length octets", "encode"))
    ctx.all("decode", ns, lambda n, o: o.eq(ut.get_length_and_pdu(ref_len(n) + b"rest"), (n, b"rest"), "length and rest", "decode"))

    def cut(n, o):
        w = ref_len(n)
        for c in range(len(w)):
            rejects(o, lambda: ut.get_length_and_pdu(w[:c]), REFUSE, f"length octets cut at {c}", "truncated")
    ctx.all("cut", [n for n in ns if n > 120], cut)


@unit("integers")
def integers(ctx):
    ctx.bound("every value of the 8-bit types, powers of two and neighbours of the wider ones; one step outside the range refused; all ordered pairs of 12 boundary values, within and across the types")
    for name, (n, signed, _) in INTS.items():
        t = getattr(ut, name)
        lo, hi, vals = boundary(n, signed)

        def one(v, o):
            x = t(v)
            wire = v.to_bytes(n, "big", signed=signed)
            back = both(o, t, x, wire)
            o.eq(int(back), v, "value", "value")
            o.ok(back == x and hash(back) == hash(x), "equal and same hash", "eq")
            o.eq(int(t.from_str(str(v))), v, "from text", "text")
            o.eq(len(x), n, "size", "size")
            cuts(o, t, wire)
        ctx.all(name, vals, one)
        ctx.all(name + "-out", (lo - 1, hi + 1), lambda v, o: rejects(o, lambda: t(v), REFUSE, "out of range"))
        few = [v for v in (lo, lo + 1, -256, -2, -1, 0, 1, 2, 255, 256, hi - 1, hi) if lo <= v <= hi]

        def cmp(c, o):
            a, b = c
            o.eq((t(a) > t(b), t(a) < t(b), t(a) == t(b)), (a > b, a < b, a == b), "order", "order")
        ctx.all(name + "-order", itertools.product(few, few), cmp)
    across = [(name, v) for name, (n, signed, _) in INTS.items() for lo, hi in [(-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)] for v in (-129, -128, -1, 0, 1, 127, 128, 255, 256, 65535, lo, hi) if lo <= v <= hi]

    def kinds(c, o):
        (ta, a), (tb, b) = c
        x, y = getattr(ut, ta)(a), getattr(ut, tb)(b)
        o.eq((x > y, x < y, x == y, x != y), (a > b, a < b, a == b, a != b), f"{ta} {a} and {tb} {b}", "order across")
        o.ok(a != b or hash(x) == hash(y), "equal numbers have the same hash", "order across")
    ctx.all("order-across", itertools.product(across, across), kinds)


def text_of(b):
    try:
        return b.decode()
    except UnicodeDecodeError:
        return None


@unit("strings")
def strings(ctx):
    ctx.bound("octet, visible and UTF-8 strings of 0..3, 126..129, 255..257, 65535, 65536 octets; first octet of every value; fixed sizes 4, 5, 6, 8, 12 with all wrong sizes up to 14")
    sizes = [0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 65535, 65536]

    def octs(d, o):
        b = both(o, ut.OctetString, ut.OctetString(d), ref_len(len(d)) + d)
        o.eq(bytes(b), d, "value", "value")
        o.eq(len(ut.OctetString(d)), len(d), "length", "length")
        cuts(o, ut.OctetString, ref_len(len(d)) + d)
    ctx.all("octet-string", [fill(n) for n in sizes] + [bytes([i]) + b"\1\2\3" for i in range(256)], octs)

    def vis(s, o):
        b = both(o, ut.VisibleString, ut.VisibleString(s), ref_len(len(s)) + s.encode())
        o.eq(str(b), s, "text", "text")
        cuts(o, ut.VisibleString, ref_len(len(s)) + s.encode())
    ctx.all("visible-string", ["", "a", "ab 0"] + ["x" * n for n in sizes[4:11]] + [chr(i) for i in range(128)], vis)
    ctx.all("visible-bad", [chr(i) for i in range(128, 260)], lambda c, o: rejects(o, lambda: ut.VisibleString(c), REFUSE, "non-ASCII"))
    ctx.all("visible-bad-wire", range(128, 256), lambda c, o: rejects(o, lambda: ut.VisibleString.from_contents(bytes([1, c])), REFUSE, "non-ASCII octet"))

    def u8(s, o):
        e = s.encode()
        b = both(o, ut.UTF8String, ut.UTF8String(s), ref_len(len(e)) + e)
        o.eq(str(b), s, "text", "text")
        cuts(o, ut.UTF8String, ref_len(len(e)) + e)
    ctx.all("utf8-bad-wire", [bytes([i]) for i in range(128, 256)] + [bytes(p) for p in itertools.product((0x61, 0xc3, 0xa9, 0xe2, 0x82, 0xf0, 0xed, 0xc0), repeat=2) if not text_of(bytes(p))], lambda c, o: rejects(o, lambda: ut.UTF8String.from_contents(bytes([len(c)]) + c), REFUSE, "not UTF-8"))
    ctx.all("utf8-string", ["", "é", "я" * 64, "€" * 43, "😀" * 32, "a" * 127, "я" * 63 + "a", "😀a€я", "я" * 127, "я" * 128, "€" * 150, "a" * 128 + "я", "я" * 300], u8)
    for n, name in ((4, "OctetString4"), (5, "OctetString5"), (6, "OctetString6"), (8, "OctetString8"), (12, "OctetString12"), (6, "CosemObjectInstanceId")):
        t = getattr(ut, name)

        def fixed(d, o):
            if len(d) == n:
                b = both(o, t, t(d), d)
                o.eq(bytes(b), d, "value", "value")
                cuts(o, t, d)
            else:
                rejects(o, lambda: t(d), REFUSE, f"{len(d)} octets for {n}", "size")
        ctx.all(name, [fill(k) for k in range(15)] + [bytes([i]) + fill(n - 1) for i in range(0, 256, 5)], fixed)


@unit("bits-and-options")
def bits(ctx):
    L = ctx.pick(11, 14)
    ctx.bound(f"bit strings: all of length 0..{L} plus 127..130, 255..257, 511..513 bits; booleans: every octet; optional of boolean/octet/bit string; all data alternatives")

    def bit(s, o):
        v = [int(c) for c in s]
        wire = ref_len(len(s)) + bytes(int(s[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(s), 8))
        b = both(o, ut.BitString, ut.BitString(list(v)), wire)
        o.eq(str(b), s, "bits", "bits")
        o.eq(ut.BitString.from_str(s).contents, wire, "from text", "text")
        cuts(o, ut.BitString, wire)
    ctx.all("bit-string", ["".join(p) for n in range(L + 1) for p in itertools.product("01", repeat=n)] + ["10" * 63 + "1" * k for k in (1, 2, 3, 4)] + ["110" * 85 + "1" * k for k in (0, 1, 2)] + ["100" * 170 + "1" * k for k in (1, 2, 3)], bit)

    def edit(case, o):
        s, ops = case
        v = [int(c) for c in s]
        b = ut.BitString(list(v))
        for op in ops:
            if op[0] == "inv":
                b.inverse(op[1])
                v[op[1]] ^= 1
            elif op[0] == "set":
                b[op[1]] = op[2]
                v[op[1]] = int(op[2])
            else:
                b.clear()
                v = [0] * len(v)
            t = "".join(map(str, v))
            o.eq(str(b), t, "bits after " + repr(op), "edit")
            o.eq(b.contents, ref_len(len(t)) + bytes(int(t[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(t), 8)), "encoding after " + repr(op), "edit")
    ops = [("inv", 0), ("inv", 2), ("inv", -1), ("set", -2, 1), ("set", 1, 1), ("set", 0, 0), ("set", 0, True), ("clear",)]
    ctx.all("bit-edit", [(s, p) for s in ("000", "111", "101") for n in (1, 2, 3) for p in itertools.product(ops, repeat=n)], edit)

    def boolean(c, o):
        b = ut.BOOLEAN.from_contents(bytes([c]))
        o.eq(bool(b), c != 0, "truth", "bool")
        o.eq(b.contents, b"\1" if c else b"\0", "encoding", "bool")
        o.eq(bool(ut.BOOLEAN.from_int(c)), c != 0, "from_int", "bool")
        o.eq((int(b), str(b), b == ut.BOOLEAN(c != 0), b == ut.BOOLEAN(c == 0)), (int(c != 0), str(c != 0), True, False), "number, text, equality", "bool")
    ctx.all("boolean", range(256), boolean)
    ctx.all("boolean-text", [("0", False), ("1", True), ("False", False), ("True", True)], lambda c, o: o.eq(bool(ut.BOOLEAN.from_str(c[0])), c[1], "text", "bool-text"))
    ctx.all("boolean-bad", ["", "2", "01", " 1", "1 ", "0\n", "1\0"], lambda c, o: rejects(o, lambda: ut.BOOLEAN.from_str(c), REFUSE, "unknown text", "bool-text"))
    rejects_empty = lambda c, o: rejects(o, lambda: getattr(ut, c).from_contents(b""), REFUSE, "empty")
    ctx.all("empty", ["BOOLEAN", "OctetString", "VisibleString", "UTF8String", "BitString", "Data", "Unsigned8", "Integer16"], rejects_empty)
    for name, wires in (("BOOLEAN", [b"\0", b"\1"]), ("OctetString", [b"\0", b"\2ab", b"\x81\x80" + fill(128)]), ("BitString", [b"\3\xa0"]), ("Integer16", [b"\xff\x85"])):
        T = ut.OPTIONAL(getattr(ut, name))

        def opt(w, o):
            v = T(getattr(ut, name).from_contents(w))
            both(o, T, v, b"\1" + w)
            o.eq(T().contents, b"\0", "absent", "absent")
            o.eq(T.from_contents(b"\0" + w).contents, b"\0", "absent decoded", "absent")
            cuts(o, T, b"\1" + w)
            for p in range(2, 256):        # a boolean: zero is false
                o.eq(T.from_contents(bytes([p]) + w).value.contents, w, f"presence octet {p}", "presence")
        ctx.all("optional-" + name, wires, opt)


DATA = {0: [b""], 3: [b"\0", b"\1"], 4: [b"\0", b"\5\xa8", b"\x09\xff\x80"], 5: [b"\x80\0\0\1"], 6: [b"\xff\0\0\1"], 9: [b"\0", b"\3abc", b"\x81\x80" + fill(128)], 10: [b"\2ab"], 12: [b"\2\xd1\x8f"],
        13: [b"\x09"], 15: [b"\x85", b"\0"], 16: [b"\x80\1"], 17: [b"\xfe"], 18: [b"\xff\1"], 20: [b"\x80" + fill(7)], 21: [b"\xf0" + fill(7)], 22: [b"\3"], 255: [b""]}


@unit("choice")
def choice(ctx):
    ctx.bound("every alternative of the data choice with up to 3 contents; all 256 tags; building from a value of every type")

    def one(case, o):
        t, w = case
        v = ut.Data.from_contents(bytes([t]) + w + b"tail")
        o.eq(v.contents, bytes([t]) + w, "decode then encode", "choice")
        if w:
            cuts(o, ut.Data, bytes([t]) + w)
    ctx.all("data", [(t, w) for t, ws in DATA.items() for w in ws], one)
    ctx.all("unknown", [t for t in range(256) if t not in DATA and t not in (1, 2, 19, 23, 24, 25, 26, 27)], lambda t, o: rejects(o, lambda: ut.Data.from_contents(bytes([t]) + bytes(20)), REFUSE, "unknown tag"))
    for name, (n, s, tag) in INTS.items():
        if tag:
            ctx.all("built-" + name, [0, 1], lambda v, o: o.eq(ut.Data(getattr(ut, name)(v)).contents, bytes([tag]) + v.to_bytes(n, "big"), "tag of the built value", "built"))
    eqs = [(t, w) for t, ws in DATA.items() for w in ws]
    ctx.all("equality", itertools.product(eqs, eqs), lambda c, o: o.eq(ut.Data.from_contents(bytes([c[0][0]]) + c[0][1]) == ut.Data.from_contents(bytes([c[1][0]]) + c[1][1]), c[0] == c[1], "equality", "eq"))


@unit("sequences")
def sequences(ctx):
    ctx.bound("attribute and method descriptors: all combinations of 5 class ids, 4 names, 4 element ids; own sequences of 1..3 fields over 6 field kinds, one level of nesting; names from text: every octet in every group")

    def desc(case, o):
        name, c, ln, i = case
        t = getattr(ut, name)
        idt = ut.CosemObjectMethodId if "Method" in name else ut.CosemObjectAttributeId
        v = t(ut.CosemClassId(c), ut.CosemObjectInstanceId(ln), idt(i))
        wire = c.to_bytes(2, "big") + ln + i.to_bytes(1, "big", signed=True)
        b = both(o, t, v, wire)
        o.eq(int(b.class_id), c, "class", "desc")
        o.eq(bytes(b.instance_id), ln, "instance", "desc")
        cuts(o, t, wire)
    lns = [b"\0\0\1\0\0\xff", b"\1\0\1\x08\0\xff", b"\6\5\4\3\2\1", b"\xff" * 6]
    ctx.all("descriptors", itertools.product(("CosemAttributeDescriptor", "CosemMethodDescriptor"), (0, 1, 8, 255, 256, 65535), lns, (-128, -1, 0, 1, 127)), desc)

    def lntext(case, o):
        g, v = case
        ln = [0, 0, 1, 0, 0, 255]
        ln[g] = v
        x = ut.CosemObjectInstanceId.from_str(".".join(map(str, ln)))
        o.eq(x.contents, bytes(ln), "name from text", "ln")
        o.eq(str(x), ".".join(map(str, ln)), "name to text", "ln")
    def zeros(case, o):
        g, v, w = case
        ln = [1, 2, 3, 4, 5, 6]
        ln[g] = v
        o.eq(ut.CosemObjectInstanceId.from_str(".".join(str(x).zfill(w) if i == g else str(x) for i, x in enumerate(ln))).contents, bytes(ln), "name from text with leading zeros", "ln")
    ctx.all("name-text", [(g, v) for g in range(6) for v in range(256)], lntext)
    ctx.all("name-zeros", [(g, v, w) for g in range(6) for v in (0, 1, 9, 10, 20, 90, 100, 200) for w in (2, 3, 4)], zeros)
    ctx.all("name-bad", ["256.0.0.0.0.0", "0.0.1.0.0.256", "a.0.0.0.0.0", "-1.0.0.0.0.0", "1.2.3.4.5.x"], lambda s, o: rejects(o, lambda: ut.CosemObjectInstanceId.from_str(s), REFUSE, "bad name text", "ln"))
    F = {"i8": (ut.Integer8, [b"\x85"]), "u32": (ut.Unsigned32, [b"\x80\0\0\1"]), "os": (ut.OctetString, [b"\0", b"\2\1\7", b"\x81\x80" + fill(128)]),
         "bits": (ut.BitString, [b"\x09\xff\x80"]), "opt": (ut.OPTIONAL(ut.OctetString), [b"\0", b"\1\1\1"]), "ln": (ut.CosemObjectInstanceId, [b"\0\0\1\0\0\xff"])}

    def mk(kinds):
        return dataclasses.make_dataclass("S", [(f"f{i}", F[k][0]) for i, k in enumerate(kinds)], bases=(ut.Sequence,))

    def seq(case, o):
        kinds, wires = case
        t = mk(kinds)
        wire = b"".join(wires)
        v = t(*(F[k][0].from_contents(w) for k, w in zip(kinds, wires)))
        b = both(o, t, v, wire)
        for i, w in enumerate(wires):
            o.eq(getattr(b, f"f{i}").contents, w, f"field {i}", "field")
        o.eq(len(v), len(kinds), "field count", "count")
        cuts(o, t, wire)
    cases = [(ks, ws) for n in (1, 2, 3) for ks in itertools.product(F, repeat=n) for ws in itertools.product(*(F[k][1] for k in ks))]
    ctx.all("own", cases, seq)

    def nested(case, o):
        kinds, wires = case
        t1 = mk(kinds)
        t = dataclasses.make_dataclass("N", [("a", ut.Unsigned8), ("b", t1), ("c", ut.Integer16)], bases=(ut.Sequence,))
        wire = b"\7" + b"".join(wires) + b"\xff\x01"
        v = t(ut.Unsigned8(7), t1(*(F[k][0].from_contents(w) for k, w in zip(kinds, wires))), ut.Integer16(-255))
        b = both(o, t, v, wire)
        o.eq(b.b.contents, b"".join(wires), "inner sequence", "nested")
        cuts(o, t, wire)
    ctx.all("nested", [c for c in cases if len(c[0]) < 3], nested)


@unit("invoke-id")
def invoke(ctx):
    ctx.bound("all 64 combinations of invoke-id, service class and priority encoded; all 256 octets decoded")
    sc = lambda b: ut.ServiceClass(b)
    pr = lambda b: ut.Priority(b)

    def enc(c, o):
        i, s, p = c
        o.eq(ut.InvokeIdAndPriority(i, sc(s), pr(p)).contents, bytes([i | s << 6 | p << 7]), "encoding", "encode")
    ctx.all("encode", itertools.product(range(16), (False, True), (False, True)), enc)

    def dec(c, o):
        v = ut.InvokeIdAndPriority.from_contents(bytes([c]) + b"x")
        o.eq(v.invoke_id, c & 15, "invoke id", "id")
        o.eq(v.service_class.value, bool(c & 0x40), "service class", "service")
        if bool(c & 0x40) == bool(c & 0x80):
            o.eq(v.priority.value, bool(c & 0x80), "priority", "priority")
    ctx.all("decode", range(256), dec)

    def differ(c, o):
        """the two upper bits differ: a wrong priority is the service class bit taken for it"""
        v = ut.InvokeIdAndPriority.from_contents(bytes([c]))
        o.eq(v.priority.value, bool(c & 0x80), "priority of an octet whose bits 6 and 7 differ", "service-bit-as-priority")
    ctx.all("decode-differ", [c for c in range(256) if bool(c & 0x40) != bool(c & 0x80)], differ)


@unit("texts")
def texts(ctx):
    """what a person reads of service elements, and data alternatives from their text"""
    ctx.bound("all 64 invoke-id-and-priority texts; data alternatives from text by every tag 0 to 255; all class numbers as name or number")

    def inv(c, o):
        i, s, p = c
        v = ut.InvokeIdAndPriority(i, ut.ServiceClass(s), ut.Priority(p))
        o.eq([str(v.service_class), str(v.priority)], ["Confirmed" if s else "Unconfirmed", "High" if p else "Normal"], "texts of its parts", "text")
        o.eq(str(v), f"{'High' if p else 'Normal'} | {'Confirmed' if s else 'Unconfirmed'} | {i}", "text", "text")
        o.eq(int(v), i | s << 6 | p << 7, "number", "encode")
    ctx.all("invoke", itertools.product(range(16), (False, True), (False, True)), inv)
    kinds = {3: ("1", b"\1"), 4: ("1011", b"\4\xb0"), 5: ("-7", b"\xff\xff\xff\xf9"), 6: ("7", b"\0\0\0\7"), 10: ("ab", b"\2ab"), 12: ("я", "\x02я".encode()), 13: ("9", b"\x09"), 15: ("-3", b"\xfd"), 16: ("-300", b"\xfe\xd4"),
             17: ("200", b"\xc8"), 18: ("60000", b"\xea\x60"), 20: ("-5", b"\xff" * 7 + b"\xfb"), 21: ("5", bytes(7) + b"\5"), 22: ("3", b"\3")}

    def alt(t, o):
        if t in kinds:
            s, w = kinds[t]
            o.eq(ut.Data.from_str(f"{t} {s}").contents, bytes([t]) + w, "alternative from text", "choice")
        elif t not in (0, 1, 2, 9, 19, 23, 24, 25, 26, 27, 255):
            rejects(o, lambda: ut.Data.from_str(f"{t} 1"), REFUSE, "unknown tag", "choice")
    ctx.all("alternatives", range(256), alt)
    ctx.all("no-tag", ["", "a 1", "-1 1", "1", " 1"], lambda s, o: rejects(o, lambda: ut.Data.from_str(s), REFUSE, "no tag", "choice"))
    names = {int(k): v for k, v in (env.mod("config_parser").get_values("DLMS", "class_name") or {}).items()}

    def cid(n, o):
        o.eq(str(ut.CosemClassId(n)), names.get(n, f"CosemClassId({n})"), "name of the class", "class")
        o.eq(repr(ut.CosemClassId(n)), f"CosemClassId({n})", "number of the class", "class")
    ctx.all("classes", range(65536), cid)

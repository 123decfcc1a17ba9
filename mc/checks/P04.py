"""P04: wire codec of COSEM data: decode / re-encode / consumption / built-in values, for whole trees."""
import itertools
import env
import ref
from explorer import unit, outcome, rejects, Mismatch

cdt = env.mod("types.common_data_types")
cst = env.mod("types.cosem_service_types")
ASSUMPTIONS = ["compact-array and the enum tag without a declared enumeration are outside (the package has no usable class for them)"]


def ln(n):
    return ref.enc_len(n)


def leaf_wires():
    out = [b"\0"]
    out += [bytes([3, v]) for v in (0, 1)]
    for t, (n, s) in ref.INT.items():
        vals = {0, 1, (1 << 8 * n - 1) - 1, 1 << 8 * n - 1, (1 << 8 * n) - 1, 0x5a}
        out += [bytes([t]) + v.to_bytes(n, "big") for v in sorted(vals)]
    for t in ref.STR:
        out += [bytes([t]) + ln(n) + bytes(0x41 + i % 26 for i in range(n)) for n in (0, 1, 2, 127, 128, 255, 256)]
    out += [b"\x09\x03\xff\x00\x81", b"\x0a\x02\xc0\xff", b"\x0c\x02\xd1\x8f"]
    for bits in ("", "1", "0", "10101010", "111111111", "0" * 7, "1" * 16, "10" * 64, "1" * 127):
        out.append(b"\x04" + ln(len(bits)) + bytes(int(bits[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(bits), 8)))
    out += [b"\x0d\x09", b"\x0d\x99"]
    out += [b"\x17" + bytes.fromhex(h) for h in ("3f800000", "c0490fdb", "42f6e979", "00800000")]
    out += [b"\x18" + bytes.fromhex(h) for h in ("3ff0000000000000", "c00921fb54442d18", "0010000000000000")]
    out += [b"\x19" + bytes.fromhex(h) for h in ("07e40101ff00000000800000", "07e8021d040c2d3b63003c00", "ffffffffffffffffff8000ff", "07e80c1f0217000000fe2080")]
    out += [b"\x1a" + bytes.fromhex(h) for h in ("07e8021d04", "ffffffffff", "07e80102ff", "fffffefdff")]
    out += [b"\x1b" + bytes.fromhex(h) for h in ("00000000", "173b3b63", "ffffffff", "0cffffff")]
    return out


LEAVES = leaf_wires()


def check(w, o, values=True):
    tree, end = ref.parse(w)
    assert end == len(w)
    t = cdt.get_common_data_type_from(w[:1])
    v = t(w)
    o.eq(v.encoding, w, "decode then encode", "encode")
    for tail in (b"", b"\0", b"\x0f\x05", b"\xff" * 3):
        inst, rest = cdt.get_instance_and_pdu_from_value(w + tail)
        o.eq(rest, tail, "octets left after the value", "rest")
        o.eq(inst.encoding, w, "value decoded in front of a tail", "encode")
        inst, rest = cdt.get_instance_and_pdu(t, w + tail)
        o.eq((inst.encoding, rest), (w, tail), "typed decode in front of a tail", "rest")
    if values:
        try:
            want = ref.py(tree)
        except ref.Bad:
            pass
        else:
            o.eq(v.decode(), want, "built-in value", "value")
    c = v.copy()
    o.eq(c.encoding, w, "copy", "copy")
    o.ok(c == v and v == w and hash(c) == hash(v), "a copy equals the original and hashes alike", "eq")
    return v


@unit("leaves")
def leaves(ctx):
    ctx.bound("every simple tag with 2-10 contents each; strings and bit strings of about 150 lengths to 65536 (thorough 70000); all 256 values of the one-octet types; all 65536 of the two-octet ones")
    ctx.all("leaves", LEAVES, check)
    ctx.all("one-octet", [bytes([t, v]) for t in (15, 17, 13) for v in range(256)], check)
    step = ctx.pick(17, 1)
    ctx.all("two-octet", [bytes([t]) + v.to_bytes(2, "big") for t in (16, 18) for v in range(0, 65536, step)], check)

    big = sorted({*range(0, 70), *range(120, 136), *range(250, 264), *range(504, 520), *range(1016, 1033), 2040, 2047, 2048, 2049, 4095, 4096, 4097, *ctx.pick((16384, 65535, 65536), (16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000))})
    ctx.all("bit strings of every length", [b"\4" + ln(n) + bytes((b if i < n // 8 else b & 0xff00 >> n % 8) for i in range((n + 7) // 8)) for n in big for b in (0xff, 0xa5, 0)], check)
    ctx.all("strings of many lengths", [bytes([t]) + ln(n) + (b"AbZ" * (n // 3 + 1))[:n] for n in big for t in (9, 10, 12)], check)

    def boolean(c, o):
        v = cdt.Boolean(bytes([3, c]))
        o.eq(v.decode(), c != 0, "truth", "bool")
        o.eq(v.encoding, bytes([3, 1 if c else 0]), "canonical encoding", "bool")
    ctx.all("boolean", range(256), boolean)
    ctx.all("unknown-tag", [t for t in range(256) if t not in ref.FIXED and t not in (1, 2, 4, 9, 10, 12, 19)], lambda t, o: rejects(o, lambda: cdt.get_instance_and_pdu_from_value(bytes([t]) + bytes(30)), (ValueError,), "unknown tag"))

    def eq(c, o):
        a, b = (cdt.get_instance_and_pdu_from_value(w)[0] for w in c)
        o.eq(a == b, c[0] == c[1], "equality of values", "eq")
    few = LEAVES[::3]
    ctx.all("equality", itertools.product(few, few), eq)


SMALL = [b"\0", b"\3\1", b"\x0f\x85", b"\x12\xff\1", b"\x09\2\1\2", b"\x09\0", b"\x0a\1A", b"\4\5\xa8", b"\x06\0\0\1\0", b"\x1b\x0c\0\0\xff", b"\x17\x3f\x80\0\0"]


def arr(ws):
    return b"\1" + ln(len(ws)) + b"".join(ws)


def st(ws):
    return b"\2" + ln(len(ws)) + b"".join(ws)


def level1():
    out = [arr([]), st([])]
    for w in SMALL:
        out += [arr([w]), arr([w, w]), arr([w] * 3)]
    out += [arr([bytes([15, i]) for i in range(n)]) for n in (5, 127, 128, 200)]
    out += [st(p) for n in (1, 2) for p in itertools.product(SMALL, repeat=n)]
    out += [st(p) for p in itertools.product(SMALL[1:5], repeat=3)]
    return out


L1 = level1()


@unit("trees", 4, 8)
def trees(ctx):
    ctx.bound("arrays of 0..3 equal-typed and up to 200 one-octet elements, structures of 0..3 elements over 11 simple values, and one more level of arrays and structures over these; structures of 128 elements")
    ctx.all("level-1", L1, check)
    mids = L1 if not ctx.quick else L1[::4]
    second = [arr([w]) for w in mids] + [arr([w, w]) for w in mids] + [st([w]) for w in mids]
    few = [w for w in L1 if len(w) < 12][::5] + SMALL[:4]
    second += [st([a, b]) for a in few for b in few]
    second += [st([b"\x0f\1"] * 128), st([b"\x0f\1"] * 127)]
    second += [f([st([b"\x0f\1"] * n), x]) for n in (255, 256, 257, 300) for f, x in ((arr, st([b"\x0f\1"])), (st, b"\x11\2"))]
    second += [arr([bytes([15, 1])] * n) for n in (256, 257, 65536)] + [st([arr([bytes([15, 1])] * n), b"\x11\2"]) for n in (255, 256, 257)]
    second += [arr([st([bytes([17, i]), b"\x09\1" + bytes([j])]) for i in range(3) for j in range(k)]) for k in range(1, 5)]
    second += [arr([st([a]), st([b])]) for a in SMALL for b in SMALL]
    ctx.all("level-2", second, check)
    third = [f(ws) for f in (arr, st) for w in second[::ctx.pick(40, 8)] for ws in ([w], [w, w])]
    ctx.all("level-3", third, check)


@unit("structures")
def structures(ctx):
    ctx.bound("declared structures of 1..3 fields over 9 field types: positional and named access, wrong element count and wrong field type refused, decode in front of a tail")
    T = {"i": (cdt.Integer, b"\x0f\x85"), "u": (cdt.LongUnsigned, b"\x12\1\2"), "o": (cdt.OctetString, b"\x09\2ab"), "b": (cdt.Boolean, b"\3\1"), "v": (cdt.VisibleString, b"\x0a\1Z"),
         "bits": (cdt.BitString, b"\4\3\xa0"), "t": (cdt.Time, b"\x1b\x0c\0\0\xff"), "l": (cdt.Long64, b"\x14" + bytes(range(8))), "n": (cdt.NullData, b"\0")}

    def one(kinds, o):
        t = type("S", (cdt.Structure,), {"__annotations__": {f"x{i}": T[k][0] for i, k in enumerate(kinds)}})
        ws = [T[k][1] for k in kinds]
        w = st(ws)
        v = t(w)
        o.eq(v.encoding, w, "decode then encode", "encode")
        for i, e in enumerate(ws):
            o.eq((v[i].encoding, getattr(v, f"x{i}").encoding), (e, e), f"field {i}", "field")
        o.eq(len(v), len(kinds), "length", "len")
        inst, rest = cdt.get_instance_and_pdu(t, w + b"\x01\x02")
        o.eq((inst.encoding, rest), (w, b"\1\2"), "in front of a tail", "rest")
        o.eq(t(tuple(T[k][0](T[k][1]) for k in kinds)).encoding, w, "built from its fields", "seq")
        rejects(o, lambda: t(b"\2" + ln(len(kinds) + 1) + b"".join(ws) + b"\0"), (ValueError,), "one element too many", "count")
        rejects(o, lambda: t(b"\2" + ln(len(kinds) - 1) + b"".join(ws[:-1])), (ValueError,), "one element missing", "count")
        for i in range(len(kinds)):
            bad = list(ws)
            bad[i] = b"\x10\0\0"
            rejects(o, lambda: t(st(bad)), (ValueError,), f"field {i} of another type", "type")
    ctx.all("declared", [k for n in (1, 2, 3) for k in itertools.product(T, repeat=n)], one)

    def typed(case, o):
        k, n = case
        t = type("A", (cdt.Array,), {"TYPE": T[k][0]})
        w = arr([T[k][1]] * n)
        o.eq(t(w).encoding, w, "typed array", "encode")
        if k != "u" and n:
            rejects(o, lambda: t(arr([b"\x12\0\0"] * n)), (ValueError,), "array of another element type", "type")
    ctx.all("typed-array", [(k, n) for k in T for n in (0, 1, 2, 128)], typed)


@unit("long-forms")
def long_forms(ctx):
    """length octets longer than necessary: the value and what follows it must still be told apart"""
    ctx.bound("lengths 0..3 written with 1, 2 and 4 extra length octets, for strings, bit strings, arrays and structures, alone, in front of a tail and inside an array or structure")
    items = [(t, n) for t in (9, 10, 12, 4, 1, 2) for n in (0, 1, 2, 3)]

    def body(t, n):
        if t == 4:
            return b"\xff" * ((n + 7) // 8) if n == 8 else (b"\xe0" if n else b"")
        return b"\x0f\5" * n if t in (1, 2) else b"abc"[:n]

    def one(case, o):
        (t, n), k, ctxt = case
        if t == 4 and n:
            b = bytes([0xff << 8 - n & 0xff])
        else:
            b = body(t, n)
        w = bytes([t, 0x80 | k]) + n.to_bytes(k, "big") + b
        canon = bytes([t, n]) + b
        if ctxt == "alone":
            o.eq(cdt.get_common_data_type_from(w[:1])(w).encoding, canon, "value", "long-form")
        elif ctxt == "tail":
            inst, rest = cdt.get_instance_and_pdu_from_value(w + b"\x11\x22")
            o.eq((inst.encoding, rest), (canon, b"\x11\x22"), "value and rest", "long-form-rest")
        elif ctxt == "struct":
            o.eq(cdt.Structure(b"\2\2" + w + b"\x11\x22").encoding, b"\2\2" + canon + b"\x11\x22", "structure with such an element first", "long-form-rest")
        else:
            o.eq(cdt.Array(b"\1\2" + w + w).encoding, b"\1\2" + canon + canon, "array of such elements", "long-form-rest")
    ctx.all("long-form", [(it, k, c) for it in items for k in (1, 2, 4) for c in ("alone", "tail", "struct", "array")], one)


@unit("lengths")
def lengths(ctx):
    ctx.bound("length octets of 0..699 and around every power of two up to 2^64")
    ns = sorted(set(list(range(700)) + [2**k + d for k in range(8, 65) for d in (-2, -1, 0, 1)]))
    ctx.all("encode", ns, lambda n, o: o.eq(cdt.encode_length(n), ref.enc_len(n), "length octets", "len"))
    ctx.all("decode", ns, lambda n, o: o.eq(cdt.get_length_and_pdu(ref.enc_len(n) + b"rest"), (n, b"rest"), "length and rest", "len"))


@unit("types")
def types(ctx):
    """a value made from a value of another type"""
    names = ("NullData", "Boolean", "BitString", "DoubleLong", "DoubleLongUnsigned", "OctetString", "VisibleString", "Utf8String", "Bcd", "Integer", "Long", "Unsigned", "LongUnsigned", "Long64", "Long64Unsigned", "Float32", "Float64",
             "DateTime", "Date", "Time")
    dates = [getattr(cst, n) for n in ("OctetStringDateTime", "OctetStringDate", "OctetStringTime", "LogicalName")]

    class Preset(cdt.OctetString):
        DEFAULT = b"xyz"
    dates.append(Preset)
    targets = [getattr(cdt, n) for n in names] + dates
    ctx.bound(f"all values of {len(LEAVES)} encodings x {len(targets)} types to make from them, by constructor and by assignment")

    def made(c, o):
        T, w = c
        v = cdt.get_instance_and_pdu_from_value(w)[0]
        st_, x = outcome(T, v)
        try:
            y = T()
        except Exception:
            y = None
        if y is not None:
            before = y.encoding
            st2, e = outcome(y.set, v)
            o.eq(st2, st_, f"{T.__name__} from {w.hex()}: constructor {x.encoding.hex() if st_ == 'ok' else repr(x)}, assignment {e!r}", "assign")
            o.eq(y.encoding, x.encoding if st_ == "ok" else before, f"{T.__name__} set to {w.hex()}", "assign")
        o.eq(v.encoding, w, "the source", "source")
        if st_ == "err":
            o.ok(isinstance(x, (ValueError, TypeError, OverflowError)), f"{T.__name__} from {w.hex()}: {x!r}", "refused")
            o.ok(T is not type(v), f"{T.__name__} from its own value: {x!r}", "own")
            return
        st2, z = outcome(T, x.encoding)
        o.eq(z.encoding if st2 == "ok" else z, x.encoding, f"{T.__name__} from {w.hex()} read back", "back")
        o.eq(ref.wire(ref.parse(x.encoding)[0]), x.encoding, f"{T.__name__} from {w.hex()}: octets", "octets")
        if T is type(v):
            o.eq(x.encoding, w, "from its own type", "own")
        if isinstance(x, cdt.Digital) and isinstance(v, cdt.Digital):
            o.eq(int(x), int(v), f"{T.__name__} from {w.hex()}", "number")
        if T in (cdt.OctetString, cdt.VisibleString, cdt.Utf8String, Preset) or T in dates and len(getattr(v, "contents", b"")) == len(x.contents):
            o.eq(x.contents, v.contents, f"{T.__name__} from {w.hex()}", "contents")
    ctx.all("types", itertools.product(targets, LEAVES), made)
    ctx.all("types, one octet", itertools.product(targets, [bytes([t, x]) for t in (13, 15, 17) for x in (0, 1, 9, 0x10, 0x30, 0x7f, 0x80, 0x90, 0xff)]), made)

    A, B_, C = (type(n, (cdt.Structure,), {"__annotations__": a}) for n, a in (("A", {"a": cdt.Unsigned, "b": cdt.OctetString}), ("B", {"a": cdt.Unsigned, "b": cdt.OctetString}), ("C", {"a": cdt.Integer, "b": cdt.OctetString})))
    D = type("D", (cdt.Structure,), {"__annotations__": {"a": cdt.Unsigned}})
    S = {"A": A, "B": B_, "C": C, "D": D, "plain": cdt.Structure}
    W = {"A": "020211050901ff", "B": "020211050901ff", "C": "02020f050901ff", "D": "02011105", "plain": "020211050901ff", "array": "010211050901ff"}

    def struct(c, o):
        t, f = c
        w = bytes.fromhex(W[f])
        v = S[f](w)
        st_, x = outcome(S[t], v)
        good = t == "plain" or W[t] == W[f]
        o.eq((st_, x.encoding if st_ == "ok" else None), ("ok", w) if good else ("err", None), f"structure {t} made from a structure {f}", "structure")
        o.eq(v.encoding, w, "the source", "source")
        if good:
            o.ok(all(a is not b for a, b in zip(x.values, v.values)), "elements are its own", "shared")
            x.values[0].set(9)
            o.eq(v.encoding, w, "the source after a change", "shared")
            o.ok(all(isinstance(a, e.TYPE) for a, e in zip(x.values, x.ELEMENTS)), "elements have their declared types", "structure")
    ctx.all("structures", itertools.product(S, repeat=2), struct)

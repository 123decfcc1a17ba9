"""P02: the buffer-based PDU codec (length octets, primitives, optional, sequence, sequence-of, choice, data trees)
against an independently written A-XDR encoder."""
import itertools
import env
from explorer import unit, outcome, rejects, Mismatch

pdu = env.mod("types.cosem_pdu")
REFUSE = (BufferError, IndexError, ValueError, TypeError, OverflowError)
SIZES = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
         "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False)}
FIX = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12}


def ref_len(n):
    if n < 0x80:
        return bytes([n])
    k = 1
    while n >> (8 * k):
        k += 1
    if k == 3:
        k = 4                     # this codec's long forms are 1, 2, 4 and then as many octets as needed
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


LENGTHS = sorted(set(list(range(0, 700)) + [2**k + d for k in range(8, 65) for d in (-2, -1, 0, 1)]))


@unit("length-octets")
def lengths(ctx):
    ctx.bound("element lengths 0..699 and 2^k-2..2^k+1 for k in 8..64, written at offsets 0, 1 and 7")

    def one(case, o):
        n, at = case
        want = ref_len(n)
        o.eq(pdu.encode_length(n), want, "encode_length", "encode")
        o.eq(pdu.decide_len(n), len(want), "octets to reserve", "decide")
        buf = pdu.Buffer.allocate(at + len(want) + 2)
        for _ in range(at):
            buf.put_int(0xEE)
        o.eq(buf.put_len(n), len(want), "octets put", "put")
        o.eq(buf.get_pos(), at + len(want), "cursor after put", "put")
        o.eq(bytes(buf), b"\xee" * at + want + b"\0\0", "content after put", "put")
        buf.set_pos(at)
        o.eq(buf.get_length(), n, "length read back", "get")
        o.eq(buf.get_pos(), at + len(want), "cursor after get", "get")
    ctx.all("lengths", [(n, at) for n in LENGTHS for at in (0, 1, 7)], one)

    def forms(case, o):
        n, k = case
        if n >> (8 * k):
            return
        b = pdu.Buffer(memoryview(bytes([0x80 | k]) + n.to_bytes(k, "big") + b"\x55"))
        o.eq(b.get_length(), n, "length in a longer form", "get")
        o.eq(b.get_pos(), 1 + k, "cursor", "get")
        short = pdu.Buffer(memoryview(bytes([0x80 | k]) + n.to_bytes(k, "big")[:-1]))
        rejects(o, short.get_length, REFUSE, "truncated length octets")
    ctx.all("long-forms", [(n, k) for n in (0, 1, 127, 128, 255, 256, 65535, 65536, 2**24, 2**32 - 1) for k in (1, 2, 3, 4, 5, 8)], forms)


def check_put_get(o, t, value, wire, at=(0, 3)):
    o.eq(len(value), len(wire), "announced size", "size")
    for a in at:
        buf = pdu.Buffer.allocate(a + len(wire) + 1)
        buf.set_pos(a)
        o.eq(value.put(buf), len(wire), "octets put", "put")
        o.eq(buf.get_pos(), a + len(wire), "cursor after put", "put")
        o.eq(bytes(buf), bytes(a) + wire + b"\0", "content after put", "put")
        buf.set_pos(a)
        back = t.get(buf)
        o.eq(buf.get_pos(), a + len(wire), "cursor after get", "get")
        again = pdu.Buffer.allocate(len(wire))
        back.put(again)
        o.eq(bytes(again), wire, "decode then encode", "again")
        if a and a + len(wire) > 1:
            small = pdu.Buffer.allocate(a + len(wire) - 1)
            small.set_pos(a if len(wire) else a - 1)
            if len(wire):
                rejects(o, lambda: value.put(small), REFUSE, "put into a buffer one octet too small", "overflow")
    st, b = outcome(pdu.create_buf, value)
    if st == "err":
        raise b
    o.eq((bytes(b), b.get_pos()), (wire, 0), "create_buf", "create_buf")
    return back


@unit("integers")
def integers(ctx):
    ctx.bound("8-bit types: every value; wider types: every power of two and neighbours with both signs; all ordered pairs of boundary values compared")
    for name, (n, signed) in SIZES.items():
        t = getattr(pdu, name)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
        vals = range(lo, hi + 1) if n == 1 else sorted({v for k in range(8 * n + 1) for d in (-1, 0, 1) for s in (1, -1) for v in [s * (1 << k) + d] if lo <= v <= hi})

        def one(v, o):
            x = t.from_int(v)
            wire = v.to_bytes(n, "big", signed=signed)
            back = check_put_get(o, t, x, wire)
            o.eq(int(back), v, "value read back", "value")
            o.ok(back == x, "decoded equals encoded", "eq")
            o.eq(hash(back), hash(x), "hash", "hash")
            o.eq(str(x), str(v), "text", "str")
            o.eq(int(t.from_str(str(v))), v, "from text", "str")
            o.eq(bytes(x), wire, "contents", "bytes")
        ctx.all(name, vals, one)
        ctx.all(name + "-out", [lo - 1, hi + 1, lo * 2 - 1, hi * 2 + 2], lambda v, o: rejects(o, lambda: t.from_int(v), REFUSE, "out of range"))
        few = sorted({lo, lo + 1, -256, -129, -128, -127, -2, -1, 0, 1, 2, 127, 128, 255, 256, hi - 1, hi} & set(range(lo, hi + 1)) if n < 4 else
                     {v for v in (lo, lo + 1, -257, -256, -2, -1, 0, 1, 2, 255, 256, 65536, hi - 1, hi) if lo <= v <= hi})

        def cmp(case, o):
            a, b = case
            o.eq(t.from_int(a) > t.from_int(b), a > b, f"{a} > {b}", "gt")
            o.eq(t.from_int(a) < t.from_int(b), a < b, f"{a} < {b}", "lt")
            o.eq(t.from_int(a) == t.from_int(b), a == b, f"{a} == {b}", "eq")
        ctx.all(name + "-order", itertools.product(few, few), cmp)

    def across(case, o):
        ((m, (n, sg)), a), ((k, (l, sh)), b) = case
        x, y = getattr(pdu, m).from_int(a), getattr(pdu, k).from_int(b)
        o.eq((x > y, x < y, x == y, x != y), (a > b, a < b, a == b, a != b), f"{m} {a} and {k} {b} compared", "across")
    every = [((m, (n, sg)), v) for m, (n, sg) in SIZES.items() for v in (-(1 << 63), -32768, -129, -128, -1, 0, 1, 127, 128, 255, 256, 65535, (1 << 64) - 1) if (-(1 << 8 * n - 1) if sg else 0) <= v < 1 << 8 * n - sg]
    ctx.all("across kinds", itertools.product(every, every), across)


@unit("primitives")
def primitives(ctx):
    ctx.bound("boolean: all octets; octet strings: lengths 0..3, 126..130, 254..258, 65534..65537; fixed octet strings: each size")

    def boolean(v, o):
        b = pdu.BOOLEAN.get(pdu.Buffer(memoryview(bytes([v]))))
        o.eq(bool(b), v != 0, "truth", "bool")
        buf = pdu.Buffer.allocate(1)
        b.put(buf)
        o.eq(bytes(buf), bytes([v]), "octet", "bool")
        o.eq(pdu.BOOLEAN.from_int(v), pdu.TRUE if v else pdu.FALSE, "from_int", "bool")
    ctx.all("boolean", range(256), boolean)
    for s, w in (("0", False), ("False", False), ("1", True), ("True", True)):
        ctx.all("boolean-text", [(s, w)], lambda c, o: o.eq(bool(pdu.BOOLEAN.from_str(c[0])), c[1], "text", "bool"))
    ctx.all("boolean-bad", ["", "2", "yes", "10"], lambda c, o: rejects(o, lambda: pdu.BOOLEAN.from_str(c), REFUSE, "text"))
    ctx.all("null", [0], lambda c, o: check_put_get(o, pdu.NULL, pdu.NULL_, b""))

    def octets(n, o):
        data = bytes((7 * i + 3) & 255 for i in range(n))
        wire = ref_len(n) + data
        x = pdu.OctetString(memoryview(data))
        back = check_put_get(o, pdu.OctetString, x, wire)
        o.eq(bytes(back), data, "contents", "bytes")
        for cut in sorted({0, 1, len(wire) // 2, len(wire) - 1}):
            if cut < len(wire):
                rejects(o, lambda: pdu.OctetString.get(pdu.Buffer(memoryview(wire[:cut]))), REFUSE, f"octet string cut at {cut}", "truncated")
    ctx.all("octet-string", list(range(0, 4)) + list(range(125, 132)) + list(range(253, 260)) + [65534, 65535, 65536, 65537], octets)
    for name, n in FIX.items():
        t = getattr(pdu, name)

        def fixed(k, o):
            data = bytes((k + i) & 255 for i in range(n))
            back = check_put_get(o, t, t(memoryview(data)), data)
            o.eq(bytes(back), data, "contents", "bytes")
            rejects(o, lambda: t.get(pdu.Buffer(memoryview(data[:-1]))), REFUSE, "short", "truncated")
        ctx.all(name, (0, 100, 255), fixed)


# ---- data trees
TAGS_FIX = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4, 255: 0}


def leaves():
    out = []
    for t, n in TAGS_FIX.items():
        pats = [bytes(n)] if n == 0 else [bytes([0x81] + [i + 1 for i in range(n - 1)]), b"\xff" * n]
        if t == 3:
            pats = [b"\0", b"\1"]
        out += [bytes([t]) + p for p in pats]
    for n in (0, 1, 127, 128):
        out.append(b"\x09" + ref_len(n) + bytes(range(n)))
    return out


def trees(depth):
    if depth == 0:
        return leaves()
    sub = trees(depth - 1) if depth > 1 else leaves()
    small = sub if depth == 1 else sub[::max(1, len(sub) // 60)]
    out = list(leaves())
    for tag in (1, 2):
        out.append(bytes([tag, 0]))
        out += [bytes([tag, 1]) + a for a in small]
        out += [bytes([tag, 2]) + a + b for a in small for b in small]
    return out


@unit("data-trees", 4)
def data(ctx):
    d = ctx.pick(2, 2)
    ctx.bound("data values: every tag with two contents each, arrays and structures of 0..2 of them, those nested once more over a fixed subset of 60; plus arrays of 127, 128 and 256 elements; every proper prefix of the values shorter than 24 octets refused")
    cases = trees(1)
    if ctx.quick:
        cases = cases + trees(2)[::3]
    else:
        cases = cases + trees(2)
    cases += [bytes([t]) + ref_len(n) + b"\x0f\x05" * n for t in (1, 2) for n in (127, 128, 256)]

    def one(wire, o):
        v = pdu.Data.get(pdu.Buffer(memoryview(wire)))
        back = check_put_get(o, pdu.Data, v, wire, at=(0, 2))
        if wire[0] in (1, 2):
            o.eq(bytes(v.value[0].value.put and pdu.create_buf(v.value[0]).buf)[:1] if len(v.value.values) else b"", wire[2:3] if wire[1] < 0x80 and wire[1] else (wire[1 + len(ref_len(len(v.value.values))):][:1] if len(v.value.values) else b""), "first element", "item")
        if len(wire) < 24:
            for cut in range(len(wire)):
                rejects(o, lambda: pdu.Data.get(pdu.Buffer(memoryview(wire[:cut]))), REFUSE, f"cut at {cut}", "truncated")
    ctx.all("trees", cases, one)
    known = set(TAGS_FIX) | {1, 2, 9}
    ctx.all("unknown-tag", [t for t in range(256) if t not in known], lambda t, o: rejects(o, lambda: pdu.Data.get(pdu.Buffer(memoryview(bytes([t]) + bytes(20)))), REFUSE, "unknown tag") if t not in (4, 10, 12, 19) else None)


@unit("data-built")
def built(ctx):
    """values built by constructors rather than decoded: the tag written must be the tag of the type they were built from"""
    ctx.bound("every integer kind, octet strings and their arrays built from text, written and read back")
    kinds = {3: "1", 5: "-7", 6: "7", 15: "-3", 16: "-300", 17: "200", 18: "60000", 20: "-5", 21: "5", 9: "ab", 13: "9", 22: "3"}
    enc = {3: b"\1", 5: b"\xff\xff\xff\xf9", 6: b"\0\0\0\7", 15: b"\xfd", 16: (-300).to_bytes(2, "big", signed=True), 17: b"\xc8", 18: (60000).to_bytes(2, "big"),
           20: (-5).to_bytes(8, "big", signed=True), 21: (5).to_bytes(8, "big"), 9: b"\2ab", 13: b"\x09", 22: b"\3"}

    def one(t, o):
        v = pdu.Data.from_str(f"{t}:{kinds[t]}")
        check_put_get(o, pdu.Data, v, bytes([t]) + enc[t])
    ctx.all("simple", kinds, one)

    def arr(case, o):
        v = pdu.Data.from_str("1:" + ";".join(f"{t}:{kinds[t]}" for t in case))
        check_put_get(o, pdu.Data, v, b"\1" + bytes([len(case)]) + b"".join(bytes([t]) + enc[t] for t in case))
    ctx.all("array", itertools.product(kinds, repeat=2), arr)
    simple = {"Integer32": 5, "Unsigned32": 6, "Integer8": 15, "Integer16": 16, "Unsigned8": 17, "Unsigned16": 18, "Integer64": 20, "Unsigned64": 21}

    def from_class(name, o):
        v = pdu.Data(getattr(pdu, name).from_int(1))
        o.eq(bytes(v)[:1], bytes([simple[name]]), "tag of the constructed value", "tag")
        o.eq(len(v), 1 + SIZES[name][0], "size", "size")
    ctx.all("from-class", simple, from_class)

    def eq(case, o):
        a, b = (pdu.Data.from_str(f"{t}:{kinds[t]}") for t in case)
        o.eq(a == b, case[0] == case[1], "equality", "eq")
    ctx.all("equality", itertools.product([t for t in kinds if t != 9], repeat=2), eq)

    def same(case, o):
        """the same number in different kinds of data"""
        n, a, b = case
        o.eq(pdu.Data.from_str(f"{a}:{n}") == pdu.Data.from_str(f"{b}:{n}"), a == b, f"{n} with tags {a} and {b}", "eq")
    ctx.all("same number", [(n, a, b) for n in (0, 1, 127) for a in kinds for b in kinds if not {a, b} & {3, 9}], same)


@unit("composites")
def composites(ctx):
    ctx.bound("sequences of 1..3 fields over {int8, uint16, octet-string, optional int8, optional octet-string, array of int8} with 2-3 values per field")
    Opt8, OptS, Arr = pdu.OPTIONAL(pdu.Integer8), pdu.OPTIONAL(pdu.OctetString), pdu.SEQUENCE_OF(pdu.Integer8)
    fields = {
        "i8": (pdu.Integer8, [b"\x85", b"\0"]),
        "u16": (pdu.Unsigned16, [b"\x01\x02"]),
        "os": (pdu.OctetString, [b"\0", b"\2\7\x80", b"\x81\x80" + bytes(128)]),
        "o8": (Opt8, [b"\0", b"\1\x99"]),
        "os?": (OptS, [b"\0", b"\1\0", b"\1\1\5"]),
        "arr": (Arr, [b"\0", b"\2\1\xff"]),
    }
    seqs = {}

    def cls(kinds):
        if kinds not in seqs:
            seqs[kinds] = type("S", (pdu.Sequence,), {"__annotations__": {f"f{i}": fields[k][0] for i, k in enumerate(kinds)}})
        return seqs[kinds]

    def one(case, o):
        kinds, wires = case
        t = cls(kinds)
        wire = b"".join(wires)
        v = t.get(pdu.Buffer(memoryview(wire + b"\x77")))
        check_put_get(o, t, v, wire)
        for i, w in enumerate(wires):
            for e in (getattr(v, f"f{i}"), v[i]):
                b = pdu.Buffer.allocate(len(e))
                e.put(b)
                o.eq(bytes(b), w, f"field {i}", "field")
        for cut in range(min(len(wire), 12)):
            rejects(o, lambda: t.get(pdu.Buffer(memoryview(wire[:cut]))), REFUSE, f"cut at {cut}", "truncated")
    cases = [(ks, ws) for n in (1, 2, 3) for ks in itertools.product(fields, repeat=n) for ws in itertools.product(*(fields[k][1] for k in ks))]
    ctx.all("sequence", cases, one)

    def default(ks, o):
        t = cls(ks)
        d = t.default()
        wire = bytes(pdu.create_buf(d))
        v = t.get(pdu.Buffer(memoryview(wire)))
        o.eq(bytes(pdu.create_buf(v)), wire, "default survives a round trip", "default")
    ctx.all("default", [ks for n in (1, 2) for ks in itertools.product(fields, repeat=n)], default)
    ten = type("Ten", (pdu.Sequence,), {"__annotations__": {f"g{i}": pdu.Unsigned8 for i in range(10)}})

    def fields10(n, o):
        t = type("N", (pdu.Sequence,), {"__annotations__": {f"g{i}": pdu.Unsigned8 for i in range(n)}})
        v = t.get(pdu.Buffer(memoryview(bytes(range(50, 50 + n)))))
        for i in range(n):
            o.eq(int(getattr(v, f"g{i}")), 50 + i, f"field {i} of {n}", "field")
    ctx.all("field-access", range(1, 11), fields10)


@unit("texts")
def texts(ctx):
    ctx.bound("fixed octet strings from texts and octets of 0 to 14 octets; optionals and sequences of 1 to 3 fields from text; lists of 1 to 3")

    def fixed(case, o):
        name, n = case
        t, want = getattr(pdu, name), FIX[name]
        s = "abcdefghijklmn"[:n]
        if n == want:
            check_put_get(o, t, t.from_str(s), s.encode())
            o.eq(str(t.from_str(s)), s.encode().hex(" "), "text of the octets", "text")
        else:
            rejects(o, lambda: t.from_str(s), REFUSE, f"text of {n} octets", "fixed-size")
            rejects(o, lambda: t(memoryview(s.encode())), REFUSE, f"{n} octets", "fixed-size")
    ctx.all("fixed", itertools.product(FIX, range(15)), fixed)
    ints = {"Integer8": (-3, b"\xfd"), "Unsigned16": (513, b"\2\1"), "Integer32": (-2, b"\xff\xff\xff\xfe"), "Unsigned64": (2**64 - 1, b"\xff" * 8)}

    def opt(case, o):
        name, s = case
        v, w = ints[name]
        t = pdu.OPTIONAL(getattr(pdu, name))
        x = t.from_str(str(v) if s else "")
        check_put_get(o, t, x, b"\1" + w if s else b"\0")
        if s:
            o.eq(str(x), str(v), "text", "text")
        rejects(o, lambda: t.from_str("x"), REFUSE, "no number", "text")
    ctx.all("optional", itertools.product(ints, (False, True)), opt)

    def seq(names, o):
        t = type("T", (pdu.Sequence,), {"__annotations__": {f"f{i}": getattr(pdu, n) for i, n in enumerate(names)}})
        check_put_get(o, t, t.from_str(" ".join(str(ints[n][0]) for n in names)), b"".join(ints[n][1] for n in names))
    ctx.all("sequence", [c for n in (1, 2, 3) for c in itertools.product(ints, repeat=n)], seq)

    def lst(case, o):
        name, n, sep = case
        v, w = ints[name]
        t = pdu.SEQUENCE_OF(getattr(pdu, name))
        check_put_get(o, t, t.from_str(sep.join([str(v)] * n)), bytes([n]) + w * n)
    ctx.all("list", itertools.product(ints, (1, 2, 3, 130 - 3), (";", "; ", " ;")), lst)
    ctx.all("unknown-tag", ["99:1", "a:1", "-1:1", ":1", "1.:1"], lambda s, o: rejects(o, lambda: pdu.Data.from_str(s), REFUSE, "unknown tag", "text"))

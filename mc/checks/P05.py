"""P05: which octet strings are COSEM data: exhaustive differential against an independent parser."""
import itertools
import env
import ref
from explorer import unit, outcome, Mismatch, short

cdt = env.mod("types.common_data_types")
ASSUMPTIONS = ["compact arrays (tag 19) and the enum tag outside a declared enumeration are left out; floats that are not numbers are left to P10"]


def valid(tree):
    t, p = tree
    if t == 25:
        return ref.dt_ok(p)
    if t == 26:
        return ref.date_ok(p)
    if t == 27:
        return ref.time_ok(p)
    if t in (1, 2):
        return all(map(valid, p))
    return True


def canon(tree):
    t, p = tree
    if t == 3:
        return t, b"\0" if p == b"\0" else b"\1"
    if t in (1, 2):
        return t, tuple(map(canon, p))
    return tree


def tags(tree):
    yield tree[0]
    if tree[0] in (1, 2):
        for e in tree[1]:
            yield from tags(e)


def expected(w):
    """(tree, consumed) or None; 'skip' when outside the covered tags"""
    try:
        tree, end = ref.parse(w)
    except ref.Bad as e:
        return None
    except RecursionError:
        return "skip"
    if not valid(tree):
        return None
    return tree, end


def excluded(w):
    # anything in which 19 or 22 could be read as a tag by either side
    return 19 in w or 22 in w


def check(w, o):
    if excluded(w):
        return
    want = expected(w)
    if want == "skip":
        return
    st, got = outcome(cdt.get_instance_and_pdu_from_value, w)
    if w:
        st2, own = outcome(lambda: cdt.get_common_data_type_from(w[:1])(w))
        o.eq((st2, own.encoding if st2 == "ok" else None), ("err", None) if want is None else ("ok", ref.wire(canon(want[0]))), f"{w.hex()} given to the type of its tag", "direct")
    if want is None:
        o.ok(st == "err", f"{w.hex()} is no COSEM data, but was read as {short(repr(getattr(got[0], 'encoding', None))) if st == 'ok' else ''}", "accepted")
        return
    if st == "err":
        raise Mismatch(f"{w.hex()} refused: {type(got).__name__} {got}", "refused")
    tree, end = want
    v, rest = got
    o.eq(rest, w[end:], f"rest of {w.hex()}", "rest")
    o.eq(v.encoding, ref.wire(canon(tree)), f"value of {w.hex()}", "value")


BASE = [bytes.fromhex(h) for h in (
    "00", "0301", "0f80", "1100", "10ffff", "120000", "0500000001", "06ffffffff", "14" + "00" * 8, "15" + "ff" * 8, "0d09",
    "0900", "0903010203", "0a024142", "0c02d18f", "0400", "0403a0", "040aff80", "09810101", "0982000101", "173f800000", "183ff0000000000000",
    "1907e8021dff0102030400b400", "19ffffffffffffffffff8000ff", "1a07e8021d04", "1affffffffff", "1b01020304", "1bffffffff",
    "0100", "0200", "01020f010f02", "01020902010209010a", "02030f0109010a00", "0202010111050200", "020102020f0112000a", "0102020111020201", "01020201110102011102",
    "010201020f010f020100", "02020301030002")] + [b"\x09\x81\x80" + bytes(128), b"\x01\x81\x80" + b"\x0f\x01" * 128, b"\x02\x05" + b"\x11\x07" * 5, b"\x04\x81\x80" + bytes(16)]


@unit("short", 6, 8)
def shorts(ctx):
    ctx.bound("every octet string of up to 2 octets, every one of 3 octets that starts with a known tag, accepted exactly when it is COSEM data, with the same value and rest")
    ctx.all("len0-2", itertools.chain([b""], (bytes(t) for t in itertools.product(range(256), repeat=1)), (bytes(t) for t in itertools.product(range(256), repeat=2))), check)
    mid = ctx.pick([*range(20), *range(0x7c, 0x8a), 0xfe, 0xff], range(256))
    ctx.all("len3", (bytes((t, b, c)) for t in (0, 1, 2, 3, 4, 9, 10, 12, 13, 15, 16, 17, 18) for b in mid for c in range(256)), check)


@unit("trees", 4)
def trees(ctx):
    alpha = [0, 1, 2, 3, 9, 15, 17, 0x81]
    n = ctx.pick(6, 7)
    ctx.bound(f"every octet string of 4..{n} octets over the alphabet {bytes(alpha).hex(' ')} that starts with array or structure")
    ctx.all("trees", (bytes((t, *r)) for k in range(3, n) for t in (1, 2) for r in itertools.product(alpha, repeat=k)), check)


@unit("mutants", 4)
def mutants(ctx):
    ctx.bound(f"{len(BASE)} valid encodings: every proper prefix, every octet replaced by each of 256 values, every octet dropped or doubled")

    def gen():
        for w in BASE:
            for i in range(len(w)):
                yield w[:i]
            head = range(len(w)) if len(w) < 40 else list(range(5)) + [len(w) - 1]
            for i in head:
                yield w[:i] + w[i + 1:]
                yield w[:i + 1] + w[i:]
                for b in range(256):
                    yield w[:i] + bytes([b]) + w[i + 1:]
    ctx.all("mutants", gen(), check)
    if ctx.tier == "thorough":
        def two():
            for w in BASE:
                if len(w) < 14:
                    for i, j in itertools.combinations(range(len(w)), 2):
                        for a, b in itertools.product((0, 1, 2, 9, 15, 0x7f, 0x80, 0x81, 0x84, 0xff), repeat=2):
                            x = bytearray(w)
                            x[i], x[j] = a, b
                            yield bytes(x)
        ctx.all("two-octets", two(), check)


@unit("typed")
def typed(ctx):
    ctx.bound("every simple type built from an encoding of every tag: its own accepted, all others refused; raw contents of 0..16 octets accepted exactly at the size of the type")
    types = {t: cdt.get_common_data_type_from(bytes([t])) for t in ref.FIXED | {x: 0 for x in (1, 2, 4, 9, 10, 12)} if t != 22}
    sample = {w[0]: w for w in BASE}

    def one(case, o):
        t, u = case
        st, v = outcome(types[t], sample[u])
        o.eq(st, "ok" if t == u else "err", f"type of tag {t} from an encoding of tag {u}", "tag")
    ctx.all("tag", itertools.product(types, sample), one)

    def raw(case, o):
        t, n = case
        st, v = outcome(types[t], bytearray(b"\xff" * n if t in (25, 26) else b"\x01" * n))
        o.eq(st, "ok" if n == ref.FIXED[t] else "err", f"type of tag {t} from {n} contents octets", "raw")
        if st == "ok":
            o.eq(v.contents, (b"\xff" if t in (25, 26) else b"\x01") * n, "contents", "raw")
    ctx.all("raw", [(t, n) for t in types if t in ref.FIXED and t != 0 for n in range(17)], raw)
    decl = type("S", (cdt.Structure,), {"__annotations__": {"a": cdt.Unsigned, "b": cdt.OctetString}})

    def declared(n, o):
        els = [b"\x11\1", b"\x09\1\2", b"\x11\3", b"\x0f\4"]
        st, v = outcome(decl, bytes([2, n]) + b"".join(els[:n]))
        o.eq(st, "ok" if n == 2 else "err", f"structure of 2 declared elements from {n}", "count")
        for m in range(5):
            st, v = outcome(decl, bytes([2, n]) + b"".join(els[:m]))
            o.eq(st, "ok" if n == 2 <= m else "err", f"structure of 2 declared elements from {m} announced as {n}", "count")
            st, v = outcome(cdt.get_instance_and_pdu, decl, bytes([2, n]) + b"".join(els[:m]))
            o.eq(st, "ok" if n == 2 <= m else "err", f"structure of 2 declared elements read from {m} announced as {n}", "count")
            if st == "ok":
                o.eq((v[0].encoding, v[1]), (b"\2\2" + b"".join(els[:2]), b"".join(els[2:m])), "value and rest", "count")
    ctx.all("declared", range(5), declared)

    def fixed(n, o):
        class S(cdt.OctetString):
            SIZE = 6
        st, v = outcome(S, b"\x09" + bytes([n]) + bytes(n))
        o.eq(st, "ok" if n == 6 else "err", f"fixed-size string from {n} octets", "size")
        st, v = outcome(S, bytearray(n))
        o.eq(st, "ok" if n == 6 else "err", f"fixed-size string from {n} contents octets", "size")
    ctx.all("fixed-size", range(20), fixed)


@unit("deep")
def deep(ctx):
    ctx.bound("arrays and structures nested 1..60 deep, complete and cut after each level; announced lengths up to 2^32-1 with nothing behind them; strings, bit strings, arrays and structures of 22 (thorough 27) sizes around powers of two, whole and with one, two, half or all of it missing or the last elements of another type")

    def one(case, o):
        t, n, cut = case
        w = bytes([t, 1]) * n + b"\x11\x05"
        check(w[:len(w) - cut] if cut else w, o)
    ctx.all("nested", [(t, n, cut) for t in (1, 2) for n in (1, 2, 3, 10, 30, 60) for cut in (0, 1, 2, 3)], one)
    ns = (100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, *ctx.pick((), (32767, 32768, 65535, 65536, 65537)))

    def sized():
        for n in ns:
            head = bytes([n]) if n < 128 else b"\x81" + bytes([n]) if n < 256 else b"\x82" + n.to_bytes(2, "big") if n < 65536 else b"\x83" + n.to_bytes(3, "big")
            for t in (9, 10, 12):
                for have in (0, n // 2, n - 2, n - 1, n, n + 1):
                    yield bytes([t]) + head + b"A" * have
            for have in (0, n // 8 - 1, (n - 1) // 8, (n + 7) // 8, (n + 7) // 8 + 1):
                yield b"\4" + head + b"\xa5" * have
            for t, e in () if n > 5000 else ((1, b"\x0f\1"), (1, b"\x09\1A"), (2, b"\x0f\1"), (2, b"\x09\1A"), (1, b"\2\1\x11\2")):
                for have in (0, 1, n // 2, n - 2, n - 1, n, n + 1):
                    yield bytes([t]) + head + e * have
                yield bytes([t]) + head + e * n + e[:-1]
                yield bytes([t]) + head + e * (n - 1) + e[:-1]
                yield bytes([t]) + head + e * (n - 1) + b"\x11\7"
                yield bytes([t]) + head + e * (n - 2) + b"\x11\7" + e
    ctx.all("sized", sized(), check)
    ctx.all("length", [bytes([t]) + ln + tail for t in (1, 2, 4, 9, 10, 12) for ln in (b"\x7f", b"\x81\xff", b"\x82\xff\xff", b"\x84\xff\xff\xff\xff", b"\x88" + b"\xff" * 8, b"\xff") for tail in (b"", b"\0", b"\x0f\1", b"\x11\1\x11\1")], check)

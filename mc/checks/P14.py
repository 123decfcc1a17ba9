"""P14: a damaged frame is never delivered as another one."""
import itertools
import env
import hd
from explorer import unit, Mismatch

fr = env.mod("hdlc.frame")
A1, A2, A4 = hd.addr(0x10), hd.addr(1, 0x10), hd.addr(0x100, 0x1234)
FRAMES = {
    "RR": hd.frame(A1, hd.addr(1), 0x31),
    "SNRM": hd.frame(A4, A1, 0x93),
    "info1": hd.frame(A1, hd.addr(1), 0x10, b"\xe6"),
    "info9": hd.frame(A2, A1, 0x32, bytes.fromhex("e6e700c401c1000005"), True),
    "zeros": hd.frame(A1, A1, 0x00, bytes(6)),
    "flags": hd.frame(A1, A2, 0x54, b"\x7e\x7e\xa0\x7e\x07"),
    "ones": hd.frame(hd.addr(0x7F), hd.addr(0x7F), 0xFE, b"\xff" * 6),
}


def got(buf):
    """every frame a receiver draws from these octets"""
    buf, out = bytearray(buf), []
    for _ in range(3000):
        n = len(buf)
        f = fr.Frame.try_from(buf)
        if f is not None:
            d, s = f.get_header()
            out.append((d.content, s.content, int(f.control), f.info, bool(f.is_segmentation)))
        elif len(buf) == n:
            return out
    raise Mismatch("receiver does not settle", "hang")


def run(ctx, name, sub, masks):
    whole = FRAMES[name]
    base = int.from_bytes(whole, "big")
    n = len(whole)
    want = got(whole)

    def one(m, o):
        r = got((base ^ m).to_bytes(n, "big"))
        o.eq(r, [], f"{name} damaged to {(base ^ m).to_bytes(n, 'big').hex()}", "damage accepted")
    assert len(want) == 1
    ctx.all(f"{name}: {sub}", masks, one)


def bits(name):
    """bit positions between the flags; the length field is left to the single-octet unit"""
    n = len(FRAMES[name])
    skip = {8 * (n - 1 - k) + b for k, bs in ((1, (0, 1, 2)), (2, range(8))) for b in bs}
    return [b for b in range(8, 8 * (n - 1)) if b not in skip]


@unit("bit errors", shards=7)
def bit_errors(ctx):
    name = list(FRAMES)[ctx.shard]
    ctx.shard, ctx.nshards = 0, 1
    b = bits(name)
    k = ctx.pick(3 if len(b) < 60 else 2, 3)
    ctx.bound("every error of 1 to 3 bits between the flags outside the length field of the shortest frames (2 bits in the longer ones; 3 in all in thorough)")
    for j in range(1, k + 1):
        run(ctx, name, f"{j} bits", (sum(1 << x for x in c) for c in itertools.combinations(b, j)))


@unit("bursts", shards=7)
def bursts(ctx):
    name = list(FRAMES)[ctx.shard]
    ctx.shard, ctx.nshards = 0, 1
    b = set(bits(name))
    w = ctx.pick(9, 16)
    ctx.bound("every burst of up to 9 bits (16 in thorough) at every position between the flags outside the length field; every value of every octet between the flags, length field included")
    masks = (m << p for p in sorted(b) for m in range(1, 1 << w, 2))
    run(ctx, name, "bursts", (m for m in masks if all(x in b for x in range(m.bit_length()) if m >> x & 1)))
    n = len(FRAMES[name])
    run(ctx, name, "one octet", (x << 8 * p for p in range(1, n - 1) for x in range(1, 256)))


@unit("cuts")
def cuts(ctx):
    ctx.bound("every prefix, suffix, single dropped octet, doubled octet and swap of neighbours of 7 frames; checksums of every wrong value for two")

    def one(c, o):
        name, kind, i = c
        w = FRAMES[name]
        if kind == "prefix":
            b = w[:i]
        elif kind == "suffix":
            b = w[i + 1:]
        elif kind == "drop":
            b = w[:i] + w[i + 1:]
        elif kind == "double":
            b = w[:i] + w[i:i + 1] * 2 + w[i + 1:]
        else:
            b = w[:i] + w[i + 1:i + 2] + w[i:i + 1] + w[i + 2:]
        whole = got(w)
        o.eq(got(b), whole if w in b else [], f"{name} {kind} {i}: {b.hex()}", "damage accepted")
    ctx.all("cuts", [(k, x, i) for k, w in FRAMES.items() for x in ("prefix", "suffix", "drop", "double", "swap") for i in range(len(w))], one)

    def sums(c, o):
        name, v = c
        w = FRAMES[name]
        b = w[:-3] + v.to_bytes(2, "big") + w[-1:]
        o.eq(len(got(b)), int(b == w), f"{name} with checksum {v:04x}", "checksum")
    ctx.all("frame checksum", [(k, v) for k in ("RR", "info1") for v in range(65536)], sums)

    def hsum(v, o):
        """header checksum wrong, frame checksum right for it"""
        w = FRAMES["info9"]
        body = w[1:7 + len(A2) - 2] + v.to_bytes(2, "big")
        head = w[1:1 + 2 + len(A2) + len(A1) + 1]
        body = head + v.to_bytes(2, "big") + w[1 + len(head) + 2:-3]
        b = b"\x7e" + body + hd.crc(body) + b"\x7e"
        o.eq(len(got(b)), int(b == w), f"header checksum {v:04x}", "header checksum")
    ctx.all("header checksum", range(65536), hsum)

    def hlong(c, o):
        n, v = c
        w = hd.frame(A2, A1, 0x54, bytes(i * 5 & 0xff for i in range(n)))
        k = 1 + 2 + len(A2) + len(A1) + 1
        body = w[1:k] + (int.from_bytes(w[k:k + 2], "big") ^ v).to_bytes(2, "big") + w[k + 2:-3]
        b = b"\x7e" + body + hd.crc(body) + b"\x7e"
        o.eq(len(got(b)) if v == 0 else [x for x in got(b) if x[3] == body[k + 1:]], 1 if v == 0 else [], f"{n} octets of information, header checksum changed by {v:04x}", "header checksum")
    ctx.all("header checksum of long frames", itertools.product((1, 100, 128, 255, 256, 500, 1015, 1023, 1024, 1025, 1500, 2000, 2030), (0, *(1 << b for b in range(16)), 0xffff, 0x5a5a)), hlong)

    def kind(c, o):
        """frames of every format type, their checksums right"""
        name, t = c
        w = FRAMES[name]
        b = bytes([t << 4 | w[1] & 15]) + w[2:-3]
        if len(w) > 10 and name != "SNRM":
            h = 2 + next(i for i in range(len(b)) if crc_at(b, i))
            b = b[:h - 2] + hd.crc(b[:h - 2]) + b[h:]
        o.eq(got(b"\x7e" + b + hd.crc(b) + b"\x7e"), got(w) if t == 10 else [], f"{name} of format type {t}", "format type")
    crc_at = lambda b, i: b[i:i + 2] == hd.crc(bytes([0xA0 | b[0] & 15]) + b[1:i])
    ctx.all("format types", [(k, t) for k in FRAMES for t in range(16)], kind)


@unit("long", shards=8)
def long(ctx):
    sizes = (120, 248, 1024, 2036)
    ctx.bound(f"frames with {sizes} octets of information: every octet between the flags changed in its lowest and its highest bit; every cut at the end")
    frames = {n: hd.frame(A2, A1, 0x32, bytes(1 + (i * 7 + n) % 100 for i in range(n)), True) for n in sizes}

    def one(c, o):
        n, i, x = c
        w = bytearray(frames[n])
        w[i] ^= x
        o.eq(got(w), [], f"frame with {n} octets, octet {i} changed by {x:#x}", "damage accepted")
    step = lambda n: 1 if n < 1000 else ctx.pick(3, 1)
    ctx.all("changes", [(n, i, x) for n, w in frames.items() for i in sorted({*range(1, 12), *range(12, len(w) - 5, step(n)), *range(len(w) - 5, len(w) - 1)}) for x in (1, 0x80)], one)

    def cut(c, o):
        n, i = c
        o.eq(got(frames[n][:i]), [], f"frame with {n} octets cut to {i}", "damage accepted")
    ctx.all("cut", [(n, i) for n, w in frames.items() for i in sorted({*range(12), *range(12, len(w), step(n)), len(w) - 1})], cut)
    ctx.all("whole", sizes, lambda n, o: o.eq(len(got(frames[n])), 1, f"frame with {n} octets", "whole"))

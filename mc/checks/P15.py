"""P15: a receiver that appends arriving octets and asks for frames, over every chunking of streams of frames, noise and
damaged frames."""
import itertools
import env
import hd
from explorer import unit, Mismatch

fr = env.mod("hdlc.frame")
A1, A2 = hd.addr(0x10), hd.addr(1)
F = {
    "A": hd.frame(A2, A1, 0x31),
    "B": hd.frame(A2, A1, 0x10, b"\x01\x02"),
    "C": hd.frame(A2, A1, 0x32, b"\x7e\xa0\x7e", True),
}
DAMAGED = {
    "a": bytes([*F["A"][:5], F["A"][5] ^ 0x20, *F["A"][6:]]),      # control octet damaged
    "b": bytes([*F["B"][:8], F["B"][8] ^ 1, *F["B"][9:]]),
    "t": b"\x7e\x00" + F["A"][2:],                                 # not a type 3 frame
}
NOISE = {"n": b"\x00", "m": b"\xa0\x07\x41", "f": b"\x7e"}
PIECES = {**F, **DAMAGED, **NOISE}


def desc(f):
    d, s = f.get_header()
    return (d.content, s.content, int(f.control), f.info, bool(f.is_segmentation))


def drain(buf):
    out = []
    for _ in range(5000):
        n = len(buf)
        f = fr.Frame.try_from(buf)
        if f is not None:
            out.append(desc(f))
        elif len(buf) == n:
            return out
    raise Mismatch("receiver does not settle", "hang")


WANT = {k: (A2, A1, c, i, s) for k, c, i, s in (("A", 0x31, b"", False), ("B", 0x10, b"\x01\x02", False), ("C", 0x32, b"\x7e\xa0\x7e", True))}


def feed(chunks):
    buf, out = bytearray(), []
    for c in chunks:
        buf += c
        out += drain(buf)
    return out


def join(script, shared):
    """octets of a script; with shared, neighbouring frames use one flag"""
    out = b""
    for p in script:
        b = PIECES[p]
        if shared and p in F and out.endswith(b"\x7e"):
            b = b[1:]
        out += b
    return out


@unit("scripts", shards=6)
def scripts(ctx):
    n = ctx.pick(4, 5)
    ctx.bound(f"every sequence of up to {n} of 3 good frames, 3 damaged frames and 3 kinds of noise, flags shared or not, delivered whole, octet by octet and cut once at every position")

    def one(c, o):
        script, shared = c
        data = join(script, shared)
        want = [WANT[p] for p in script if p in F]
        o.eq(feed([data]), want, f"{script} at once: {data.hex()}", "stream")
        o.eq(feed([data[i:i + 1] for i in range(len(data))]), want, f"{script} octet by octet", "stream")
    ctx.all("streams", [(s, sh) for k in range(1, n + 1) for s in itertools.product(PIECES, repeat=k) for sh in (False, True)], one)

    def cut(c, o):
        script, shared = c
        data = join(script, shared)
        want = [WANT[p] for p in script if p in F]
        for i in range(len(data)):
            o.eq(feed([data[:i], data[i:]]), want, f"{script} cut at {i}", "stream")
    m = ctx.pick(3, 4)
    ctx.all("one cut", [(s, sh) for k in range(1, m + 1) for s in itertools.product(PIECES, repeat=k) for sh in (False, True)], cut)

    def cut2(script, o):
        data = join(script, True)
        want = [WANT[p] for p in script if p in F]
        for i, j in itertools.combinations(range(len(data)), 2):
            o.eq(feed([data[:i], data[i:j], data[j:]]), want, f"{script} cut at {i},{j}", "stream")
    ctx.all("two cuts", [s for k in (1, 2) for s in itertools.product(PIECES, repeat=k)], cut2)


@unit("garbage", shards=4)
def garbage(ctx):
    n = ctx.pick(5, 6)
    ctx.bound(f"all octet strings of up to {n} octets over 7 letters, alone and after a frame header of each short length; never an exception, never an invented frame")
    alpha = (0x00, 0x03, 0x05, 0x7E, 0xA0, 0x07, 0x93)

    def one(t, o):
        b = bytes(t)
        o.eq(feed([b]), [], b.hex(), "garbage")
        tail = feed([b + b"\x00" * 3 + F["B"]]) if 0x7E not in b else [WANT["B"]]
        o.eq(tail, [WANT["B"]], f"{b.hex()} then a frame", "garbage")
    ctx.all("strings", (t for k in range(n + 1) for t in itertools.product(alpha, repeat=k)), one)

    def short(c, o):
        length, fill, end = c
        b = b"\x7e\xa0" + bytes([length]) + bytes([fill]) * max(0, length - 2) + end
        r = feed([b + b"\x00" * 9 + F["A"]])
        o.eq(r, [WANT["A"]], f"{b.hex()} then a frame", "short frame")
    ctx.all("short frames", itertools.product(range(0, 16), (0, 1, 3, 0xFF, 0xA0), (b"\x7e", b"\x7e\x7e", b"\x00")), short)

    def long(c, o):
        n, k, before, after = c
        info = bytes((i * 7 + n) & 0xff or 1 for i in range(n)).replace(b"\x7e", b"\x7d")
        f = hd.frame(A2, A1, 0x54, info)
        want = [*([WANT["A"]] if before else []), (A2, A1, 0x54, info, False), *([WANT["B"]] if after else [])]
        data = (F["A"] if before else b"") + f + (F["B"] if after else b"")
        o.eq(feed([data[i:i + k] for i in range(0, len(data), k)]), want, f"frame with {n} octets of information in pieces of {k}", "long frame")
    def crowd(c, o):
        """many frames received before the first is looked for, noise of any length in front"""
        n, noise, shared = c
        data = b"\x01\xa0\x03" * (noise // 3) + join("AB" * n, shared)
        o.eq(feed([data]), [WANT[p] for p in "AB" * n], f"{2 * n} frames behind {noise} octets of noise", "many frames")
    ctx.all("many frames", itertools.product((1, 2, 5, 20, 80, 300, *ctx.pick((), (2000,))), (0, 30, 300, 1200, 5000, 9000), (False, True)), crowd)
    ctx.bound("up to 600 frames received at once, behind up to 9000 octets of noise")
    ctx.bound("frames with up to 2036 octets of information in pieces of 1 to 2000 octets")
    ctx.all("long frames", itertools.product((100, 119, 120, 127, 128, 247, 248, 255, 256, 500, 1000, 1014, 1024, 1500, 2000, 2036), (16, 64, 255, 256, 1000, 2000, *(() if ctx.quick else (1, 2, 3, 7))), (False, True), (False, True)), long)

    def tails(c, o):
        """a header of the right length, then octets of which some are its checksum"""
        (da, sa), control, kinds, end, seg = c
        n = 2 + len(da) + len(sa) + 1 + len(kinds) + 2 * (end != "none")
        head = (0xA000 | 0x800 * seg | n).to_bytes(2, "big") + da + sa + bytes([control])
        h = hd.crc(head)
        t = bytes({"h": h[0], "H": h[1], "x": 0, "y": 0x55}[k] for k in kinds)
        t += {"none": b"", "all": hd.crc(head + t), "head": h, "info": hd.crc(t), "wrong": bytes((hd.crc(head + t)[0] ^ 1, hd.crc(head + t)[1]))}[end]
        if 0x7E in head or 0x7E in t:
            return o(None)
        good = t == h or len(t) > 4 and t[:2] == h and t[-2:] == hd.crc(head + t[:-2])
        want = (da, sa, control, b"" if len(t) == 2 else t[2:-2], bool(seg))
        r = feed([b"\x7e" + head + t + b"\x7e", F["A"]])
        if len(t) == 4 and t[:2] == h and t[2:] == hd.crc(head + h):        # two checksums around nothing: nobody sends it
            return o(r)
        o.eq(r, [*([want] if good else []), WANT["A"]], f"{(head + t).hex()} then a frame", "tail")
    ctx.bound("a header followed by every sequence of up to 3 (thorough 5) octets, some from its checksum, and four kinds of checksum")
    ctx.all("tails", ((ad, c, k, e, s) for ad in ((A2, A1), (hd.addr(1, 0x80), A1)) for c in (0x10, 0x31, 0x73) for n in range(ctx.pick(4, 6)) for k in itertools.product("hHxy", repeat=n) for e in ("none", "all", "head", "info", "wrong") for s in (0, 1)), tails)

    def inside(c, o):
        length, body = c
        inner = bytes(body) + b"\x01" * 9
        b = b"\x7e\xa0" + bytes([length]) + inner[:max(0, length - 2)] + b"\x7e"
        r = feed([b, F["A"], F["B"]])
        o.eq(r, [WANT["A"], WANT["B"]], f"{b.hex()} then two frames", "short frame")
    ctx.all("headers", itertools.product(range(0, 12), itertools.product((0, 1, 0x21, 0x93), repeat=ctx.pick(4, 6))), inside)

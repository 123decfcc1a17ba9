"""P13: frames written by the code are octet for octet those of an independent ISO 13239 type 3 encoder, and reading
them back gives everything that was put in."""
import itertools
import env
import hd
from explorer import unit, outcome, rejects, Mismatch

fr = env.mod("hdlc.frame")
REFUSE = (Exception,)
EDGE = (0, 1, 2, 0x10, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x1FFF, 0x2000, 0x3F80, 0x3FFE, 0x3FFF)
BAD = (-1, -128, 0x4000, 0x7FFF, 0x8000, 0x10000)
INFO = bytes((i * 7 + i // 251) & 0xFF for i in range(2100))
Length = fr.AddressLength


def mk(u, l, size=None):
    if size is None:
        return fr.Address(upper_address=u, lower_address=l)
    return fr.Address(upper_address=u, lower_address=l, length=size)


def show(a):
    return (a.content, a.upper, a.lower, len(a), str(a))


def ref_show(b, u, l):
    lo = l if len(b) > 1 else None
    if len(b) > 1 and l is None:
        lo = 0
    return (b, u, lo, len(b), f"{u}" if lo is None else f"{u}/{lo}")


@unit("addresses")
def addresses(ctx):
    ctx.bound(f"every 1- and 2-octet address; 4-octet ones with parts from {len(EDGE)} values around every octet edge; each forced length; out-of-range parts")

    def one(c, o):
        u, l, size = c
        want = hd.addr(u, l, size)
        if want is None:
            return rejects(o, lambda: mk(u, l, size), REFUSE, f"address {c}", "unwritable address")
        a = mk(u, l, size)
        o.eq(show(a), ref_show(want, u, l), f"address {c}", "address")
        b = fr.Address(content=want)
        o.eq(show(b), ref_show(want, u, l), f"address read from {want.hex()}", "address")
        o.ok(a == b and hash(a) == hash(b), "equal addresses compare and hash equal", "address eq")
        buf = bytearray(want + b"\x03\x05\x07\x09")
        g = fr.Address.from_frame(buf)
        o.eq((show(g), bytes(buf)), (ref_show(want, u, l), b"\x03\x05\x07\x09"), "address taken from the front", "from_frame")
    ctx.all("one octet", [(u, None, s) for u in range(128) for s in (None, 1)], one)
    ctx.all("two octets", [(u, l, s) for u in range(128) for l in range(128) for s in (None, 2)], one)
    ctx.all("four octets", [(u, l, s) for u in EDGE for l in EDGE + (None,) for s in (None, 1, 2, 4)], one)
    ctx.all("upper only", [(u, None, None) for u in range(0x4000)], one)
    ctx.all("out of range", [(u, l, s) for u in BAD + (1, 0x80) for l in BAD + (None, 0, 1) if u in BAD or l in BAD for s in (None, 1, 2, 4)], one)

    def distinct(c, o):
        a, b = mk(*c[0]), mk(*c[1])
        o.eq(a == b, hd.addr(*c[0]) == hd.addr(*c[1]), f"{c} equal", "address eq")
        o.eq(len({a, b}), 1 if hd.addr(*c[0]) == hd.addr(*c[1]) else 2, f"{c} as keys", "address eq")
    few = [(u, l, s) for u in (0, 1, 0x10, 0x7F, 0x80, 0x3FFF) for l in (None, 0, 1, 0x10, 0x7F, 0x80, 0x3FFF) for s in (None, 1, 2, 4) if hd.addr(u, l, s) is not None]
    ctx.all("pairs", list(itertools.product(few, few)), distinct)

    def cut(c, o):
        rejects(o, lambda: fr.Address.from_frame(bytearray(c)), REFUSE, f"address octets {bytes(c).hex()}", "no end of address")
    ctx.all("unterminated", [bytes(x) for n in range(4) for x in itertools.product((0, 2, 0x10, 0xFE), repeat=n)] +
            [bytes(x) for x in itertools.product((0, 0x10, 0xFE), repeat=4)], cut)


ADDRS = [(1, None), (0x10, None), (0x7F, None), (1, 1), (1, 0x10), (0x7F, 0x7F), (1, 0x80), (0x3FFF, 0x3FFF), (0x80, None), (0x3F00, 0x7E)]


def check(o, da, sa, control, info, seg):
    D, S = mk(*da), mk(*sa)
    want = hd.frame(D.content, S.content, control, info, seg)
    build = lambda: fr.Frame(DA=D, SA=S, control=fr.Control(control), info=info, is_segmentation=seg)
    if want is None:
        return rejects(o, lambda: build().content, REFUSE, f"frame with {len(info)} octets", "too long")
    f = build()
    o.eq(f.content, want, f"frame {da} {sa} {control:#x} info {len(info)} seg {seg}", "frame octets")
    verify(o, f, D, S, control, info, seg, len(want))
    buf = bytearray(want)
    g = fr.Frame.try_from(buf)
    o.ok(g is not None, "own frame received", "not received")
    verify(o, g, D, S, control, info, seg, len(want))
    o.eq(g.content, want, "content of the received frame", "frame octets")
    o.ok(len(buf) <= 1, f"rest of the buffer {bytes(buf[:8]).hex()}", "rest")


def verify(o, f, D, S, control, info, seg, n):
    o.eq((int(f.control), f.info, bool(f.is_segmentation), len(f)), (control, info, bool(seg), n - 2), "control, info, segmentation, length", "fields")
    d, s = f.get_header()
    o.eq((d.content, s.content), (D.content, S.content), "destination and source", "addresses")
    o.ok(f.is_for_me(S, D), "frame is for the station whose address and peer it names", "is_for_me")
    o.eq(f.is_for_me(D, S), D.content == S.content, "is_for_me swapped", "is_for_me")


@unit("frames", shards=4)
def frames(ctx):
    ctx.bound("10x10 address pairs x 4 info lengths x segmentation; every control octet; every info length 0..2047 for two address sizes; every single octet of info")
    ctx.all("addresses", itertools.product(ADDRS, ADDRS, (0x10, 0x93), (b"", b"\x7e", INFO[:5], INFO[:128]), (False, True)), lambda c, o: check(o, *c))
    ctx.all("control", [(a, b, k, i, s) for a, b in ((ADDRS[0], ADDRS[1]), (ADDRS[6], ADDRS[1])) for k in range(256) for i in (b"", b"\x01\x02") for s in (False, True)], lambda c, o: check(o, *c))
    step = ctx.pick(1, 1)
    ctx.all("length", [(a, b, 0x32, INFO[:n], s) for a, b in ((ADDRS[0], ADDRS[1]), (ADDRS[7], ADDRS[8])) for n in range(0, 2060, step) for s in (False, True)], lambda c, o: check(o, *c))
    ctx.all("octets", [(ADDRS[0], ADDRS[1], 0x54, bytes([x] * k), False) for x in range(256) for k in (1, 2, 3)], lambda c, o: check(o, *c))
    if not ctx.quick:
        ctx.all("all lengths and addresses", [(a, b, 0x32, INFO[:n], s) for a in ADDRS for b in ADDRS for n in range(0, 2060) for s in (False, True)], lambda c, o: check(o, *c))

    def other(c, o):
        a, b, x, y = c
        f = fr.Frame(DA=mk(*a), SA=mk(*b), control=fr.Control(0x10), info=b"", is_segmentation=False)
        o.eq(f.is_for_me(mk(*x), mk(*y)), mk(*y).content == mk(*a).content and mk(*x).content == mk(*b).content, f"frame to {a} from {b} for peer {x}, me {y}", "is_for_me")
    ctx.all("recipients", itertools.product(ADDRS[:6], ADDRS[:6], ADDRS[:6], ADDRS[:6]), other)

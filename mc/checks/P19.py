"""P19: the LLC header in front of an APDU."""
import itertools
import env
from explorer import unit, outcome, rejects

sl = env.mod("hdlc.sub_layer")
LLC = sl.LLC


@unit("llc")
def llc(ctx):
    ctx.bound("every octet in each place of the header, with each valid and two invalid octets in the others; messages of 0..300 octets and of 11 larger sizes up to 70000, and of all headers nested, received and sent; every short header")

    def one(b, o):
        ok = len(b) >= 3 and b[0] in (0xE6, 0xFF) and b[1] in (0xE6, 0xE7) and b[2] == 0
        if not ok:
            return rejects(o, lambda: LLC(content=bytearray(b)), (ValueError, IndexError), b[:6].hex(), "accepted")
        v = LLC(content=bytearray(b))
        o.eq((v.info, v.content, len(v)), (bytes(b[3:]), bytes(b), len(b)), b[:6].hex(), "header")
    x = (0xE6, 0xE7, 0xFF, 0x00, 0x01)
    cases = {bytes(t) + tail for tail in (b"", b"\xc0\x01") for a in range(256) for p, q in itertools.product(x, x) for t in ((a, p, q), (p, a, q), (p, q, a))}
    ctx.all("headers", sorted(cases), one)
    ctx.all("short", [bytes(t) for n in range(3) for t in itertools.product(x, repeat=n)], one)
    body = bytes(i & 0xFF for i in range(301))
    ctx.all("received", [h + body[:n] for h in (b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xff\xe6\x00") for n in range(301)], one)

    ctx.all("nested", [h + bytes(t) for h in (b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xff\xe6\x00") for n in range(ctx.pick(5, 7)) for t in itertools.product(x, repeat=n)], one)
    ctx.all("one octet", [h + bytes([a]) * n for h in (b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xff\xe7\x00") for a in range(256) for n in (1, 2, 3, 7)], one)

    big = (2026, 2027, 2028, 2030, 2031, 2047, 2048, 4096, 65535, 65536, 70000)
    large = body * 240
    ctx.all("received, large", [h + large[:n] for h in (b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xff\xe6\x00") for n in big], one)

    def command(m, o):
        v = LLC(message=m)
        o.eq((v.content, v.info, len(v)), (b"\xe6\xe6\x00" + m, m, len(m) + 3), f"command of {len(m)} octets", "sent")
        w = LLC(content=bytearray(v.content))
        o.eq(w.info, m, "read back", "sent")
    ctx.all("sent", range(301), lambda n, o: command(body[:n], o))
    ctx.all("sent, large", big, lambda n, o: command(large[:n], o))
    ctx.all("sent, nested", [bytes(t) for n in range(ctx.pick(5, 7)) for t in itertools.product((*x, 0xC0), repeat=n)], command)

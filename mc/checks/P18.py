"""P18: parameter negotiation of the HDLC link against an independent reader and writer of the information field."""
import itertools
import env
from explorer import unit, outcome, rejects

ng = env.mod("hdlc.negotiation")
N = ng.Negotiation
INFO = (32, 33, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 2029, 2030)


def field(tag, v, n=None):
    n = n or (1 if v < 256 else 2)
    return bytes([tag, n]) + v.to_bytes(n, "big")


def group(*fields):
    b = b"".join(fields)
    return b"\x81\x80" + bytes([len(b)]) + b


def want(ti, ri, tw, rw):
    f = []
    if ti != 128:
        f.append(field(5, ti))
    if ri != 128:
        f.append(field(6, ri))
    if tw != 1:
        f.append(field(7, tw, 4))
    if rw != 1:
        f.append(field(8, rw, 4))
    return group(*f) if f else b""


def state(n):
    return (n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive)


@unit("negotiation", shards=2)
def negotiation(ctx):
    ctx.bound(f"every window pair 1..7 x {len(INFO)}^2 information sizes and all sizes 32..2030 one at a time; requests sent to a peer and taken as its answer; histories of up to 4 assignments and answers; every cut and out-of-range field of an answer")

    def one(c, o):
        n = N(*c)
        w = want(*c)
        o.eq((bytes(n.SNRM), n.info, n.content, len(n)), (w, w, w, len(w)), f"request for {c}", "request")
        peer = N(300, 300, 5, 5)
        peer.set_from_UA(w)
        o.eq(state(peer), (c[1], c[0], c[3], c[2]), f"peer told {c}", "answer")
    ctx.all("combinations", itertools.product(INFO, INFO, range(1, 8), range(1, 8)), one)
    ctx.all("sizes", [(v, 128, 1, 1) for v in range(32, 2031)] + [(128, v, 1, 1) for v in range(32, 2031)], one)

    class Sys:
        OPS = [("max_info_transmit", 128), ("max_info_transmit", 300), ("max_info_receive", 64), ("max_info_receive", 2030), ("window_transmit", 3), ("window_receive", 7), ("read",),
               ("UA", b""), ("UA", group(field(5, 200), field(6, 1000), field(7, 2, 4), field(8, 4, 4))), ("UA", group(field(8, 7, 1))), ("UA", group(field(6, 128, 1), field(7, 1, 4))),
               ("bad", group(field(5, 64), field(6, 31))), ("bad", b"\x81"), ("bad", group(field(5, 64)) + b"\x06"), ("bad", b"\x80" + group(field(5, 64))[1:])]

        def fresh(self):
            return {"n": N(), "m": [128, 128, 1, 1]}

        def ops(self, s):
            return self.OPS

        def apply(self, s, op, o):
            n, m = s["n"], s["m"]
            names = ("max_info_transmit", "max_info_receive", "window_transmit", "window_receive")
            if op[0] in names:
                setattr(n, op[0], op[1])
                m[names.index(op[0])] = op[1]
            elif op[0] == "UA":
                n.set_from_UA(op[1])
                p = {5: 128, 6: 128, 7: 1, 8: 1}
                b = op[1][3:]
                while b:
                    p[b[0]] = int.from_bytes(b[2:2 + b[1]], "big")
                    b = b[2 + b[1]:]
                s["m"] = m = [p[6], p[5], p[8], p[7]]
            elif op[0] == "bad":
                rejects(o, lambda: n.set_from_UA(op[1]), (ValueError,), f"answer {op[1].hex()}", "bad answer")
            o.eq(state(n), tuple(m), f"parameters after {op}", "state")
            o.eq(bytes(n.SNRM), want(*m), f"request after {op}", "request")

        def canon(self, s):
            return tuple(s["m"])

        def invariant(self, s):
            pass
    ctx.bfs("histories", Sys(), ctx.pick(4, 6))

    def bad(b, o):
        n = N(300, 301, 2, 3)
        rejects(o, lambda: n.set_from_UA(b), (ValueError,), f"answer {b.hex()}", "bad answer")
        o.eq(state(n), (300, 301, 2, 3), "parameters after a refused answer", "state")
    full = group(field(5, 200), field(6, 1000), field(7, 2, 4), field(8, 4, 4))
    cases = [full[:k] for k in range(1, len(full))] + [full + b"\x00", full + full]
    cases += [bytes([x]) + full[1:] for x in range(256) if x != 0x81] + [full[:1] + bytes([x]) + full[2:] for x in range(256) if x != 0x80]
    cases += [full[:2] + bytes([x]) + full[3:] for x in range(256) if x != len(full) - 3]
    cases += [group(field(t, v, k)) for t in (5, 6) for v in (0, 1, 31, 2031, 4096, 65535) for k in (1, 2, 4) if v < 256 ** k]
    cases += [group(field(t, v, k)) for t in (7, 8) for v in (0, 8, 9, 128, 255) for k in (1, 2, 4)]
    cases += [group(field(t, 100)) for t in range(256) if t not in (5, 6, 7, 8)]
    # a field cut inside a consistent group
    for t, v, k in ((5, 100, 1), (6, 1000, 2), (7, 2, 4), (8, 7, 4)):
        f = field(t, v, k)
        cases += [group(f[:j]) for j in range(1, len(f))] + [group(field(5, 64) if t != 5 else field(6, 64), f[:j]) for j in range(1, len(f))]
        cases += [group(f[:1] + bytes([x]) + f[2:]) for x in range(k + 1, 256)]
        for k2 in (2, 3, 4):                  # the length says more octets than there are
            cases += [group(bytes([t, k2, v & 127])), group(bytes([t, k2]) + bytes(k2 - 2) + bytes([v & 127]))]
    for t in (7, 8):                          # a window whose last octet alone would do
        cases += [group(field(t, hi << 8 | lo, k)) for hi in (1, 0x80, 0xff) for lo in (1, 2, 7) for k in (2, 3, 4)] + [group(field(t, 1 << 24 | 3, 4)), group(field(t, 1 << 16 | 3, 4))]
    for t in (5, 6):
        cases += [group(field(t, hi << 16 | lo, k)) for hi in (1, 0x80) for lo in (32, 128, 2030) for k in (3, 4)]
    ctx.all("refused", cases, bad)

    def length(c, o):                          # a number may be written with leading zero octets
        t, v, k = c
        n = N(300, 301, 2, 3)
        n.set_from_UA(group(field(t, v, k)))
        w = [128, 128, 1, 1]
        w[{5: 1, 6: 0, 7: 3, 8: 2}[t]] = v
        o.eq(state(n), tuple(w), f"field {t} of {k} octets", "length")
    ctx.all("lengths", [(t, v, k) for t in (5, 6, 7, 8) for v in ((32, 128, 255, 256, 2030) if t < 7 else range(1, 8)) for k in range(1, 9) if v < 256 ** k], length)

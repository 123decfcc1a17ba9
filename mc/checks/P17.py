"""P17: kinds and numbering of HDLC control octets, all 256 of them."""
import itertools
import env
from explorer import unit, outcome, rejects

fr = env.mod("hdlc.frame")
C = fr.Control
NAMES = {"RR": 0x01, "RNR": 0x05, "REJ": 0x09, "SREJ": 0x0D}
U = {"UI": 0x03, "SNRM": 0x83, "DISC": 0x43, "UA": 0x63, "DM": 0x0F, "FRMR": 0x87, "XID": 0xAF, "TEST": 0xE3}
SUFFIX = {"UI": "UI_PF", "SNRM": "SNRM_P", "DISC": "DISC_P", "UA": "UA_F", "DM": "DM_F", "FRMR": "FRMR_F", "XID": "XID_PF", "TEST": "TEST_PF"}


@unit("control octets")
def octets(ctx):
    ctx.bound("all 256 control octets; every named information, supervisory and common unnumbered control; numbering of every information and receive-ready octet; all pairs of information octets")

    def kind(v, o):
        c = C(v)
        i, s, u = v & 1 == 0, v & 3 == 1, v & 3 == 3
        o.eq((c.is_info(), c.is_supervisory(), c.is_unnumbered()), (i, s, u), f"kind of {v:#x}", "kind")
        o.eq(c.is_information(), i or v & ~0x10 == 3, f"{v:#x} carries information", "kind")
        o.eq((c.is_receive_ready(), c.is_receive_not_ready(), c.is_reject(), c.is_selective_reject()),
             tuple(v & 15 == k for k in (1, 5, 9, 13)), f"supervisory function of {v:#x}", "kind")
        if not u:
            o.eq(c.is_poll, bool(v & 0x10), f"poll bit of {v:#x}", "poll")
        buf = bytearray([v, 7])
        o.eq((int(C.from_frame(buf)), bytes(buf), c.content), (v, b"\x07", bytes([v])), f"{v:#x} on the wire", "wire")
    ctx.all("kinds", range(256), kind)

    def name(c, o):
        n, v = c
        o.eq(int(getattr(C, n)), v, n, "name")
    names = [(f"S{s}_R{r}{p}", r << 5 | bool(p) << 4 | s << 1) for s in range(8) for r in range(8) for p in ("", "_PF")]
    names += [(f"{k}_R{r}{p}", r << 5 | bool(p) << 4 | b) for k, b in NAMES.items() for r in range(8) for p in ("", "_PF")]
    names += [(n, v | p * 0x10) for k, v in U.items() for n, p in ((k, 0), (SUFFIX[k], 1))]
    ctx.all("names", names, name)

    def number(v, o):
        s, p, r = v >> 1 & 7, v >> 4 & 1, v >> 5
        o.eq(int(C.next_send_sequence(C(v))), r << 5 | p << 4 | (s + 1) % 8 << 1, f"next send number of {v:#x}", "send number")
        o.eq(int(C.next_receiver_sequence(C(v))), (r + 1) % 8 << 5 | 0x10 | s << 1, f"next receive number of {v:#x}", "receive number")
    ctx.all("numbers", range(0, 256, 2), number)
    ctx.all("receive ready numbers", [r << 5 | p << 4 | 1 for r in range(8) for p in (0, 1)],
            lambda v, o: o.eq(int(C.next_receiver_sequence(C(v))), ((v >> 5) + 1) % 8 << 5 | 0x11, f"next receive number of {v:#x}", "receive number"))

    D, S = fr.Address(upper_address=1), fr.Address(upper_address=0x10)
    fs = {v: fr.Frame(DA=D, SA=S, control=C(v), info=b"\x01", is_segmentation=False) for v in range(0, 256, 2)}

    def pair(c, o):
        a, b = c
        want = b == ((a >> 5) + 1) % 8 << 5 | 0x10 | ((a >> 1 & 7) + 1) % 8 << 1
        o.eq(bool(fs[b].is_next(fs[a])), want, f"{b:#x} next after {a:#x}", "is_next")
        if a >> 5 == b >> 5:
            o.eq(bool(fs[b].is_next_send(fs[a])), b >> 1 & 7 == ((a >> 1 & 7) + 1) % 8, f"{b:#x} sent next after {a:#x}", "is_next_send")
    ctx.all("pairs", itertools.product(range(0, 256, 2), repeat=2), pair)

"""P36: the HDLC setup object takes over negotiated parameters whole or not at all."""
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")

ATTR = {5: 5, 6: 6, 7: 3, 8: 4}      # parameter identifier of the information field -> attribute
DEFAULT = {3: 1, 4: 1, 5: 128, 6: 128}
OTHER = {2: r.en(3), 7: r.u16(30), 8: r.u16(90), 9: r.u16(0x77)}


def make():
    x = col.Collection().add(ut.CosemClassId(23), cdt.Unsigned(1), cst.LogicalName("0.0.22.0.0.255"))
    for i, e in OTHER.items():
        x.set_attr(i, e)
    for i, v in ((3, 2), (4, 3), (5, 300), (6, 301)):
        x.set_attr(i, enc(i, v))
    return x


def enc(i, v):
    return r.u8(v) if i in (3, 4) else r.u16(v)


def state(x):
    return {i: None if (v := x.get_attr(i)) is None else bytes(v.encoding) for i in range(2, 10)}


def field(params):
    body = b"".join(bytes([t, n]) + v.to_bytes(n, "big") for t, n, v in params)
    return b"\x81\x80" + bytes([len(body)]) + body


def judge(o, x, want, what):
    o.eq(state(x), {**OTHER, **{i: enc(i, v) for i, v in want.items()}}, what, "state")
    for i, name, n in ((3, "window_transmit", 1), (4, "window_receive", 1), (5, "max_info_transmit", 2), (6, "max_info_receive", 2)):
        o.eq(getattr(x, name), None if want[i] == DEFAULT[i] else want[i].to_bytes(n, "big"), f"{what}: {name}", "not-default")
        o.eq(int(x.get_attr(i)), want[i], f"{what}: attribute {i}", "value")


NOW = {3: 2, 4: 3, 5: 300, 6: 301}


@unit("accepted", 3)
def accepted(ctx):
    def body(params, o):
        x = make()
        x.set_from_info(field(params))
        want = dict(NOW)
        for t, n, v in params:
            want[ATTR[t]] = v
        judge(o, x, want, f"after {field(params).hex()}")
    vals = {5: [(1, 32), (1, 128), (1, 255), (2, 128), (2, 256), (2, 2030), (4, 500)], 6: [(1, 64), (2, 128), (2, 1024), (2, 2030)], 7: [(1, 1), (1, 7), (4, 1), (4, 7)], 8: [(1, 1), (1, 5), (4, 3), (4, 1)]}
    seqs = [tuple(zip(p, c)) for n in range(1, 5) for p in itertools.permutations((5, 6, 7, 8), n) for c in itertools.product(*(vals[t] if n < 4 else vals[t][1::2] for t in p))]
    ctx.all("parameters", [tuple((t, n, v) for t, (n, v) in s) for s in seqs], body)

    def single(case, o):
        t, n, v = case
        body((case,), o)
    ctx.all("sizes", [(t, 2, v) for t in (5, 6) for v in range(32, 2031, ctx.pick(7, 1))] + [(t, n, v) for t in (7, 8) for n in (1, 4) for v in range(1, 8)], single)

    def empty(case, o):
        x = make()
        x.set_from_info(b"")
        judge(o, x, DEFAULT, "after an answer without parameters")
        x.set_from_info(field(((5, 2, 512), (7, 4, 4))))
        judge(o, x, {**DEFAULT, 5: 512, 3: 4}, "after a second answer")
        x.set_from_info(b"")
        judge(o, x, DEFAULT, "after a third answer")
    ctx.all("no parameters", (0,), empty)

    def reset(case, o):
        x = make()
        for i, v in zip((3, 4, 5, 6), case):
            x.set_attr(i, enc(i, v))
        x.set_from_info(b"")
        judge(o, x, DEFAULT, f"after an answer without parameters, from {case}")
    ctx.all("no parameters, from", [(a, b, c, d) for a in range(1, 8) for b in range(1, 8) for c in (32, 128, 512, 2030) for d in (32, 128, 512, 2030)] + [(1, 1, c, d) for c in range(32, 2031, ctx.pick(32, 2)) for d in (128, c)], reset)

    def again(case, o):
        first, second = case
        x = make()
        x.set_from_info(field(first))
        x.set_from_info(field(second))
        want = dict(NOW)
        for t, n, v in (*first, *second):
            want[ATTR[t]] = v
        judge(o, x, want, f"after {field(first).hex()} and {field(second).hex()}")
    some = [(), *(((t, *v),) for t in vals for v in vals[t]), *((a, b) for a in ((5, 2, 128), (5, 2, 512)) for b in ((7, 4, 1), (7, 4, 3), (6, 2, 128)))]
    ctx.all("two answers", itertools.product([x for x in some if x], repeat=2), again)

    def wide(case, o):
        body(case, o)
    ctx.all("wide parameters", [p for t in ATTR for n in (3, 8, 117, 118, 119, 123, 124, 125, 126, 127) for v in (1, 7, 99) for p in (((t, n, v),), ((t, n, v), (13 - t if t < 7 else 15 - t, 2, 55)), ((5, 2, 129), (t if t != 5 else 6, n, v)))], wide)
    ctx.bound("every order and subset of the four parameters with 4 to 7 values in 1, 2 or 4 octets; information lengths 32..2030; the answer without parameters from about 900 states; all pairs of 26 answers; parameters of up to 127 octets")


@unit("refused", 2)
def refused(ctx):
    good = [field(p) for p in (((5, 2, 512),), ((5, 1, 99), (7, 4, 4)), ((5, 2, 512), (6, 2, 513), (7, 4, 4), (8, 4, 5)), ((8, 1, 7), (6, 2, 2030)))]

    def bad(info, o):
        x = make()
        before = state(x)
        rejects(o, lambda: x.set_from_info(info), Exception, f"answer {info.hex()}", "refusal")
        o.eq(state(x), before, f"after the refusal of {info.hex()}", "partial")
    cases = {g[:i] for g in good for i in range(1, len(g))}
    cases |= {g + b for g in good for b in (b"\0", b"\x05\x01\x80", b"\x81\x80\0")}
    for g in good:
        k = 3
        while k < len(g):                      # another identifier in place of each parameter
            cases |= {g[:k] + bytes([t]) + g[k + 1:] for t in (0, 1, 4, 9, 0x80, 0xff)}
            k += 2 + g[k + 1]
        cases |= {bytes([a]) + g[1:] for a in (0, 0x80, 0x82, 5)} | {g[:1] + bytes([a]) + g[2:] for a in (0, 0x7f, 0x81, 0xff)} | {g[:2] + bytes([g[2] + d & 255]) + g[3:] for d in (-1, 1, 2, 128)}
    cases |= {field(p) for p in (((5, 2, 512), (7, 4, 300)), ((7, 1, 3), (5, 4, 70000)), ((8, 4, 4), (6, 4, 1 << 31)), ((5, 2, 512), (8, 4, 256)))}
    cases |= {g + bytes([b]) for g in good for b in range(256)} | {b"\x81\x80" + g for g in good} | {b"\x81" + g for g in good} | {b"\x80" + g for g in good} | {b"\0" + g for g in good} | {g + g for g in good} | {g[2:] for g in good} | {g[3:] for g in good}
    cases |= {b"\x81\x80\x03\x05\x02\x01", b"\x81\x80\x01\x05", b"\x81\x80\x06\x07\x01\x02\x05\x02\x01", b"\x81\x80\x07\x07\x01\x02\x08\x04\0\0", b"\x81\x80\x04\x07\x01\x02\x05"}
    ctx.all("answers", sorted(cases), bad)

    def address(n, o):
        x = make()
        x.set_attr(9, r.u16(n))
        o.eq(x.get_device_address(), n or None, f"device address {n}", "address")
    ctx.all("device address", sorted({*range(0, 65536, ctx.pick(13, 1)), *range(130), *(1 << i for i in range(16)), 0x3ffd, 0x3fff, 0xffff}), address)
    ctx.bound("four answers cut at each octet, extended, with foreign identifiers, headers and lengths, and values too large; device addresses")

"""P40: associations - the names they use are object identifiers (ITU-T X.690), their secrets are shown as chosen, their
addresses and protocol version reach the client and the collection."""
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
enums = env.mod("types.implementations.enums")
v0 = env.mod("cosem_interface_classes.association_ln.ver0")
v1 = env.mod("cosem_interface_classes.association_ln.ver1")
amn = env.mod("cosem_interface_classes.association_ln.authentication_mechanism_name")
mid = env.mod("cosem_interface_classes.association_ln.mechanism_id")


def arc(n):
    out = [n & 127]
    while n := n >> 7:
        out.append(n & 127 | 128)
    return bytes(out[::-1])


def oid(a):
    return b"".join(map(arc, (40 * a[0] + a[1], *a[2:])))


def struct(a):
    return r.st(*[r.u16(v) if n == 2 else r.u8(v) for n, v in enumerate(a)])


def association(ver, e, k=None):
    return (col.Collection() if k is None else k).add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(bytearray((0, 0, 40, 0, e, 255))))


def enc(v):
    return None if v is None else bytes(v.encoding)


A8 = (0, 1, 5, 8, 39, 127, 128, 255)
A16 = (0, 1, 127, 128, 255, 256, 756, 8192, 16383, 16384, 16511, 32767, 32768, 65535)


def names(ctx):
    base = (2, 16, 756, 5, 8, 1, 1)
    out = {(j, k, *base[2:]) for j in (0, 1, 2) for k in (0, 1, 16, 38, 39)}
    for i in range(2, 7):
        for x in A16 if i == 2 else A8 if i < 6 else range(8):
            out.add(base[:i] + (x,) + base[i + 1:])
    for i, j in itertools.combinations(range(2, 7), 2):
        for x in A16 if i == 2 else A8:
            for y in A8 if j < 6 else (0, 1, 2, 7):
                t = list(base)
                t[i], t[j] = x, y
                out.add(tuple(t))
    if ctx.pick(0, 1):
        out |= {(2, 16, c, i, d, a, n) for c in A16 for i in A8 for d in A8 for a in A8 for n in range(8)}
    return sorted(out)


@unit("names", shards=4)
def names_(ctx):
    def body(a, o):
        x, s = oid(a), struct(a)
        xe = r.os(x)
        for T in (v1.ContextNameType, v1.MechanismNameType):
            for e, form in ((xe, True), (s, False)):
                v = T(e)
                o.eq(([int(i) for i in v.values], enc(v), v.is_xdr), (list(a), e, form), f"{T.__name__} {e.hex()}", "decode")
                o.eq(bytes(v.get_a_xdr()), x, f"{T.__name__} {e.hex()} as object identifier", "oid")
                w = v.copy()
                o.ok(w == v and enc(w) == e, f"copy of {e.hex()}: {enc(w).hex()}", "copy")
                for f in (r.os(oid((2, 16, 756, 5, 8, 1, 3))), e):
                    w.set(f)
                    o.eq([int(i) for i in w.values][2:6], [756, 5, 8, 1] if f != e else list(a)[2:6], f"{e.hex()} set to {f.hex()}", "set")
                    o.eq(enc(v), e, "the value copied", "copy")
            for cut in range(len(x)):
                rejects(o, lambda: T(r.os(x[:cut])), Exception, f"{T.__name__} cut to {x[:cut].hex()}", "cut")
                rejects(o, lambda: T(xe[:cut + 2]), Exception, f"{T.__name__} cut to {xe[:cut + 2].hex()}", "cut")
            rejects(o, lambda: T(r.os(x[:-1] + b"\x81")), Exception, f"{T.__name__} without end", "cut")
            rejects(o, lambda: T(r.os(x + b"\x01")), Exception, f"{T.__name__} with one more arc", "long")
        for T in (v0.ApplicationContextName, amn.AuthenticationMechanismName):
            for q in (s, a):
                v = T(q)
                o.eq(([int(i) for i in v.values], enc(v), bytes(v.get_a_xdr())), (list(a), s, x), f"{T.__name__} {q}", "structure")
            rejects(o, lambda: T(xe), Exception, f"{T.__name__} {xe.hex()}", "structure")
    cs = names(ctx)
    ctx.all("names", cs, body)

    def attr(a, o):
        """as attributes of an association"""
        for ver, i, e in [(0, 4, struct(a)), (1, 4, r.os(oid(a))), (1, 4, struct(a))] + ([(0, 6, struct(a)), (1, 6, r.os(oid(a))), (1, 6, struct(a))] if a[6] < 3 else []):
            x = association(ver, 3)
            x.clear_attr(i)
            x.set_attr(i, e)
            o.eq((enc(x.get_attr(i)), bytes(x.get_attr(i).get_a_xdr())), (e, oid(a)), f"version {ver} attribute {i} {e.hex()}", "attribute")
            if i == 6:
                o.eq(x.get_attr(7) is not None, True, "secret", "attribute")
    ctx.all("attributes", cs[::ctx.pick(1, 7)], attr)

    def aarq(case, o):
        c, n = case
        for _ in range(2):
            if n < 8 and c < 256:
                o.eq(bytes(amn.AuthenticationMechanismName.get_AARQ_mechanism_name(c, n)), oid((2, 16, 756, 5, 8, c, n)), f"name of mechanism {c} {n}", "aarq")
            else:
                rejects(o, lambda: amn.AuthenticationMechanismName.get_AARQ_mechanism_name(c, n), Exception, f"name of mechanism {c} {n}", "aarq")
        o.eq(amn.AuthenticationMechanismName.DEFAULT, (2, 16, 756, 5, 8, 2, 0), "default name", "default")
    ctx.all("mechanism", itertools.product((*A8, 2, 256), (*range(8), 8, 255)), aarq)
    ctx.bound(f"{len(cs)} object identifiers: every arc alone and every pair of arcs at the boundaries of one, two and three octets; every cut")


@unit("mechanisms")
def mechanisms(ctx):
    C = ("NONE", "LOW", "HIGH", "HIGH_MD5", "HIGH_SHA1", "HIGH_GMAC", "HIGH_SHA256", "HIGH_ECDSA")

    def const(case, o):
        n, x = case
        k = getattr(mid, C[n])
        o.eq((int(k), enc(k)), (n, bytes([17, n])), C[n], "constant")
        for v in (x, bytes([17, x]), mid.MechanismIdElement(x)):
            rejects(o, lambda: k.set(v), Exception, f"{C[n]} set to {v!r}", "constant")
            o.eq((int(k), enc(k)), (n, bytes([17, n])), C[n], "constant")
        o.eq(k == mid.MechanismIdElement(x), n == x, f"{C[n]} is {x}", "equal")
    ctx.all("constants", itertools.product(range(8), range(8)), const)

    def ids(n, o):
        st, v = outcome(mid.MechanismIdElement, n)
        o.eq(st, "ok" if n < 8 else "err", f"mechanism {n}", "range")
        if st == "ok":
            o.eq((int(v), enc(v)), (n, bytes([17, n])), f"mechanism {n}", "range")
            w = mid.MechanismIdElement(bytes([17, n]))
            o.ok(w == v, f"mechanism {n} from its encoding", "range")
    ctx.all("ids", range(256), ids)

    def secret(case, o):
        """first mechanism an association is given, and how: its secret has 16 octets for the high ones"""
        ver, n, form = case
        x = association(ver, 1)
        name = (2, 16, 756, 5, 8, 2, n)
        e = struct(name) if form or ver == 0 else r.os(oid(name))
        o.eq((x.get_attr(6), x.get_attr(7)), (None, None), "before", "before")
        st, _ = outcome(x.set_attr, 6, e)
        o.eq(st, "ok" if n < 3 else "err", f"mechanism {n}", "mechanism")
        o.eq(enc(x.get_attr(6)), e if n < 3 else None, "mechanism", "mechanism")
        o.eq(x.get_attr(7) is None, n > 2, "secret", "mechanism")
        if n < 3:
            for size in range(0, 34):
                s = r.os(bytes(range(48, 48 + size)))
                was = enc(x.get_attr(7))
                st, _ = outcome(x.set_attr, 7, s)
                good = n < 2 or size == 16
                o.eq((st, enc(x.get_attr(7))), ("ok", s) if good else ("err", was), f"secret of {size} octets for mechanism {n}", "secret")
    ctx.all("secret", itertools.product((0, 1), range(8), (0, 1)), secret)
    def again(case, o):
        """a mechanism cleared and set again keeps the secret, unless it is too short for it"""
        ver, hist = case
        x = association(ver, 1)
        m = s = high = None
        for op, v in hist:
            if op == "m":
                e = struct((2, 16, 756, 5, 8, 2, v)) if ver == 0 else r.os(oid((2, 16, 756, 5, 8, 2, v)))
                x.set_attr(6, e)
                if m is None:
                    if v == 2 and not high:
                        s, high = r.os(b"0" * 16), True
                    elif s is None:
                        s, high = r.os(b""), False
                m = v
            elif op == "clear m":
                x.clear_attr(6)
                m = None
            elif op == "clear s":
                x.clear_attr(7)
                s, high = None, None
            elif s is not None or m is not None:
                st, _ = outcome(x.set_attr, 7, v)
                good = not high or len(v) == 18
                o.eq(st, "ok" if good else "err", f"secret {v} with mechanism {m}", "secret")
                if good:
                    s, high = v, bool(high)
            o.eq((None if x.get_attr(6) is None else int(x.get_attr(6).mechanism_id_element), enc(x.get_attr(7))), (m, s), f"{hist} after {op} {v}", "again")
    ops = [("m", 0), ("m", 1), ("m", 2), ("clear m", None), ("clear s", None), ("s", r.os(b"1234")), ("s", r.os(b"abcdefghABCDEFGH"))]
    ctx.all("again", [(v, h) for v in (0, 1) for n in range(1, ctx.pick(4, 6) + 1) for h in itertools.product(ops, repeat=n)], again)
    ctx.bound("8 constants against every value, 256 mechanism numbers, secrets of up to 33 octets for every mechanism")


@unit("addresses")
def addresses(ctx):
    SAPS = (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)

    def default(case, o):
        ver, e = case
        x = association(ver, e)
        s = 0x10 * e if 0 < e <= 4 else 0x10 if e > 4 else 0
        o.eq(enc(x.associated_partners_id), r.st(r.i8(s), r.u16(1)), f"partners of association {e}", "default")
        o.eq(x.source_address, bytes([s << 1 | 1]), f"address of association {e}", "address")
        o.eq(enc(x.get_attr(4)), (r.os(oid((2, 16, 756, 5, 8, 1, 1))) if ver else struct((2, 16, 116, 5, 8, 1, 1))), "application context", "context")
        o.eq(enc(x.association_status), r.en(0), "status", "status")
        if ver == 0:
            pass
        else:
            o.eq(enc(x.security_setup_reference) is not None, True, "security setup", "setup")
    ctx.all("default", [(v, e) for v in (0, 1, 2) for e in range(0, 12)], default)

    def partners(case, o):
        s, srv = case
        x = association(1, 3)
        st, _ = outcome(x.set_attr, 3, r.st(r.i8(s), r.u16(srv)))
        if st == "ok":
            o.eq(enc(x.associated_partners_id), r.st(r.i8(s), r.u16(srv)), "partners", "partners")
            o.eq((int(x.associated_partners_id.client_SAP), int(x.associated_partners_id.server_SAP)), (s, srv), "partners", "partners")
            o.eq(x.source_address, bytes([s << 1 | 1]), f"address of client {s}", "address")
        else:
            o.ok(srv > 0x3fff or s not in SAPS, f"client {s} and server {srv} refused", "refused")
            o.eq(enc(x.associated_partners_id), r.st(r.i8(0x30), r.u16(1)), "partners after a refusal", "changed")
        if srv > 0x3fff:
            o.eq(st, "err", f"server {srv:#x} accepted", "range")
    ctx.all("partners", itertools.product((*SAPS, 2, 0x11, 0x7f), (0, 1, 0x10, 0x7f, 0x3fff, 0x4000, 0xffff)), partners)
    ctx.bound("default partners of 12 associations of 3 versions; 11 clients and 7 servers")


@unit("protocol")
def protocol(ctx):
    """the protocol version of the first association read is that of the collection; another one is refused"""
    def info(n, size=1024):
        return r.st(b"\x04\x18\x00\x1e\x1d", r.u16(size), r.u16(512), r.u8(n), r.i8(0), r.os(b""))

    def body(hist, o):
        k = col.Collection()
        xs = [association(v, e, k) for v, e in ((1, 1), (1, 2), (1, 3))]
        now, dlms = [enc(x.get_attr(5)) for x in xs], k.dlms_ver
        for i, n in hist:
            if n is None:
                xs[i].clear_attr(5)
                now[i] = None
                o()
            else:
                st, _ = outcome(xs[i].set_attr, 5, info(n))
                if now[i] is not None:
                    o.eq(st, "ok", "protocol changed", "change")
                    now[i] = info(n)
                elif not dlms or dlms == n:
                    o.eq(st, "ok", f"protocol {n} with {dlms}", "protocol")
                    now[i], dlms = info(n), n
                else:
                    o.eq(st, "err", f"protocol {n} with {dlms}", "protocol")
            o.eq([enc(x.get_attr(5)) for x in xs], now, f"after {(i, n)}", "state")
            o.eq(k.dlms_ver, dlms, f"protocol of the collection after {(i, n)}", "collection")
    ops = [(i, n) for i in range(3) for n in (6, 5, None)]
    ctx.all("histories", [h for n in range(1, ctx.pick(4, 5) + 1) for h in itertools.product(ops, repeat=n) if n < 4 or len({i for i, _ in h}) > 1 or ctx.pick(0, 1)], body)
    ctx.bound(f"all histories of up to {ctx.pick(4, 5)} readings of two protocol versions and clearings over three associations")


@unit("representation", shards=4)
def representation(ctx):
    R = v0.Representation
    S = [b"12345678", b"", b"a", b" ", b"*", b"a b", b"**  *", b"0123456789abcdef", b"~!\"'\\<>&", b"\x00\x01\xff\x7f", b"\x20\x20", b"AAAA", b"\x31\x32"]

    def body(case, o):
        """histories of representation; two secrets of different types share the choice"""
        seq, a, b = case
        try:
            x, y = v0.LLCSecret(bytearray(a)), v0.LLCSecret(bytearray(b))
            z = v0.LLCSecretHigh(bytearray((a * 16 + b"0" * 16)[:16]))
            for n, rep in enumerate(seq):
                (x, y, z)[n % 3].representation = rep
                for v in (x, y, z):
                    c = bytes(v.contents)
                    t = str(v)
                    o.eq(v.representation, rep, "representation", "choice")
                    if rep & R.ASCII:
                        if not c.isascii() or min(c, default=32) < 32:
                            plain = None
                        else:
                            plain = c.decode()
                    else:
                        plain = c.hex(" ")
                    if rep & R.HIDDEN:
                        o.ok(set(t) <= {"*", " "}, f"{c} shown as {t!r}, hidden", "hidden")
                        if plain is not None:
                            o.eq(t, "".join(" " if q == " " else "*" for q in plain), f"{c} hidden", "hidden")
                    elif plain is not None:
                        o.eq(t, plain, f"{c} shown", "shown")
                        w = type(v)(t) if t or not isinstance(v, v0.LLCSecretHigh) else v
                        o.eq(bytes(w.contents), c, f"secret typed as {t!r}", "typed")
                        u = v.copy()
                        u.set(t)
                        o.eq((bytes(u.contents), bytes(v.contents)), (c, c), f"secret set to {t!r}", "typed")
                        o.eq(enc(w), r.os(c), "encoding", "typed")
                    o.eq(enc(v), r.os(c), "encoding", "encoding")
                for bad in (0, "HEX", None):
                    rejects(o, lambda: setattr(x, "representation", bad), ValueError, f"representation {bad!r}", "bad")
        finally:
            v0.LLCSecret(b"\x09\x00").representation = R.HEX
    ctx.all("shown", [(seq, a, b) for n in (1, 2, 3) for seq in itertools.product(R.__members__.values(), repeat=n) for a, b in (itertools.product(S, S) if n == 1 else zip(S, S[3:] + S[:3]))], body)
    ctx.bound("all sequences of up to three choices of representation over 13 secrets of two types")


@unit("typed")
def typed(ctx):
    """a high secret typed in: what may become one is let through unchanged, what cannot is refused; the secret itself does not change"""
    R = v0.Representation

    def body(case, o):
        rep, text = case
        x = v0.LLCSecretHigh(bytearray(b"0123456789abcdef"))
        try:
            x.representation = rep
            st, res = outcome(x.validate_from, text, len(text))
            if rep & R.ASCII:
                may = len(text) <= 16
            else:
                n = len(text.split())
                may = n == 16
            if may:
                o.eq((st, res if st == "err" else res[0]), ("ok", text), f"typed {text!r}", "typed")
            elif rep & R.ASCII or n > 16:
                o.eq(st, "err", f"typed {text!r}", "typed")
            o.eq(bytes(x.contents), b"0123456789abcdef", "the secret", "typed")
        finally:
            v0.LLCSecret(b"\x09\x00").representation = R.HEX
    base = "aZ 0~9!b" * 3
    ctx.all("texts", [(R.ASCII, base[i:i + n]) for n in range(20) for i in range(4)] + [(R.HEX, " ".join(f"{(i * 7 + f) % 256:02x}" for i in range(n))) for n in (*range(10, 20), 32) for f in (0, 77, 200)], body)
    ctx.bound("secrets of 0 to 19 characters and of 10 to 32 octets typed in")


@unit("methods")
def methods(ctx):
    """methods of one association are its own: their parameters do not reach another association"""
    def body(case, o):
        ver, hist = case
        k = col.Collection()
        xs = [association(ver, e, k) for e in (1, 2)]
        m = [[enc(x.get_meth(j)) for j in (1, 2, 3, 4)] for x in xs]
        obj = r.OBJ(r.bo(1) if ver == 0 else r.en(2))
        V = {1: r.os(b"reply"), 2: r.os(b"87654321"), 3: obj, 4: obj}
        attrs = [[enc(v) for _, v in x.get_index_with_attributes()] for x in xs]
        for i, j in hist:
            xs[i].get_meth(j).set(V[j])
            m[i][j - 1] = V[j]
            o.eq([[enc(x.get_meth(q)) for q in (1, 2, 3, 4)] for x in xs], m, f"after {(i, j)}", "methods")
            o.eq([[enc(v) for _, v in x.get_index_with_attributes()] for x in xs], attrs, f"attributes after {(i, j)}", "attributes")
    ops = list(itertools.product((0, 1), (1, 2, 3, 4)))
    ctx.all("histories", [(v, h) for v in (0, 1) for n in (1, 2, 3) for h in itertools.product(ops, repeat=n)], body)
    ctx.bound("all histories of up to three parameters of methods over two associations")

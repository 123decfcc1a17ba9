"""P12: bit strings, flag sets, booleans, enumerations and character/octet strings."""
import itertools
import tomllib
import env
import ref
from explorer import unit, outcome, rejects, Mismatch

cdt = env.mod("types.common_data_types")
bs = env.mod("types.implementations.bitstrings")
en = env.mod("types.implementations.enums")
col = env.mod("cosem_interface_classes.collection")

R = lambda *a: tuple(itertools.chain(*(range(x[0], x[1] + 1) if isinstance(x, tuple) else (x,) for x in a)))
# codes of the enumerations of the COSEM interface classes (Blue Book; 129..134 of ControlMode are SPODES)
CODES = {
    "association_ln.mechanism_id MechanismIdElement": R((0, 7)), "association_ln.ver0 AccessMode": R((0, 3)), "association_ln.ver0 AssociationStatus": R((0, 2)),
    "association_ln.ver1 AccessMode": R((0, 6)), "association_ln.ver1 AccessModeMeth": R((0, 2)), "clock ClockBase": R((0, 5)), "disconnect_control ControlMode": R((0, 6), (129, 134)),
    "disconnect_control ControlState": R((0, 2)), "gsm_diagnostic.ver0 CSAttachment": R((0, 2)), "gsm_diagnostic.ver0 PSStatus": R((0, 4)), "gsm_diagnostic.ver0 Status": R((0, 5)),
    "gsm_diagnostic.ver1 PSStatus": R((0, 6)), "image_transfer.image_transfer_status ImageTransferStatus": R((0, 7)), "ntp_setup.ver0 AuthenticationMethod": R((0, 2)),
    "profile_generic.ver1 SortMethod": R((1, 6)), "push_setup.ver2 PushOperationMethod": R((0, 2)), "script_table ServiceId": R(1, 2), "security_setup.ver0 KeyID": R((0, 2)),
    "security_setup.ver0 SecurityPolicy": R((0, 15)), "security_setup.ver0 SecuritySuite": R((0, 15)), "security_setup.ver1 CertificateEntity": R((0, 3)),
    "security_setup.ver1 CertificateIdentificationType": R((0, 1)), "security_setup.ver1 CertificateType": R((0, 3)), "security_setup.ver1 KeyID": R((0, 3)), "security_setup.ver1 KeyPair": R((0, 2)),
    "single_action_schedule TYPE": R((1, 5)),
}
IMPL = {"CommSpeed": R((0, 9)), "RestrictionType": R((0, 2)), "KeyInfoType": R((0, 2)), "ProtectionType": R((0, 3))}
BAUD = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)


def enums():
    for k, codes in CODES.items():
        m, c = k.split()
        yield k, getattr(env.mod("cosem_interface_classes." + m), c), codes
    for c, codes in IMPL.items():
        yield c, getattr(en, c), codes
    yield "Unit", cdt.Unit, R((1, 255))


def pack(bits):
    return bytes(int("".join(map(str, bits[i:i + 8])).ljust(8, "0"), 2) for i in range(0, len(bits), 8))


class BitSys:
    def __init__(self, start):
        self.start = start
        n = len(start)
        self.others = (["1" * (n - 1)] if n else []) + [start + "0110"[:1 if n > 2 else 4 - n]] + ([""] if n > 1 else [])

    def fresh(self):
        s = type("S", (), {})()
        s.m = [int(c) for c in self.start]
        s.real = cdt.BitString(self.start)
        return s

    def ops(self, s):
        n = len(s.m)
        for i in range(-n, n):
            yield from ((("set", i, x) for x in (0, 1, True, False)))
            yield ("inverse", i)
        for k in (0, 1, 2, n, n + 1):
            if n:
                yield ("rol", k)
                yield ("ror", k)
        yield ("clear",)
        yield ("assign", "10" * (n // 2) + "1" * (n % 2))
        if n == len(self.start):
            yield from (("assign", x) for x in self.others)
        else:
            yield ("assign", self.start)
        yield ("bad-index", n)
        yield from (("bad-text", x) for x in ("012", "1_0", " 1", "1 ", "+1", "-1", "0b1"))

    def apply(self, s, op, o):
        v, m, n = s.real, s.m, len(s.m)
        if op[0] == "set":
            v[op[1]] = op[2]
            m[op[1]] = int(op[2])
        elif op[0] == "inverse":
            v.inverse(op[1])
            m[op[1]] ^= 1
        elif op[0] == "rol":
            v << op[1]
            for _ in range(op[1]):
                m.append(m.pop(0))
        elif op[0] == "ror":
            v >> op[1]
            for _ in range(op[1]):
                m.insert(0, m.pop())
        elif op[0] == "clear":
            v.clear()
            m[:] = [0] * n
        elif op[0] == "assign":
            v.set(op[1])
            m[:] = map(int, op[1])
            n = len(m)
        elif op[0] == "bad-index":
            o.eq(outcome(v.__setitem__, op[1], 1)[0], "err", "index past the end", "index")
        elif op[0] == "bad-text":
            o.eq(outcome(v.set, op[1])[0], "err", f"text {op[1]!r}", "text")
        o.eq((v.decode(), len(v), str(v), v.contents), (m, n, "".join(map(str, m)), pack(m)), f"bits after {op}", op[0])
        o.eq(v.encoding, b"\x04" + ref.enc_len(n) + pack(m), "encoding", "encode")
        for i in range(n):
            o.eq(v[i], bytes([m[i]]), f"bit {i}", "index")

    def canon(self, s):
        return tuple(s.m)

    def invariant(self, s):
        if s.real.decode() != s.m:
            raise Mismatch("bits differ", "bits")


@unit("bits", 2)
def bits(ctx):
    n = ctx.pick(12, 15)
    ctx.bound(f"every bit string of 0..{n} bits: octets, text, list, contents, copy; histories of bit assignments, inversions, rotations and clears to the fixpoint of every start of 0..5 bits and one of 9")

    def one(s, o):
        m = [int(c) for c in s]
        w = b"\x04" + ref.enc_len(len(m)) + pack(m)
        for v in (cdt.BitString(s), cdt.BitString(m), cdt.BitString(w), cdt.BitString(cdt.BitString(s))):
            o.eq((v.encoding, v.decode(), str(v), len(v)), (w, m, s, len(m)), "bits", "value")
        if len(m) % 8 == 0:
            o.eq(cdt.BitString(bytearray(pack(m))).encoding, w, "from contents octets", "contents")
        for j in range(len(w)):
            if j < len(w):
                rejects(o, lambda: cdt.BitString(w[:j]), (Exception,), f"bits cut to {j} octets", "cut")
        for tail in (b"\0", b"\xff\1\2"):
            v = cdt.BitString(w + tail)
            o.eq((v.encoding, v.contents), (w, pack(m)), "bits followed by other octets", "tail")

    def long(s, o):
        one(s, o)
        m = [int(c) for c in s]
        v = cdt.BitString(s)
        n = len(m)
        for i in sorted({0, 1, 7, 8, 62, 63, 64, 65, 71, 127, n - 1} & set(range(n))):
            for j, x in ((i, 1), (i - n, 0), (i, 1 - m[i])):
                v[j] = x
                m[i] = x
                o.eq((v.decode(), v.contents, v[i]), (m, pack(m), bytes([x])), f"bit {j} of {n} set to {x}", "set")
            v.inverse(i)
            m[i] ^= 1
            o.eq((v.decode(), v.contents), (m, pack(m)), f"bit {i} of {n} inverted", "inverse")
    ctx.all("values", ("".join(t) for k in range(n + 1) for t in itertools.product("01", repeat=k)), one)
    ctx.all("long", ["1" * k for k in (127, 128, 129, 255, 256, 1000)] + ["10" * 64, "10" * 36, "011" * 24, "0" * 65], long)
    if ctx.shard == 0:
        sh, ctx.nshards = ctx.nshards, 1
        for st in ("", "1", "01", "101", "0110", "10010", "100000001"):
            ctx.bfs("history-" + (st or "empty"), BitSys(st), 8 if len(st) < 6 else ctx.pick(2, 4))
        ctx.nshards = sh


NAMES = ["reserved-zero", "general-protection", "general-block-transfer", "read", "write", "unconfirmed-write", "reserved-six", "reserved-seven", "attribute0-supported-with-set", "priority-mgmt-supported",
         "attribute0-supported-with-get", "block-transfer-with-get-or-read", "block-transfer-with-set-or-write", "block-transfer-with-action", "multiple-references", "information-report", "data-notification",
         "access", "parameterized-access", "get", "set", "selective-access", "event-notification", "action"]


@unit("flags")
def flags(ctx):
    ctx.bound("conformance block: every single bit, every pair of bits, all and none, by octets, text, integer and contents; its named bits; security policy version 1: all 256 octets")
    cases = [1 << i for i in range(24)] + [1 << i | 1 << j for i, j in itertools.combinations(range(24), 2)] + [0, (1 << 24) - 1]

    def conf(x, o):
        b = x.to_bytes(3, "big")
        m = [x >> 23 - i & 1 for i in range(24)]
        s = "".join(map(str, m))
        rev = int(s[::-1], 2)
        for v in (bs.Conformance(b"\x04\x18" + b), bs.Conformance(s), bs.Conformance(bytearray(b)), bs.Conformance(rev), bs.Conformance(bs.Conformance(s))):
            o.eq((v.contents, v.decode(), str(v), len(v), v.encoding), (b, m, s, 24, b"\x04\x18" + b), "conformance", "conformance")
        o.eq((v.general_protection, v.general_block_transfer, v.selective_access), (m[1], m[2], m[21]), "named bits", "names")
    ctx.all("conformance", cases, conf)
    ctx.all("conformance-size", [k for k in range(40) if k != 24], lambda k, o: rejects(o, lambda: bs.Conformance(b"\x04" + bytes([k]) + bytes(5)), (Exception,), f"{k} bits", "size"))
    forms = {"text": lambda k: "1" * k, "list": lambda k: [1] * k, "bit string": lambda k: cdt.BitString("1" * k), "octets": lambda k: bytearray(b"\xff" * k), "integer": lambda k: 1 << k}

    def forms_(c, o):
        n, k = c
        good = k == {"octets": 3}.get(n, 24) if n != "integer" else k < 24
        v = forms[n](k)
        if not good:
            rejects(o, lambda: bs.Conformance(v), (Exception,), f"conformance from {n} {v!r}", "form")
            return
        w = b"\xff\xff\xff" if n != "integer" else (1 << 23 - k).to_bytes(3, "big")
        o.eq((bs.Conformance(v).encoding, len(bs.Conformance(v))), (b"\x04\x18" + w, 24), f"conformance from {n}", "form")
    ctx.all("conformance-forms", [(n, k) for n in forms for k in range(0 if n != "integer" else 0, 41)], forms_)
    titles = tomllib.load(open("config.toml", "rb"))["DLMS"]["Conformance"]
    ctx.all("conformance-texts", [x for k in range(24) for x in ("1" * k + c + "0" * (23 - k) for c in "2_ +-x")], lambda s, o: rejects(o, lambda: bs.Conformance(s), (ValueError,), f"text {s!r}", "text"))
    ctx.all("conformance-titles", list(enumerate(NAMES)), lambda c, o: o.eq(bs.Conformance.get_values()[c[0]], titles[c[1]], f"title of bit {c[0]}", "title"))
    sp = env.mod("cosem_interface_classes.security_setup.ver1").SecurityPolicyVer1

    def pol(x, o):
        v = sp(bytes([0x16, x]))
        o.eq((v.encoding, v.decode(), str(v)), (bytes([0x16, x]), [x >> 7 - i & 1 for i in range(8)], f"{x:08b}"), "policy bits", "policy")
        o.eq(sp(f"{x:08b}").contents, bytes([x]), "from text", "policy")
    ctx.all("policy", range(256), pol)
    ctx.all("policy-long", ["".join(p) + s for n in range(9) for p in itertools.product("01", repeat=n) for s in ("0" * (9 - n), "1" * (9 - n), "01" * 8)], lambda s, o: rejects(o, lambda: sp(s), (ValueError,), f"text {s!r}", "text"))
    ctx.all("sizes", [(c, (bytes([a]) * n + bytes([b]))[:n]) for c in (sp, cdt.Enum) for n in (0, 2, 3, 5) for a in (0, 1, 0xff) for b in (0, 1, 0x80) if n or not a + b],
            lambda c, o: rejects(o, lambda: c[0](bytearray(c[1])), (ValueError,), f"{c[0].__name__} of the octets {c[1]}", "size"))
    ctx.all("open", range(256), lambda x, o: o.eq([cdt.Enum(v).encoding for v in (bytes([0x16, x]), bytearray([x]), x, str(x), cdt.Enum(x))], [bytes([0x16, x])] * 5, f"open enumeration {x}", "value"))
    ctx.all("policy-texts", [x for k in range(8) for x in ("1" * k + c + "0" * (7 - k) for c in "2_ +-x")], lambda s, o: rejects(o, lambda: sp(s), (ValueError,), f"text {s!r}", "text"))


@unit("enums", 2)
def enumerations(ctx):
    es = list(enums())
    ctx.bound(f"{len(es)} enumerations x all 256 codes: accepted exactly when the code is assigned; text, name, integer, set, order, hash")

    def one(case, o):
        name, C, codes = case
        tag = bytes(C.TAG)
        for x in range(256):
            for how, arg in (("encoding", tag + bytes([x])), ("contents", bytearray([x])), ("int", x), ("digits", str(x))):
                st, v = outcome(C, arg)
                if x in codes:
                    if st == "err":
                        raise Mismatch(f"{name} code {x} from {how} refused: {v}", "refused")
                    o.eq((v.contents, v.encoding, int(v)), (bytes([x]), tag + bytes([x]), x), f"{name} {x} from {how}", "value")
                    o.eq(v.decode(), BAUD[x] if name == "CommSpeed" else x, f"{name} {x}", "decode")
                    o.ok(v == C(v) and hash(v) == hash(C(v)), "equality and hash", "eq")
                else:
                    if name == "CommSpeed" and how in ("int", "digits") and x in BAUD:
                        continue
                    o.eq(st, "err", f"{name} code {x} from {how}", "accepted")
        names = {}
        for x in codes:
            if name == "Unit" and cdt.Unit(x).get_scaler():
                continue
            t = str(C(x))
            names.setdefault(t, x)
            if names[t] == x and not t.isdigit():
                o.eq(C(t).contents, bytes([x]), f"{name} from its text {t!r}", "text")
        for x, y in itertools.product(codes[:12], repeat=2):
            o.eq(C(x) > C(y), x > y, "order", "order")
            v = C(x)
            v.set(y)
            o.eq((int(v), v.value2, v.value), (y, y, str(v)), "set", "set")
        for bad in (-1, 256, "no such name", tag, b"\x09" + bytes([codes[0]]), bytearray(), bytearray(2)):
            rejects(o, lambda: C(bad), (Exception,), f"{name}({bad!r})", "refuse")
        o.eq(sorted(C.get_values()), sorted(str(C(x)) if not (name == "Unit" and cdt.Unit(x).get_scaler()) else C.ELEMENTS[bytes([x])] for x in codes), "list of the texts", "values")
    ctx.all("codes", es, one)
    ctx.all("baud", list(enumerate(BAUD)), lambda c, o: (o.eq(en.CommSpeed(c[1]).contents, bytes([c[0]]), f"{c[1]} baud", "baud"), o.eq(en.CommSpeed(str(c[1])).contents, bytes([c[0]]), f"text {c[1]}", "baud")))


@unit("booleans")
def booleans(ctx):
    ctx.bound("all contents octets, integers, booleans and every prefix of the words True/False/Yes/No/Правда/Ложь/Да/Нет; other words refused; bcd all 256 octets; null data")
    words = {"true": 1, "false": 0, "yes": 1, "no": 0, "правда": 1, "ложь": 0, "да": 1, "нет": 0}

    def word(case, o):
        w, k, f = case
        t = f(w[:k])
        v = cdt.Boolean(t)
        # a prefix may be shared by two words; the false one is looked up first
        vals = {b for x, b in words.items() if x.startswith(w[:k])}
        if len(vals) == 1:
            o.eq((v.decode(), v.contents), (bool(words[w]), bytes([words[w]])), f"text {t!r}", "word")
    ctx.all("words", [(w, k, f) for w in words for k in range(1, len(w) + 1) for f in (str.lower, str.upper, str.title)], word)
    ctx.all("refuse", ["2", "x", "maybe", "tru e", "trueish", "10", "yess"], lambda t, o: rejects(o, lambda: cdt.Boolean(t), (ValueError,), f"text {t!r}", "refuse"))

    def val(x, o):
        o.eq(cdt.Boolean(x).contents, b"\1" if x else b"\0", f"from {x}", "int")
        o.eq(int(cdt.Boolean(bytes([3, x]))), int(x != 0), f"octet {x}", "int")
        o.eq(str(cdt.Boolean(x)), str(bool(x)), "text", "text")
        b = cdt.Bcd(bytes([13, x]))
        o.eq((b.contents, b.encoding, str(b)), (bytes([x]), bytes([13, x]), str(x)), "bcd", "bcd")
        for c in (cdt.Bcd(x), cdt.Bcd(str(x)), cdt.Bcd(bytearray([x])), cdt.Bcd(b), b.copy()):
            o.eq(c.contents, bytes([x]), "bcd", "bcd")
        b.clear()
        o.eq((b.contents, cdt.Bcd().contents), (b"\0", b"\0"), "cleared and default bcd", "bcd")
    ctx.all("octets", range(256), val)
    ctx.all("bcd-refuse", [256, -1, "256", "x", "", b"\x0d", b"\x11\1"], lambda t, o: rejects(o, lambda: cdt.Bcd(t), (ValueError,), f"{t!r}", "refuse"))

    def null(x, o):
        v = cdt.NullData(x)
        v.set(None)
        v.clear()
        o.eq((v.encoding, v.contents, v.decode()), (b"\0", b"", None), "null data", "null")
    ctx.all("null", [None, "", "x", b"\0", b"\0\1"], null)


@unit("strings")
def strings(ctx):
    ctx.bound("octet, visible and UTF-8 strings: every octet alone and in context, every cp1251 and several hundred unicode characters, lengths 0..300, integers")

    def octet(c, o):
        v = cdt.OctetString(bytearray(c))
        o.eq((v.contents, bytes(v), v.decode(), len(v), v.encoding), (c, c, c, len(c), b"\x09" + ref.enc_len(len(c)) + c), "octets", "octet")
        o.eq(cdt.OctetString(str(v)).contents, c, "from its text", "text")
        o.eq(cdt.OctetString(c.hex()).contents, c, "from hex", "text")
        for i in range(len(c)):
            o.eq(v[i], c[i], "index", "octet")
        o.eq(v.to_str(), bytes(x if x > 32 else 63 for x in c).decode("cp1251", "strict") if 0x98 not in c else v.to_str(), "shown text", "shown")
    ctx.all("octet", [bytes([x]) for x in range(256) if x != 0x98] + [bytes([1, x, 2]) for x in range(256) if x != 0x98] + [bytes(x % 128 for x in range(n)) for n in (*range(20), 127, 128, 129, 255, 256, 300)], octet)

    def num(x, o):
        n = max(1, (x.bit_length() + 7) // 8)
        o.eq(cdt.OctetString(x).contents, x.to_bytes(n, "big"), f"from integer {x}", "int")
        o.eq((cdt.VisibleString(x).contents, cdt.Utf8String(x).contents), (str(x).encode(),) * 2, f"from integer {x}", "int")
    ctx.all("int", [0, 1, 255, 256, 65535, 65536] + [1 << k for k in range(3, 250, 7)] + [(1 << k) - 1 for k in range(3, 257, 11)], num)
    ctx.all("int-refuse", [-1, 1 << 256, 1 << 300], lambda x, o: rejects(o, lambda: cdt.OctetString(x), (ValueError,), f"{x}", "refuse"))
    ctx.all("hex-refuse", ["0", "0g", "1 2", "xyz"], lambda x, o: rejects(o, lambda: cdt.OctetString(x), (ValueError,), f"{x!r}", "refuse"))

    def vis(s, o):
        c = s.encode("cp1251")
        v = cdt.VisibleString(s)
        shown = "".join(x if ord(x) >= 32 else "?" for x in s)
        o.eq((v.contents, v.encoding, str(v), v.decode(), v.to_str()), (c, b"\x0a" + ref.enc_len(len(c)) + c, shown, shown, shown), "visible string", "visible")
        u = cdt.Utf8String(s)
        o.eq((u.contents, str(u), u.encoding), (s.encode(), s, b"\x0c" + ref.enc_len(len(s.encode())) + s.encode()), "utf-8 string", "utf8")
    ctx.all("characters", [bytes([x]).decode("cp1251") for x in range(256) if x != 0x98] + ["Ток, А", "", "a" * 127, "я" * 128, "x" * 300], vis)
    ctx.all("other characters", [chr(x) for x in list(range(0xa0, 0x3000, 11)) + [0x98, 0x2028, 0xffff, 0x1f600]],
            lambda s, o: rejects(o, lambda: cdt.VisibleString("a" + s), (ValueError,), f"character {ord(s):x} in a visible string", "visible") if outcome(s.encode, "cp1251")[0] == "err" else None)
    ctx.all("utf8", [chr(x) for x in list(range(0, 0x800, 7)) + [0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff] if not 0xd800 <= x < 0xe000], lambda s, o: o.eq((cdt.Utf8String(s).contents, str(cdt.Utf8String(s))), (s.encode(), s), "utf-8", "utf8"))

    LDN = env.mod("types.implementations.octet_string").LDN
    ctx.all("device name", [bytes(x % 256 for x in range(f, f + n)) for n in range(20) for f in (0, 0x41, 0xf0)], lambda c, o: o.eq((LDN(bytearray(c)).manufacturer(), LDN(bytearray(c)).encoding), (c[:3], b"\x09" + bytes([len(c)]) + c), "manufacturer of a logical device name", "device name"))

    def size(case, o):
        n, k = case
        LN = env.mod("types.cosem_service_types").LogicalName
        st, v = outcome(LN, b"\x09" + bytes([k]) + bytes(k))
        o.eq(st, "ok" if k == 6 else "err", f"logical name of {k} octets", "size")
        v = LN("1.2.3.4.5.6")
        st, e = outcome(v.set, bytearray(k))
        o.eq((st, v.contents), ("ok", bytes(6)) if k == 6 else ("err", b"\1\2\3\4\5\6"), f"logical name set to {k} octets", "size")
    ctx.all("fixed-size", [(6, k) for k in range(13)], size)

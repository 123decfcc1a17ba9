"""P42: codes and names - the wire enumerations against the standard's tables, conformance bits in both of their forms,
error classes, and the texts that name an interface, a channel, a context or an address length."""
import itertools
import env
from explorer import unit, outcome, rejects

en, pdu, exc, ver = env.mod("enums"), env.mod("pdu_enums"), env.mod("exceptions"), env.mod("version")
frame = env.mod("hdlc.frame")
cdt, ut, cst = (env.mod(f"types.{n}") for n in ("common_data_types", "useful_types", "cosem_service_types"))
bs = env.mod("types.implementations.bitstrings")
ASSUMPTIONS = ["the tables of COSEMpdu_GB83.asn and of the conformance block are written in the check"]

# ------------------------------------------------------------------ COSEMpdu_GB83.asn
T = {
    "XDLMSAPDU": dict(INITIATE_REQUEST=1, READ_REQUEST=5, WRITE_REQUEST=6, INITIATE_RESPONSE=8, READ_RESPONSE=12, WRITE_RESPONSE=13, CONFIRMED_SERVICE_ERROR=14, DATA_NOTIFICATION=15,
                      UNCONFIRMED_WRITE_REQUEST=22, INFORMATION_REPORT_REQUEST=24, GET_REQUEST=192, SET_REQUEST=193, EVENT_NOTIFICATION_REQUEST=194, ACTION_REQUEST=195, GET_RESPONSE=196,
                      SET_RESPONSE=197, ACTION_RESPONSE=199, EXCEPTION_RESPONSE=216, ACCESS_REQUEST=217, ACCESS_RESPONSE=218, GENERAL_GLO_CIPHERING=219, GENERAL_DED_CIPHERING=220,
                      GENERAL_CIPHERING=221, GENERAL_SIGNING=223, GENERAL_BLOCK_TRANSFER=224, GATEWAY_REQUEST=230, GATEWAY_RESPONSE=231),
    "ACSEAPDU": dict(AARQ=0x60, AARE=0x61, RLRQ=0x62, RLRE=0x63),
    "VariableAccessSpecification": dict(VARIABLE_NAME=2, PARAMETERIZED_ACCESS=4, BLOCK_NUMBER_ACCESS=5, READ_DATA_BLOCK_ACCESS=6, WRITE_DATA_BLOCK_ACCESS=7),
    "ActionRequest": dict(NORMAL=1, NEXT_PBLOCK=2, WITH_LIST=3, WITH_FIRST_PBLOCK=4, WITH_LIST_AND_FIRST_PBLOCK=5, WITH_PBLOCK=6),
    "ReadResponse": dict(DATA=0, DATA_ACCESS_ERROR=1, DATA_BLOCK_RESULT=2, BLOCK_NUMBER=3),
    "ServiceError": {n: i for i, n in enumerate("APPLICATION_REFERENCE HARDWARE_RESOURCE VDE_STATE_ERROR SERVICE DEFINITION ACCESS INITIATE LOAD_DATA_SET CHANGE_SCOPE TASK OTHER".split())},
    "ConfirmedServiceError": {n: i for i, n in enumerate("INITIATE_ERROR GET_STATUS GET_NAME_LIST GET_VARIABLE_ATTRIBUTE READ WRITE GET_DATA_SET_ATTRIBUTE GET_TI_ATTRIBUTE CHANGE_SCOPE START "
                                                         "STOP RESUME MAKE_USABLE INITIATE_LOAD LOAD_SEGMENT TERMINATE_LOAD INITIATE_UP_LOAD UP_LOAD_SEGMENT TERMINATE_UP_LOAD".split(), 1)},
    "AARQapdu": {**{n: i for i, n in enumerate("PROTOCOL_VERSION APPLICATION_CONTEXT_NAME CALLED_AP_TITLE CALLED_AE_QUALIFIER CALLED_AP_INVOCATION_ID CALLED_AE_INVOCATION_ID CALLING_AP_TITLE "
                                               "CALLING_AE_QUALIFIER CALLING_AP_INVOCATION_ID CALLING_AE_INVOCATION_ID SENDER_ACSE_REQUIREMENTS MECHANISM_NAME CALLING_AUTHENTICATION_VALUE".split())},
                 "IMPLEMENTATION_INFORMATION": 29, "USER_INFORMATION": 30},
    "SetRequest": dict(SET_REQUEST_NORMAL=1, SET_REQUEST_FIRST_DATABLOCK=2, SET_REQUEST_WITH_DATABLOCK=3, SET_REQUEST_WITH_LIST=4, SET_REQUEST_WITH_LIST_AND_WITH_FIRST_DATABLOCK=5),
    "AssociationResult": dict(ACCEPTED=0, REJECTED_PERMANENT=1, REJECTED_TRANSIENT=2),
    "AcseServiceUser": {n: i for i, n in enumerate("NULL NO_REASON_GIVEN APPLICATION_CONTEXT_NAME_NOT_SUPPORTED CALLING_AP_TITLE_NOT_RECOGNIZED CALLING_AP_INVOCATION_IDENTIFIER_NOT_RECOGNIZED "
                                                   "CALLING_AE_QUALIFIER_NOT_RECOGNIZED CALLING_AE_INVOCATION_IDENTIFIER_NOT_RECOGNIZED CALLED_AP_TITLE_NOT_RECOGNIZED "
                                                   "CALLED_AP_INVOCATION_IDENTIFIER_NOT_RECOGNIZED CALLED_AE_QUALIFIER_NOT_RECOGNIZED CALLED_AE_INVOCATION_IDENTIFIER_NOT_RECOGNIZED "
                                                   "AUTHENTICATION_MECHANISM_NAME_NOT_RECOGNISED AUTHENTICATION_MECHANISM_NAME_REQUIRED AUTHENTICATION_FAILURE AUTHENTICATION_REQUIRED".split())},
    "ContextId": dict(LN_NO_CIPHERING=1, SN_NO_CIPHERING=2, LN_CIPHERING=3, SN_CIPHERING=4),
    "DataAccessResult": dict(SUCCESS=0, HARDWARE_FAULT=1, TEMPORARY_FAILURE=2, READ_WRITE_DENIED=3, OBJECT_UNDEFINED=4, OBJECT_CLASS_INCONSISTENT=9, OBJECT_UNAVAILABLE=11, TYPE_UNMATCHED=12,
                             SCOPE_OF_ACCESS_VIOLATED=13, DATA_BLOCK_UNAVAILABLE=14, LONG_GET_ABORTED=15, NO_LONG_GET_IN_PROGRESS=16, LONG_SET_ABORTED=17, NO_LONG_SET_IN_PROGRESS=18,
                             DATA_BLOCK_NUMBER_INVALID=19, OTHER_REASON=250),
    "GetResponse": dict(NORMAL=1, WITH_DATABLOCK=2, WITH_LIST=3),
    "SetResponse": dict(NORMAL=1, DATABLOCK=2, LAST_DATABLOCK=3, LAST_DATABLOCK_WITH_LIST=4, WITH_LIST=5),
    "ActionResult": dict(SUCCESS=0, HARDWARE_FAULT=1, TEMPORARY_FAILURE=2, READ_WRITE_DENIED=3, OBJECT_UNDEFINED=4, OBJECT_CLASS_INCONSISTENT=9, OBJECT_UNAVAILABLE=11, TYPE_UNMATCHED=12,
                         SCOPE_OF_ACCESS_VIOLATED=13, DATA_BLOCK_UNAVAILABLE=14, LONG_ACTION_ABORTED=15, NO_LONG_ACTION_IN_PROGRESS=16, OTHER_REASON=250),
    "ActionResponse": dict(NORMAL=1, WITH_PBLOCK=2, WITH_LIST=3, NEXT_PBLOCK=4),
    "AttributeAccess": dict(NO_ACCESS=0, READ_ONLY=1, WRITE_ONLY=2, READ_AND_WRITE=3, AUTHENTICATED_READ_ONLY=4, AUTHENTICATED_WRITE_ONLY=5, AUTHENTICATED_READ_AND_WRITE=6),
    "MethodAccess": dict(NO_ACCESS=0, ACCESS=1, AUTHENTICATED_ACCESS=2),
    "SecurityPolicyVer0": dict(NOTHING=0, AUTHENTICATED=1, ENCRYPTED=2, AUTHENTICATED_AND_ENCRYPTED=3),
    "SecurityPolicyVer1": dict(AUTHENTICATED_REQUEST=4, ENCRYPTED_REQUEST=8, DIGITALLY_SIGNED_REQUEST=16, AUTHENTICATED_RESPONSE=32, ENCRYPTED_RESPONSE=64, DIGITALLY_SIGNED_RESPONSE=128),
}
for base, glo, ded in ((1, 33, 65), (5, 37, 69), (6, 38, 70), (8, 40, 72), (12, 44, 76), (13, 45, 77), (14, 46, 78), (22, 54, 86), (24, 56, 88), (192, 200, 208), (193, 201, 209), (194, 202, 210),
                       (195, 203, 211), (196, 204, 212), (197, 205, 213), (199, 207, 215)):
    name = next(n for n, v in T["XDLMSAPDU"].items() if v == base)
    T["XDLMSAPDU"] |= {f"GLO_{name}": glo, f"DED_{name}": ded}
FLAGS = ("XDLMSAPDU", "SecurityPolicyVer1")       # any combination of bits is a value there


@unit("wire")
def wire(ctx):
    ctx.bound(f"all 256 codes of {len(T)} enumerations of the application layer")

    def body(c, o):
        n, code = c
        e = getattr(pdu, n, None) or getattr(en, n)
        want = next((k for k, v in T[n].items() if v == code), None)
        if n in FLAGS:
            if want is not None:
                o.eq(int(e[want]), code, f"{n}.{want}", "code")
                o.eq((e(code).name, int(e(code))), (want, code), f"{n} {code}", "name")
            return
        k, v = outcome(e, code)
        o.eq((v.name, int(v)) if k == "ok" else k, (want, code) if want else "err", f"{n} {code}", "name")
        if want:
            o.eq(int(e[want]), code, f"{n}.{want}", "code")
    ctx.all("codes", itertools.product(T, range(256)), body)


# ------------------------------------------------------------------ conformance
# the position in the block, the most significant bit of the first octet first
BLOCK = ["RESERVED_ZERO", "GENERAL_PROTECTION", "GENERAL_BLOCK_TRANSFER", "READ", "WRITE", "UN_CONFIRMED_WRITE", "RESERVED_SIX", "RESERVED_SEVEN", "ATTRIBUTE_0_SUPPORTED_WITH_SET",
         "PRIORITY_MGMT_SUPPORTED", "ATTRIBUTE_0_SUPPORTED_WITH_GET", "BLOCK_TRANSFER_WITH_GET_OR_READ", "BLOCK_TRANSFER_WITH_SET_OR_WRITE", "BLOCK_TRANSFER_WITH_ACTION", "MULTIPLE_REFERENCES",
         "INFORMATION_REPORT", "DATA_NOTIFICATION", "ACCESS", "PARAMETERIZED_ACCESS", "GET", "SET", "SELECTIVE_ACCESS", "EVENT_NOTIFICATION", "ACTION"]


@unit("conformance")
def conformance(ctx):
    n = ctx.pick(3, 4)
    ctx.bound(f"all sets of up to {n} and of all but up to {min(n, 3)} of the 24 conformance bits, in the enumeration and in the bit string of an association")
    titles = bs.Conformance.ELEMENTS

    def body(bits, o):
        raw = sum(0x800000 >> b for b in bits).to_bytes(3, "big")
        v = en.Conformance(0)
        for b in bits:
            v |= en.Conformance[BLOCK[b]]
        o.eq(v.content, raw, f"octets of {[BLOCK[b] for b in bits]}", "content")
        o.eq(bytes(v), raw, "bytes", "content")
        o.eq([x for x in BLOCK if en.Conformance[x] & v], [BLOCK[b] for b in sorted(bits)], "flags back", "flags")
        s = bs.Conformance(b"\x04\x18" + raw)
        o.eq(s.encoding, b"\x04\x18" + raw, "bit string", "encoding")
        o.eq([bool(x) for x in s.decode()], [i in bits for i in range(24)], "bits of the string", "bits")
        o.eq(bs.Conformance("".join(map(str, s.decode()))).encoding, s.encoding, "bit string from its text of bits", "text")
        o.eq(bs.Conformance(sum(1 << b for b in bits)).encoding, s.encoding, "bit string from the number with bit n of the block at 2 to the n", "number")
        o.eq((s.general_protection, s.general_block_transfer, s.selective_access), tuple(int(i in bits) for i in (1, 2, 21)), "named bits", "named bits")
        if titles is not None:
            o.eq([titles[i] for i, x in enumerate(s.decode()) if x], [titles[b] for b in sorted(bits)], "titles", "titles")
    sets = [c for k in range(n + 1) for c in itertools.combinations(range(24), k)]
    ctx.all("sets", sets + [tuple(i for i in range(24) if i not in c) for k in range(min(n, 3) + 1) for c in itertools.combinations(range(24), k)], body)
    ctx.all("numbers", [(n, 0) for n in (-1, -2, 1 << 24, (1 << 24) + 1, 1 << 25, 1 << 31, 1 << 64)], lambda c, o: rejects(o, lambda: bs.Conformance(c[0]), (Exception,), f"conformance of the number {c[0]}", "number"))
    ctx.all("length", [(n, 0) for n in (0, 1, 8, 16, 23, 25, 32)], lambda c, o: rejects(o, lambda: bs.Conformance(bytes([4, c[0]]) + bytes((c[0] + 7) // 8)), (Exception,), f"conformance of {c[0]} bits", "length"))


# ------------------------------------------------------------------ names and texts
@unit("names")
def names(ctx):
    ctx.bound("all names of interfaces, channels and contexts and texts near them; address lengths -2 to 300 and texts of up to 3 characters over - 0 1 2 3 4 A U T O; every error class")

    def named(c, o):
        e, text = c
        k, v = outcome(getattr(en, e).from_str, text)
        want = getattr(en, e).__members__.get(text)
        o.eq(v if k == "ok" else k, want if want is not None else "err", f"{e} {text!r}", "name")
    texts = {t for e in ("Interface", "ChannelNumber", "ContextId") for m in getattr(en, e).__members__ for t in (m, m.lower(), m + " ", m[:-1], " " + m, m + "1")} | {"", "0", "1", "7"}
    ctx.all("from text", itertools.product(("Interface", "ChannelNumber", "ContextId"), sorted(texts)), named)

    def length(n, o):
        k, v = outcome(frame.AddressLength, n)
        o.eq(k == "ok", n in (-1, 1, 2, 4), f"address length {n}", "length")
        if k == "ok":
            o.eq((int(v), str(v)), (n, "AUTO" if n == -1 else str(n)), f"address length {n}", "length-text")
            o.eq(frame.AddressLength.from_str(str(v)), n, "back", "length-back")
            o.ok(str(v) in frame.AddressLength.get_values(), f"{v} offered", "offered")
    ctx.all("length", range(-2, 301), length)
    o_ = [t for t in frame.AddressLength.get_values()]

    def text(c, o):
        t = "".join(c)
        k, v = outcome(frame.AddressLength.from_str, t)
        o.eq(int(v) if k == "ok" else k, want if (want := -1 if t == "AUTO" else outcome(int, t)[1]) in (-1, 1, 2, 4) else "err", f"address length {t!r}", "length-from")
    ctx.all("length text", [("AUTO",), ("auto",), ("AUT",)] + [c for n in range(0, 4) for c in itertools.product("-01234AUTO", repeat=n)], text)
    ctx.all("offered", [tuple(o_)], lambda c, o: o.eq(sorted(c), ["1", "2", "4", "AUTO"], "lengths offered", "offered"))

    def errors(c, o):
        e = c[0]
        for m in e:
            o.eq(m.is_ok(), m.name == "OK", f"{m} is ok", "is_ok")
            o.eq((m.importance, m.value), (e.__members__[m.name]._value_[0], e.__members__[m.name]._value_[1]), f"{m}", "importance")
            o.ok(m is e.OK or m.importance > e.OK.importance, f"importance of {m}", "importance")
        o.eq(len({m.value for m in e}), len(list(e.__members__)), "texts of the errors differ", "texts")
    ctx.all("errors", [(en.Transmit,), (en.Application,)], errors)

    def raised(c, o):
        cls, v = c
        e = exc.ResultError(cls(v)) if cls is not None else exc.VersionError(v)
        if cls is not None:
            o.ok(e.result is cls(v) and cls(v).name in str(e) and e.error is en.Application.RESULT_ERROR, f"{e!r}", "raised")
        else:
            o.ok(e.version is v and str(v) in str(e) and e.error is en.Application.VERSION_ERROR, f"{e!r}", "raised")
    ctx.all("raised", [(c, int(v)) for c in (pdu.DataAccessResult, pdu.ActionResult) for v in c] + [(None, ver.AppVersion(1, 2, 3))], raised)

    def report(c, o):
        a, b, p, x = c
        v = ver.AppVersion(a, b, p, x)
        o.eq(v.report(), f"{a}.{b}" + (f".{p}" if p is not None else "") + (f" <{x}>" if x else ""), "version with its addition", "report")
    ctx.all("report", itertools.product((0, 1, 12), (0, 3), (None, 0, 5), ("", "a", "rc1")), report)

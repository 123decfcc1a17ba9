"""P38: text typed in for a value is judged without changing the value."""
import itertools
import env
from explorer import unit, outcome

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
cdt = env.mod("types.common_data_types")
bs = env.mod("types.implementations.bitstrings")
en = env.mod("types.implementations.enums")
dc = env.mod("cosem_interface_classes.disconnect_control")
SU = cdt.ScalUnitType(b"\x02\x02\x0f\xfe\x16\x1b")


def scaled(t, v):
    d = t(v)
    d.SCALER_UNIT = SU
    return d


DIGITS = "019-+. _x"
#: name -> (object to type into, alphabet, texts of the values to be typed one character after the other)
KINDS = {
    "boolean": (lambda: cdt.Boolean(1), "TrueFals01", ["True", "False", "0", "1"]),
    "bit-string": (lambda: cdt.BitString("10"), "012 _a", ["", "0", "1011", "111100001", "0" * 17]),
    "double-long": (lambda: cdt.DoubleLong(5), DIGITS, ["0", "7", "-1", "-2147483648", "2147483647"]),
    "double-long-unsigned": (lambda: cdt.DoubleLongUnsigned(5), DIGITS, ["0", "70000", "4294967295"]),
    "integer": (lambda: cdt.Integer(-5), DIGITS, ["0", "-128", "127"]),
    "unsigned": (lambda: cdt.Unsigned(5), DIGITS, ["0", "255"]),
    "long": (lambda: cdt.Long(5), DIGITS, ["-32768", "32767"]),
    "long-unsigned": (lambda: cdt.LongUnsigned(5), DIGITS, ["65535"]),
    "long64": (lambda: cdt.Long64(5), DIGITS, ["-9223372036854775808"]),
    "long64-unsigned": (lambda: cdt.Long64Unsigned(5), DIGITS, ["18446744073709551615"]),
    "scaled": (lambda: scaled(cdt.DoubleLong, 12345), DIGITS, ["0.12345", "-1.5", "20", "21474.83647", "-21474.83648", "21474", "-21474"]),
    "scaled-small": (lambda: scaled(cdt.Integer, 5), DIGITS, ["0.00127", "-0.00128", "0.001"]),
    "scaled-unsigned": (lambda: scaled(cdt.Unsigned, 5), DIGITS, ["0.00255", "0.0001"]),
    "scaled-long": (lambda: scaled(cdt.LongUnsigned, 5), DIGITS, ["0.65535", "0.6"]),
    "bcd": (lambda: cdt.Bcd(12), DIGITS, ["12", "99"]),
    "octet-string": (lambda: cdt.OctetString("01 ab"), "019aFg ", ["", "00", "01 ab ff", "a1b2", "00 00 00 00 00 00 00"]),
    "visible-string": (lambda: cdt.VisibleString("ab"), "aZ 0я~", ["", "a", "ab c", "0.0.1"]),
    "utf8-string": (lambda: cdt.Utf8String("ab"), "aZ 0я€", ["", "я", "a€ b"]),
    "comm-speed": (lambda: en.CommSpeed(5), "0139 6бод", ["9600 бод", "0", "9"]),
    "control-mode": (lambda: dc.ControlMode(1), "0123459 -", ["0", "6"]),
    "float32": (lambda: cdt.Float32("1.5"), "019-+.ex", ["0", "1.5", "-2.25", "1e5", "25e-3", "-1.5e+3", "0x1.8p+2", "-0x1p-3", "1.2345678901234567890123e-20"]),
    "float64": (lambda: cdt.Float64("1.5"), "019-+.ex", ["0", "1.5", "-2.25", "1e5", "25e-3", "-1.5e+3", "0x1.8p+2", "-0x1p-3", "-1.2345678901234567890123e-120"]),
    "time": (lambda: cdt.Time("10:20:30"), "0123:. 9", ["1:2:3", "10:20:30", "23:59:59.99"]),
    "octet-time": (lambda: cst.OctetStringTime("10:20:30"), "0123:. 9", ["1:2:3", "10:20:30"]),
    "date": (lambda: cdt.Date("1.2.2020"), "123.:- 09", ["1.2.2020", "29.12.1999"]),
    "octet-date": (lambda: cst.OctetStringDate("1.2.2020"), "123.:- 09", ["1.2.2020", "29.12.1999"]),
    "date-time": (lambda: cdt.DateTime("1.2.2020 10:20:30"), "12.: 09", ["1.2.2020", "1.2.2020 1:2:3", "29.12.1999 23:59:59"]),
    "octet-date-time": (lambda: cst.OctetStringDateTime("1.2.2020 10:20:30"), "12.: 09", ["1.2.2020", "1.2.2020 1:2:3"]),
    "logical-name": (lambda: cst.LogicalName("1.0.1.8.0.255"), "0125. a", ["1.0.1.8.0.255", "0.0.1.0.0.255", "255.255.255.255.255.255"]),
    "security-policy": (lambda: env.mod("cosem_interface_classes.security_setup.ver1").SecurityPolicyVer1(5), "012 _a", ["0", "1", "10101010", "00000000", "11111111"]),
    "conformance": (lambda: bs.Conformance(), "012 a", ["0" * 24, "01" * 12]),
}


def read(x, t):
    """value of the text for the object x: encoding, or None"""
    y = x.copy()
    st, _ = outcome(y.set, t)
    return bytes(y.encoding) if st == "ok" else None


def judge(o, make, t, cur, what):
    x = make()
    before = bytes(x.encoding)
    want = read(x, t)
    st, res = outcome(x.validate_from, t, cur)
    o.eq(bytes(x.encoding), before, f"{what} after {t!r} was judged", "changed")
    if want is not None:
        o.eq(st, "ok", f"{what}: {t!r} ({cur}) denotes a value: {res!r}", "refused")
    if st == "ok":
        t2, c2 = res
        o.ok(isinstance(t2, str) and isinstance(c2, int) and 0 <= c2 <= len(t2), f"{what}: {t!r} ({cur}) gave {res!r}", "cursor")
        if what not in ("float32", "float64", "octet-string", "comm-speed"):      # what is begun may go on
            o.ok(read(x, t2.zfill(24) if what == "conformance" else t2) is not None, f"{what}: {t!r} ({cur}) gave {t2!r}, which denotes nothing", "nothing")
        if want is not None:
            o.eq(read(x, t2), want, f"{what}: value of {t!r}, shown as {t2!r}", "meaning")
    return st, res


DATES = ("time", "octet-time", "date", "octet-date", "date-time", "octet-date-time")


@unit("places", 4)
def places(ctx):
    """dates and times are typed over a mask: what is shown keeps every digit in its order and the cursor behind what was typed; separators come by themselves and only where the text would not do without"""
    def body(case, o):
        kind, t, cur = case
        x = KINDS[kind][0]()
        before = bytes(x.encoding)
        st, res = outcome(x.validate_from, t, cur)
        o.eq(bytes(x.encoding), before, f"{kind} after {t!r} was judged", "changed")
        if st != "ok" or t[cur - 1] == "_":
            return o()
        t2, c2 = res
        digits = lambda s: [c for c in s if c.isdigit()]
        o.eq(digits(t2), digits(t), f"{kind}: digits of {t!r} ({cur}), shown as {t2!r}", "digits")
        o.ok(0 < c2 <= len(t2), f"{kind}: {t!r} ({cur}) gave {res!r}", "cursor")
        o.eq(digits(t2[:c2]), digits(t[:cur]), f"{kind}: digits before the cursor in {t!r} ({cur}), shown as {res!r}", "cursor")
        o.eq(t2[c2 - 1], t[cur - 1], f"{kind}: character before the cursor in {t!r} ({cur}), shown as {res!r}", "cursor")
        o.ok(c2 < 2 or t2[c2 - 2] != "_", f"{kind}: {t!r} ({cur}), shown as {t2!r}: places left open inside a number", "places")
        o.ok(len(t2) <= len(t) + 1, f"{kind}: {t!r} ({cur}), shown as {t2!r}", "separators")
        o.ok(read(x, t2) is not None, f"{kind}: {t!r} ({cur}) gave {t2!r}, which denotes nothing", "nothing")
    heads = {"time": ("", "1:", "23:59:", "10:20:30.", "__:__:"), "date": ("", "1.", "29.12.", "__.__."), "date-time": ("1.2.2020 ", "1.2.2020 1:", "29.12.1999 23:59:", "__.__.____ ")}
    n = ctx.pick(4, 5)
    cases = []
    for kind in DATES:
        for h in heads[kind.removeprefix("octet-")]:
            for m in range(1, n + 1):
                for s in itertools.product("12_" + (":" if "time" in kind else "."), repeat=m):
                    t = h + "".join(s)
                    cases += [(kind, t, cur) for cur in range(len(h) + 1, len(t) + 1)]
    ctx.all("places", cases, body)

    def missing(case, o):
        """a separator that lacks before the cursor comes by itself, whatever follows"""
        kind, text, i = case
        make = KINDS[kind][0]
        t = text[:i] + text[i + 1:]
        want = read(make(), text)
        o.ok(want is not None, f"{kind}: {text!r} is a value", "value")
        st, res = judge(o, make, t, i + 1, kind)
        if read(make(), t) is None:
            o.eq((st, read(make(), res[0]) if st == "ok" else res), ("ok", want), f"{kind}: {t!r} typed up to {i + 1} of {text!r}", "missing")
            o.eq(res, (text, i + 2), f"{kind}: {t!r} typed up to {i + 1} of {text!r}", "missing")
    dates = [f"{d}.{m}.{y}" for d in (1, 9, 29) for m in (1, 12) for y in (1999, 2020)]
    times = [f"{h}:{m}:{s}" for h in (0, 1, 23) for m in (2, 59) for s in (3, 59)]
    full = {"time": times + [x + ".99" for x in times] + [x[:x.rindex(":")] for x in times], "date": dates, "date-time": [f"{d} {x}" for d in dates for x in times]}
    ctx.all("missing", [(kind, t, i) for kind in DATES for t in full[kind.removeprefix("octet-")] for i, c in enumerate(t) if c in (".:" if "date" not in kind else ".")], missing)
    ctx.bound(f"{len(cases)} texts of dates and times with placeholders, the cursor behind any character")


@unit("texts", 8)
def texts(ctx):
    def body(case, o):
        kind, t = case
        make = KINDS[kind][0]
        for cur in range(1, len(t) + 1) if len(t) < 4 else (len(t),):
            judge(o, make, t, cur, kind)
    n = ctx.pick(5, 6)
    ctx.all("texts", [(k, "".join(s)) for k in KINDS for m in range(1, n + 1) for s in itertools.product(KINDS[k][1], repeat=m)], body)
    ctx.bound("all kinds of values: all texts of up to 5 (thorough 6) of 6 to 10 characters, the cursor behind any of them")


@unit("typing", 2)
def typing(ctx):
    def body(case, o):
        kind, text = case
        make = KINDS[kind][0]
        x = make()
        want = read(x, text)
        o.ok(want is not None, f"{kind}: {text!r} is a value", "value")
        cur, pos = "", 0
        for ch in text:
            st, res = judge(o, make, cur[:pos] + ch + cur[pos:], pos + 1, kind)
            o.eq(st, "ok", f"{kind}: {ch!r} typed behind {cur!r}: {res!r}", "typing")
            cur, pos = res
        if text:
            o.eq(read(x, cur), want, f"{kind}: {text!r} typed, got {cur!r}", "typing")
    ctx.all("values", [(k, t) for k, v in KINDS.items() for t in v[2]], body)

    def edit(case, o):
        """one character of a value taken out, or one put in"""
        kind, text, i, ch = case
        t = text[:i] + ch + text[i + (ch == ""):]
        if t:
            judge(o, KINDS[kind][0], t, max(1, i + len(ch)), kind)
    ctx.all("edits", [(k, t, i, ch) for k, v in KINDS.items() for t in v[2] for i in range(len(t) + 1) for ch in ("", *v[1])], edit)
    ctx.bound("the texts of 72 values typed character by character; each of them with one character less or more")

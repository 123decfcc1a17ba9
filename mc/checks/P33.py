"""P33: what is shown of a meter's values - register reports with units, event and status texts, object reports."""
import itertools
import re
import env
import ref
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch
from fractions import Fraction

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
ver = env.mod("version")
enu = env.mod("enums")
rep = env.mod("cosem_interface_classes.reports")
settings = env.mod("settings")
rn = env.mod("Values.RU.events" if settings.get_current_language() is settings.Language.RUSSIAN else "Values.EN.events")
cp = env.mod("config_parser")
import tomllib
with open("config.toml", "rb") as f:
    CFG = tomllib.load(f)["DLMS"]
MSG = CFG["messages"]


def enc(v):
    return None if v is None else bytes(v.encoding)


def add(ln, cid, v=0, c=None):
    return (col.Collection() if c is None else c).add(ut.CosemClassId(cid), cdt.Unsigned(v), cst.LogicalName(bytearray(int(i) for i in ln.split("."))))


def meter(spec):
    c = col.Collection()
    c.set_country_ver(ver.AppVersion(3, 0))
    if spec == "KPZ1":
        c.set_manufacturer(b"KPZ")
        c.set_server_ver(0, ver.AppVersion(1, 3, 29))
    c.set_spec()
    return c


# ---- registers ---------------------------------------------------------------------------------------------------
UNITS = {p["e"]: (p["v"], p.get("scaler", 0)) for p in CFG["Unit"]}
PREFIX = {p["value"]: p["name"] for p in CFG["scaler_prefix"]}


def shown(raw, su):
    """text of the raw value with this scaler and unit, and the unit's text"""
    if su is None:
        return str(raw), None
    p, u = su
    name, k = UNITS.get(u, (f"Unit({u})", 0))
    e = p - k
    unit_text = (PREFIX[k] if k else "") + name
    if e >= 0:
        return str(raw * 10 ** e), unit_text
    s = str(abs(raw)).rjust(-e + 1, "0")
    return ("-" if raw < 0 else "") + s[:e] + "." + s[e:], unit_text


def su_enc(su):
    return r.st(r.i8(su[0]), r.en(su[1]))


VALS = [r.u16(12345), r.i32(-70005), r.u8(0), r.u32(5), r.i16(-1), r.u16(65535), r.i8(-128)]
RAW = [12345, -70005, 0, 5, -1, 65535, -128]


class Reg:
    """histories of reading and clearing value and scaler_unit of one register"""

    def __init__(self, key, sus):
        self.key, self.sus = key, sus

    def fresh(self):
        x = add("1.0.1.8.0.255", *self.key)
        return [x, None, None]

    def ops(self, s):
        return [("v", i) for i in range(3)] + [("s", i) for i in range(len(self.sus))] + [("cv",), ("cs",)]

    def apply(self, s, op, o):
        x = s[0]
        if op[0] == "v":
            if s[1] is not None and VALS[op[1]][0] != VALS[s[1]][0]:
                return None        # another type: see P26
            x.set_attr(2, VALS[op[1]])
            s[1] = op[1]
        elif op[0] == "s":
            x.set_attr(3, su_enc(self.sus[op[1]]))
            s[2] = op[1]
        elif op[0] == "cv":
            x.clear_attr(2)
            s[1] = None
        else:
            x.clear_attr(3)
            s[2] = None

    def canon(self, s):
        return s[1], s[2], enc(s[0].get_attr(2)), enc(s[0].get_attr(3)), s[0].value is not None and enc(s[0].value.SCALER_UNIT)

    def invariant(self, s):
        pass


def show_register(x, raw, su, o, what):
    t, u = shown(raw, su)
    o.eq(str(x.value), t, f"{what}: text", "text")
    o.eq(x.value.report, t if u is None else f"{t} {u}", f"{what}: report of the value", "report")
    o.eq(x.value.get_report(with_unit=False), t, f"{what}: report without unit", "report")
    o.eq(x.get_report(), f"{x} {t} {u}" if u is not None else f"{x} {t}", f"{what}: report of the register", "register")
    if su is not None:
        before = enc(x.get_attr(2))
        o.eq(enc(x.encode(2, t)), before, f"{what}: encoding of {t}", "encode")
        o.eq(enc(x.get_attr(2)), before, f"{what}: value after encode", "encode")
        k = x.value.copy()
        o.eq((enc(k), str(k), k.report), (before, str(x.value), x.value.report), f"{what}: copy", "copy")
        k.set(t)
        o.eq((enc(k), enc(x.get_attr(2))), (before, before), f"{what}: copy set to {t}", "copy")


@unit("registers", 4)
def registers(ctx):
    def one(case, o):
        key, i, su, order = case
        x = add("1.0.1.8.0.255", *key)
        for a in order:
            x.set_attr(2, VALS[i]) if a == "v" else x.set_attr(3, su_enc(su))
        show_register(x, RAW[i], su, o, f"{RAW[i]} {su} read as {order}")
    cases = [(k, i, (p, u), od) for k in ((3, 0), (4, 0)) for i in range(len(VALS)) for p in ctx.pick((-6, -3, -1, 0, 1, 3, 5), range(-9, 10)) for u in ctx.pick((1, 27, 30, 33, 35, 255), range(1, 256)) for od in ("vs", "sv", "svv", "vsv")]
    ctx.all("value and scaler", cases, one)
    ctx.bound("registers and extended registers: 7 values x scalers -6..5 (thorough -9..9) x 6 units (thorough all 255) x the two orders of reading, read again")


@unit("register histories", 3)
def histories(ctx):
    class S(Reg):
        def invariant(self, s):
            x, i, k = s
            rep_ = outcome(x.get_report)
            if i is None and k is None:
                if rep_[0] != "ok" or "?" not in rep_[1]:
                    raise Mismatch(f"register without values reports {rep_[1]!r}", "empty")
            elif i is None:
                if x.value is not None:
                    raise Mismatch(f"value {x.value}, it was cleared", "cleared")
            elif k is None and x.value.SCALER_UNIT is not None:
                pass                # whether a cleared scaler_unit is forgotten at once is not stated
            else:
                t, u = shown(RAW[i], None if k is None else self.sus[k])
                got = (str(x.value), x.value.report)
                if got != (t, t if u is None else f"{t} {u}"):
                    raise Mismatch(f"register shows {got}, it holds {RAW[i]} with {None if k is None else self.sus[k]}", "shown")
                if k is None and rep_ != ("ok", f"{x} {t}"):
                    raise Mismatch(f"report {rep_[1]!r} of {t} without unit", "register")
                if rep_[0] != "ok" or t not in rep_[1] or (u or "") not in rep_[1]:
                    raise Mismatch(f"report {rep_[1]!r} of {t} {u}", "register")
    for key in ((3, 0), (4, 0)):
        ctx.bfs(f"{key[0]}", S(key, ((-2, 30), (0, 255), (3, 33), (1, 30))), ctx.pick(4, 6))

    def assign(case, o):
        """a value takes a scaler and unit once, the same again, another only after none"""
        v, a, b = case
        x = VALUES33[v](RAW33[v])
        x.SCALER_UNIT = cdt.ScalUnitType(su_enc(a))
        st_, _ = outcome(setattr, x, "SCALER_UNIT", cdt.ScalUnitType(su_enc(b)))
        o.eq((st_, enc(x.SCALER_UNIT)), ("ok" if a == b else "err", su_enc(a)), f"{b} given to a value with {a}", "assign")
        x.SCALER_UNIT = None
        x.SCALER_UNIT = cdt.ScalUnitType(su_enc(b))
        o.eq((enc(x.SCALER_UNIT), str(x)), (su_enc(b), shown(RAW[v], b)[0]), f"{b} given after none", "assign")
    VALUES33 = [cdt.LongUnsigned, cdt.DoubleLong, cdt.Unsigned]
    RAW33 = [b"\x12" + (12345).to_bytes(2, "big"), b"\x05" + (-70005).to_bytes(4, "big", signed=True), b"\x11\0"]
    S2 = [(p, u) for p in (-2, 0, 1) for u in (27, 30, 255)]
    ctx.all("assigned", [(v, a, b) for v in range(3) for a in S2 for b in S2], assign)


# ---- events ------------------------------------------------------------------------------------------------------
EVENTS = {0: "VOLTAGE", 1: "CURRENT", 2: "COMMUTATION", 3: "PROGRAMING", 4: "EXTERNAL_IMPACT", 5: "COMMUNICATION", 6: "ACCESS", 7: "SELF_DIAGNOSTIC", 8: "REACTIVE_POWER"}


def table(prefix):
    out = {}
    for k, v in vars(rn).items():
        m = re.fullmatch(prefix + "_(0x[0-9a-f]+|[0-9]+)", k)
        if m:
            out[int(m[1], 16 if prefix.startswith("POWER_QUALITY") else 10)] = v
    return out


@unit("events", 4)
def events(ctx):
    mets = {"SPODES_3": meter("SPODES_3"), "KPZ1": meter("KPZ1")}

    def one(case, o):
        spec, k, lo, hi = case
        x = mets[spec].get(bytes((0, 0, 96, 11, k, 255))) or add(f"0.0.96.11.{k}.255", 1, 0, mets[spec])
        t = table(EVENTS[k])
        x.clear_attr(2)
        for n in range(lo, hi):
            x.set_attr(2, r.u16(n) if spec == "SPODES_3" else r.u32(n))
            for how, g in (("report", x.value.report), ("get_report", x.value.get_report())):
                o.ok(g.endswith(f"({n})"), f"{how} of event {n} of journal {k} is {g!r}, without its number", "number")
                if n in t:
                    o.eq(g, f"{t[n]}({n})", f"{how} of event {n} of journal {k}", "text")
                else:
                    o.ok(g[:-len(f"({n})")] not in t.values(), f"{how} of event {n} of journal {k} is {g!r}, the journal has no such event", "unknown")
    step = 256
    top = ctx.pick(2048, 65536)
    ctx.all("codes", [(s, k, a, a + step) for s in mets for k in EVENTS for a in range(0, top, step)] + [("SPODES_3", k, 65280, 65536) for k in EVENTS], one)
    ctx.bound("nine journals in both tables of event objects: every code below 2048 (thorough 65536)")


@unit("flags")
def flags(ctx):
    c = meter("SPODES_3")

    def one(case, o):
        ln, prefix, lo = case
        x = c.get(bytes(int(i) for i in ln.split("."))) or add(ln, 1, 0, c)
        t = table(prefix)
        for n in range(lo, lo + 256):
            x.set_attr(2, r.u16(n))
            g = x.value.report
            o.ok(g.endswith(f"({n})"), f"status {n:#x} of {ln} is {g!r}, without its number", "number")
            parts = g[:-len(f"({n})")].split(". ") if g != f"({n})" else []
            o.eq(len(parts), bin(n).count("1"), f"conditions in the text {g!r} of status {n:#06x}", "count")
            o.eq(sorted(p for p in parts if p in t.values()), sorted(v for b, v in t.items() if n & b), f"conditions of status {n:#06x} in {g!r}", "text")
    ctx.all("status", [(ln, p, a) for ln, p in (("0.0.96.5.1.255", "POWER_QUALITY1"), ("0.0.96.5.4.255", "POWER_QUALITY2")) for a in range(0, 65536, ctx.pick(1280, 256))] +
            [(ln, p, a) for ln, p in (("0.0.96.5.1.255", "POWER_QUALITY1"), ("0.0.96.5.4.255", "POWER_QUALITY2")) for a in (0, 256, 0x4000, 0x8000, 0xff00)], one)
    ctx.bound("both network quality words: every fifth block of 256 values (thorough all 65536)")


# ---- states ------------------------------------------------------------------------------------------------------
@unit("states")
def states(ctx):
    c = meter("SPODES_3")

    def seal(n, o):
        x = c.get(bytes((0, 0, 96, 51, 5, 255))) or add("0.0.96.51.5.255", 1, 0, c)
        x.set_attr(2, r.u8(n))
        names = [MSG[k] for k in ("undefined", "contentions", "breaked_open", "subsequent_autopsy")]
        g = x.value.report
        cover, _, term = g.partition(MSG["for_terminals_cover"])
        o.ok(MSG["for_cover"] in cover and MSG["electronic_seals"] in cover, f"report {g!r} of seals {n}", "seal")
        head = cover.partition(MSG["for_cover"])[2]
        o.eq(([s for s in names if s in head], [s for s in names if s in term]), ([names[n & 3]], [names[n >> 2 & 3]]), f"seals {n:#04x} in {g!r}", "seal")
    ctx.all("seals", range(256), seal)

    def signal(n, o):
        x = add("0.0.25.6.0.255", 47)
        x.set_attr(6, r.st(r.u16(1), r.u16(2), r.u8(n), r.u8(0)))
        q = x.cell_info.signal_quality
        g = (q.report, q.get_report())
        o.eq(g[0], g[1], "report and get_report", "signal")
        g = g[0]
        nums = re.findall("[-–][0-9]+", g)
        if n <= 31:
            o.eq([int(s.replace("–", "-")) for s in nums], [-113 + 2 * n], f"signal {n} in {g!r}", "signal")
            o.ok("dBm" in g and f"({n})" in g, f"signal {n} is {g!r}", "signal")
            o.eq((MSG["less"] in g, MSG["greater"] in g), (n == 0, n == 31), f"bounds of signal {n} in {g!r}", "signal")
        else:
            o.eq(("dBm" in g, MSG["not_known_or_not_detectable"] in g), (False, n == 99), f"signal {n}: {g!r}", "signal")
    ctx.all("signal", range(256), signal)

    def channel(n, o):
        x = c.get(bytes((0, 0, 96, 12, 4, 255))) or add("0.0.96.12.4.255", 1, 0, c)
        x.set_attr(2, r.u8(n))
        v = x.value
        o.eq((int(v.channel), int(v.interface)), (n & 7, n >> 3), f"channel and interface of {n:#04x}", "channel")
        for g in (v.report, str(v)):
            o.ok(v.channel.name in g and v.interface.name in g, f"{n:#04x} shown as {g!r}", "channel")
        for k in range(8):
            x.set_attr(2, r.u8(n))
            x.value.channel = enu.ChannelNumber(k)
            o.eq(enc(x.value), r.u8(n & 0xf8 | k), f"{n:#04x} with channel {k}", "set-channel")
        for k in range(32):
            x.set_attr(2, r.u8(n))
            x.value.interface = enu.Interface(k)
            o.eq(enc(x.value), r.u8(n & 7 | k << 3), f"{n:#04x} with interface {k}", "set-interface")
    ctx.all("channel", range(256), channel)
    ctx.bound("all 256 seal states, signal qualities and port numbers; every channel and interface set on every one of them")


# ---- object reports ----------------------------------------------------------------------------------------------
def lines(text):
    return [s.strip() for s in text.split("\n") if s.strip()]


PAT = CFG["report"]["struct"]


def leaf_lines(name, v):
    if isinstance(v, cdt.Array):
        out = [f"[{name}]"]
        for el in v:
            out += leaf_lines("*", el)
        return out
    if isinstance(v, cdt.Structure):
        p = PAT.get(type(v).__name__)
        if p:
            return [re.sub("%([nv])([0-9][0-9])", lambda m: type(v).ELEMENTS[int(m[2])].NAME if m[1] == "n" else str(v[int(m[2])]), p)]
        out = [f"[{name}]"] if name else []
        for el, x in zip(v.ELEMENTS, v):
            out += leaf_lines(el.NAME, x)
        return out
    return [f"{name}: {v}"]


@unit("object reports", 2)
def object_reports(ctx):
    keys = [k for k in r.CLASSES if k != (40, 2)]

    def one(case, o):
        key, i, e = case
        x = add(r.CLASSES[key][0], *key)
        st, _ = outcome(x.set_attr, i, e)
        if st != "ok":
            return
        v = x.get_attr(i)
        if v is None:
            return
        got = lines(rep.get_obj_report(x, (i,)))
        o.eq(got[0], f"[{col.get_name(x.logical_name)}]", "heading", "heading")
        el = str(x.get_attr_element(i))
        if isinstance(v, cdt.ComplexDataType):
            o.eq(got[1], f"[{el}]", "attribute", "attribute")
            leaves, names, deep = [], [], []

            def walk(w, name, depth):
                if isinstance(w, cdt.Structure) and PAT.get(type(w).__name__):
                    leaves.append(leaf_lines("", w)[0])
                    names.append(None)
                    deep.append(depth)
                elif isinstance(w, cdt.ComplexDataType):
                    for k, y in enumerate(w):
                        walk(y, type(w).ELEMENTS[k].NAME if isinstance(w, cdt.Structure) else None, depth + 1)
                else:
                    leaves.append(str(w))
                    names.append(name)
                    deep.append(depth)
            for w in v:
                walk(w, None, 0)
            raw = [s for s in rep.get_obj_report(x, (i,)).replace(": \n", ": <>\n").split("\n") if s.strip()][2:]
            raw = [s for s in raw if not (s.strip().startswith("[") and s.strip().endswith("]"))]
            if len(raw) == len(leaves):
                for s, nm in zip(raw, names):
                    if nm is not None:
                        o.ok(s.strip().startswith(f"{nm}:"), f"line {s!r} of element {nm!r}", "element")
                ind = [len(s) - len(s.lstrip()) for s in raw]
                o.eq([(a > b) - (a < b) for a, b in zip(ind, ind[1:])], [(a > b) - (a < b) for a, b in zip(deep, deep[1:])], f"indents {ind} of elements {deep} deep", "indent")
            rest = [s for s in lines(rep.get_obj_report(x, (i,)).replace(": \n", ": <>\n"))[2:] if not (s.startswith("[") and s.endswith("]"))]
            o.eq(len(rest), len(leaves), f"values of attribute {i} in {rest}", "leaves")
            for s, t in zip(rest, leaves):
                t = t.strip() or "<>"
                o.ok(s == t or s.endswith(f": {t}"), f"line {s!r} for the value {t!r}", "leaf")
        else:
            t = v.report if hasattr(v, "report") else str(v)
            o.ok(len(got) == 2 and got[1].startswith(f"{el}:") and (got[1].endswith(t.strip()) or key == (1, 0)), f"attribute {i} shown as {got[1:]}, its value {t!r}", "simple")
        o.eq(enc(x.get_attr(i)), e if e is not None else enc(x.get_attr(i)), "value after the report", "changed")
    ctx.all("each attribute", [(k, i, e) for k in keys for i, (n, s) in enumerate(r.CLASSES[k][1], 2) for e in s or ()], one)
    # every structure inside each other: profiles, lists and tables of the meter have up to four levels
    class In(cdt.Structure):
        a: cdt.Unsigned
        b: cdt.OctetString

    class Ar(cdt.Array):
        TYPE = In

    class Mid(cdt.Structure):
        c: cdt.Long
        d: In
        e: Ar
        f: cdt.Boolean

    class Out(cdt.Array):
        TYPE = Mid

    class Top(cdt.Structure):
        g: cdt.Unsigned
        h: Out
        i: Mid
        j: cdt.Unsigned

    class Deep(cdt.Array):
        TYPE = Top

    class PatternIn(cdt.Structure):
        p: cdt.Unsigned
        q: cdt.OctetString

    class PatternWide(cdt.Structure):
        ELEMENTS = tuple(cdt.StructElement(NAME=f"w{k}", TYPE=(cdt.Unsigned, cdt.Long, cdt.Boolean)[k % 3]) for k in range(13))

    class PArray(cdt.Array):
        TYPE = PatternIn

    class Mixed(cdt.Structure):
        a1: cdt.Unsigned
        a2: PatternIn
        a3: cdt.Long
        a4: PArray
        a5: PatternWide
        a6: cdt.Boolean
        a7: In

    class Mixeds(cdt.Array):
        TYPE = Mixed

    def pin(n):
        return r.st(r.u8(n), r.os(b"xy"))

    def wide(n):
        return r.st(*[(r.u8(n + k), r.i16(k - n), b"\3\1")[k % 3] for k in range(13)])

    def mixed(n, k):
        return r.st(r.u8(n), pin(n), r.i16(n), r.ar(*[pin(j) for j in range(k)]), wide(n), b"\3\0", inner(n))

    def inner(n):
        return r.st(r.u8(n), r.os(b"ab"))

    def mid(n, k):
        return r.st(r.i16(-n), inner(n), r.ar(*[inner(j) for j in range(k)]), b"\x03\x01")

    def nested(case, o):
        T, e = case
        x = add("0.0.96.1.0.255", 1)
        x.set_attr_force(2, T(e))
        text = rep.get_obj_report(x, (2,))
        rows = []

        def walk(w, name, depth):
            for k, y in enumerate(w):
                n = (type(w).ELEMENTS[k].NAME if depth else None) if isinstance(w, cdt.Structure) else "*"
                if type(y).__name__ in PAT:
                    rows.append((depth, leaf_lines("", y)[0], "pattern"))
                elif isinstance(y, cdt.ComplexDataType):
                    rows.append((depth, f"[{n}]", n))
                    walk(y, n, depth + 1)
                else:
                    rows.append((depth, f"{n}: {y}", n))
        walk(x.get_attr(2), "", 0)
        got = [(len(s) - len(s.lstrip()), s.strip()) for s in text.split("\n") if s.strip()][2:]
        want = [(d, t, n) for d, t, n in rows if n is not None and not (n == "*" and d == 0 and t.startswith("["))]
        got = [(i, s) for i, s in got if s not in ("[]", "[*]")]
        want = [(d, t) for d, t, n in want if t != "[*]"]
        got = [(i, s) for i, s in got if not (s.startswith(":") or s.startswith("[:"))]
        o.eq([s for _, s in got], [t for _, t in want], "lines of nested values", "nested")
        o.eq([(a > b) - (a < b) for (a, _), (b, _) in zip(got, got[1:])], [(a > b) - (a < b) for (a, _), (b, _) in zip(want, want[1:])], f"indents {got}", "indent")
    top = lambda n, k: r.st(r.u8(n), r.ar(*[mid(n, k) for n in range(1, n + 1)]), mid(n, k), r.u8(k))
    for m in range(4):
        ctx.all(f"nested {m}", [(Out, r.ar(*[mid(n, k) for n in range(1, m + 1)])) for k in range(4)] + [(Deep, r.ar(*[top(n, k) for n in range(m)])) for k in range(3)] +
                [(T, r.ar(*[f(n, k) for n in range(m)])) for T, f in ((Mixeds, mixed), (PArray, lambda n, k: pin(n))) for k in range(3)], nested)
    # long arrays: the elements of a sample over and over, in the attribute or in its elements
    def long(tree, depth):
        g, x = tree
        if g in (1, 2):
            x = tuple(long(y, depth - (g == 1)) for y in x)
            if g == 1 and x and depth == 0:
                x = (x * 40)[:40]
        return g, x
    ctx.all("long arrays", [(k, i, w) for k in keys for i, (n, s) in enumerate(r.CLASSES[k][1], 2) for e in s or () for d in (0, 1, 2) for w in (ref.wire(long(ref.parse(e)[0], d)),) if w != e], one)

    def several(case, o):
        key, idx = case
        x = add(r.CLASSES[key][0], *key)
        for i, (n, s) in enumerate(r.CLASSES[key][1], 2):
            if s and x.get_attr(i) is None:
                outcome(x.set_attr, i, s[-1])
        whole = rep.get_obj_report(x, idx)
        head = lines(whole)[0]
        parts = [lines(rep.get_obj_report(x, (i,)))[1:] for i in idx]
        o.eq(lines(whole), [head] + [s for p in parts for s in p], f"report of attributes {idx}", "several")
        o.eq(lines(rep.get_obj_report(x, tuple((i,) for i in idx))), lines(whole), "attributes given with parameters", "several")
        o.eq(lines(rep.get_obj_report(x, tuple((i, 1, 2) for i in idx))), lines(whole), "attributes given with parameters", "several")
    ctx.all("several attributes", [(k, p) for k in keys for n in (0, 1, 2, 3) for p in itertools.permutations(range(1, min(len(r.CLASSES[k][1]) + 1, 5) + 1), n)], several)
    ctx.bound("every attribute of every class with its sample values, the arrays in them also with 40 elements; all ordered selections of up to 3 of the first five attributes")

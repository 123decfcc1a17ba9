"""P30: profiles - rows of the buffer have exactly the columns captured and selected, for all histories of capture lists,
selections, buffer contents and types of the captured values; columns of every attribute of every class; scalers."""
import itertools
import struct
import env
import ref26
from ref26 import u8, i8, u16, u32, os, vs, st, ar, ln, en, dt12, dt12b, SU, SU2, REGISTER
from explorer import unit, outcome, rejects, Mismatch, _Silent as Quiet

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
exc = env.mod("exceptions")

CLOCK, REG, NEW, GSM, OTHER = "0.0.1.0.0.255", "1.0.1.8.0.255", "1.0.3.8.0.255", "0.0.25.6.0.255", "0.0.99.98.0.255"
PROFILE = "0.0.99.13.0.255"
REG2 = "1.0.2.8.0.255"
DEF = {"C": (8, CLOCK, 2, 0), "R": (3, REG, 2, 0), "S": (3, REG, 3, 0), "S1": (3, REG, 3, 1), "S2": (3, REG, 3, 2), "G": (47, GSM, 6, 3), "N": (3, NEW, 2, 0), "P": (7, OTHER, 2, 1), "C3": (8, CLOCK, 3, 0),
       "class": (200, "0.0.96.50.0.255", 2, 0), "index": (3, REG, 3, 9), "attr": (3, REG, 9, 0), "Q": (3, REG2, 2, 0)}
i16 = ref26.i16
GOOD = {"C": [dt12, dt12b], "R": [u32(5), os(b"ab")], "S": [SU, SU2], "S1": [i8(-3)], "S2": [en(30)], "G": [u8(7)], "N": [u16(1)], "P": [dt12b], "C3": [i16(-60)], "Q": [u32(9)]}
BAD = {"C": [os(b"abc"), u32(5)], "R": [ar(), u16(1)[:2]], "S": [st(i8(1)), u8(1)], "S1": [u8(3), en(1)], "S2": [u8(30)], "G": [u16(7)], "N": [st()], "P": [u8(1)], "C3": [u16(60)], "Q": [st()]}


def cap(*keys):
    return ar(*[st(u16(c), ln(n), i8(a), u16(d)) for c, n, a, d in (DEF[k] for k in keys)])


def add(c, cid, v, n):
    return c.add(ut.CosemClassId(cid), cdt.Unsigned(v), cst.LogicalName(n))


def sort_of(k):
    c, n, a, d = DEF[k]
    return st(u16(c), ln(n), i8(a), u16(d))


def world():
    c = col.Collection()
    s = type("S", (), {})()
    s.c = c
    s.clock = add(c, 8, 0, CLOCK)
    s.reg = add(c, 3, 0, REG)
    s.reg2 = add(c, 3, 0, REG2)
    s.gsm = add(c, 47, 0, GSM)
    s.p = add(c, 7, 1, PROFILE)
    s.other = add(c, 7, 1, OTHER)
    s.other.set_attr(6, sort_of("C"))
    s.other.set_attr(3, cap("C", "R"))
    return s


SELECT = {"all": ("entry", 1, 0), "first": ("entry", 1, 1), "second": ("entry", 2, 2), "from second": ("entry", 2, 0), "none": ("range",), "range R": ("range", "R"), "range RC": ("range", "R", "C")}


def select(s, sel):
    """the selection parameters, made through the types the profile offers; returns their encoding"""
    sa = s.p.buffer.selective_access
    T = type(sa).ELEMENTS[1].TYPE.ELEMENTS
    if sel[0] == "entry":
        e = st(u32(1), u32(0), u16(sel[1]), u16(sel[2]))
        s.p.buffer.selective_access = type(sa)(type(sa.access_selector)(2), T[2].TYPE(e))
        return b"\x02" + e
    so = DEF[s.sort]
    value = GOOD[s.sort][0]
    e = st(st(u16(so[0]), ln(so[1]), i8(so[2]), u16(so[3])), value, value, cap(*sel[1:]))
    s.p.buffer.selective_access = type(sa)(type(sa.access_selector)(1), T[1].TYPE(e))
    return b"\x01" + e


def columns(s):
    if s.sel[0] == "entry":
        return s.caps[s.sel[1] - 1:s.sel[2] or None]
    return s.sel[1:] or s.caps


def good(s, k):
    return [u32(7)] if k == "R" and s.typed else GOOD[k]


def bad(s, k):
    return [u16(7)] if k == "R" and s.typed else BAD[k]


class Histories:
    def fresh(self):
        s = world()
        s.sort = s.caps = None
        s.sel, s.sel_enc = ("entry", 1, 0), b"\x02" + st(u32(1), u32(0), u16(1), u16(0))
        s.rows = b"\x01\x00"
        s.typed = False
        s.cols = None
        return s

    def ops(self, s):
        if s.sort is None:
            yield ("sort", "C")
            yield ("sort", "R")
            yield ("sort missing",)
        for k in ("C R", "R S1 G", "N", "C S2 P C3", "", "class", "R index", "C attr"):
            yield ("capture", *k.split())
        if not s.typed:
            yield ("type",)
        if s.sort:
            for k in SELECT:
                yield ("select", k)
        for k in ("", "0", "1", "0 1", "short", "long", "cut", "tag", "rest"):
            yield ("buffer", *k.split())
        if s.caps is not None:
            for i in range(len(columns(s))):
                yield ("buffer", "bad", i)

    def apply(self, s, op, o):
        k, p = op[0], s.p
        if k == "sort":
            p.set_attr(6, sort_of(op[1]))
            s.sort = op[1]
        elif k == "sort missing":
            rejects(o, lambda: p.set_attr(6, st(u16(3), ln("1.0.9.9.9.255"), i8(2), u16(0))), (Exception,), f"{op}", "sort missing")
        elif k == "type":
            s.reg.set_attr(2, u32(1))
            s.typed = True
        elif k == "select":
            s.sel = SELECT[op[1]]
            s.sel_enc = select(s, s.sel)
        elif k == "capture":
            names = op[1:]
            if s.sort is None or set(names) & {"class", "index", "attr"}:
                rejects(o, lambda: p.set_attr(3, cap(*names)), (Exception,), f"{op}", "capture refused")
            else:
                p.set_attr(3, cap(*names))
                s.caps, s.rows = names, b"\x01\x00"
                s.cols = columns(s)
        elif k == "buffer":
            if s.caps is None:
                rejects(o, lambda: p.set_attr(2, b"\x01\x00"), (Exception,), f"{op} before the capture objects", "no columns")
                return
            cols = columns(s)
            row = lambda i: st(*[good(s, c)[i % len(good(s, c))] for c in cols])
            kind = op[1:]
            enc = ok = None
            if kind and kind[0] == "bad":
                r = [good(s, c)[0] for c in cols]
                enc, ok = [ar(row(0), st(*(r[:kind[1]] + [b] + r[kind[1] + 1:]))) for b in bad(s, cols[kind[1]])], False
            elif kind and not kind[0].isdigit():
                r = [good(s, c)[0] for c in cols]
                enc = {"short": [ar(st(*r[:-1]))] if r else [], "long": [ar(st(*r, u8(1)))], "cut": [ar(row(0))[:-1]], "tag": [b"\x02" + ar(row(0))[1:]], "rest": [b"\x01\x02" + row(0)]}[kind[0]]
                ok = False
            else:
                enc, ok = [ar(*[row(int(i)) for i in kind])], True
            for e in enc:
                if ok:
                    p.set_attr(2, e)
                    s.rows, s.cols = e, cols
                else:
                    rejects(o, lambda: p.set_attr(2, e), (Exception,), f"{op} as {e.hex()} for columns {cols}", "row refused")
                    o.eq(p.buffer.encoding, s.rows, f"{op}: the buffer after a refusal", "buffer kept")
                    s.cols = None

    def canon(self, s):
        return (s.sort, s.caps, s.sel, s.rows, s.typed, s.cols, tuple((bytes(x.logical_name.contents), x.CLASS_ID.contents) for x in s.c))

    def invariant(self, s):
        p, o = s.p, Quiet()
        o.eq(p.buffer.encoding, s.rows, "buffer", "buffer")
        o.eq(None if p.sort_object is None else p.sort_object.encoding, sort_of(s.sort) if s.sort else None, "sort object", "sort object")
        o.eq(None if p.capture_objects is None else p.capture_objects.encoding, None if s.caps is None else cap(*s.caps), "capture objects", "capture objects")
        if s.caps is not None:
            for key in s.caps:
                o.ok(s.c.get(bytes(map(int, DEF[key][1].split(".")))) is not None, f"{key} is not in the collection", "added")
            o.eq(p.get_capture_object_names(), [col.get_name(cst.LogicalName(DEF[k][1])) for k in s.caps], "names", "names")
        if s.cols is not None:
            o.eq([bytes(x.logical_name.contents) for x in p.get_buffer_objects()], [bytes(map(int, DEF[k][1].split("."))) for k in s.cols], "objects of the buffer", "buffer objects")
        if s.sort:
            d = p.get_attr_descriptor(2, with_selection=True)
            o.eq(d.contents, b"\x00\x07" + bytes(map(int, PROFILE.split("."))) + b"\x02" + s.sel_enc, "descriptor with selection", "descriptor")
        o.eq(p.get_attr_descriptor(2).contents, b"\x00\x07" + bytes(map(int, PROFILE.split("."))) + b"\x02", "descriptor", "descriptor")


@unit("histories", shards=8)
def histories(ctx):
    ctx.bfs("histories", Histories(), ctx.pick(4, 6))
    ctx.bound(f"all histories of up to {ctx.pick(4, 6)} of about 30 operations on a profile")


# ------------------------------------------------------------------ every attribute as a column
FOREIGN = [b"\x00", u8(1), u16(1), u32(1), os(b"abc"), vs(b"abc"), ar(), st(), en(250), i8(1), b"\x03\x01", b"\x04\x00"]


def samples():
    for (cid, v), (name, attrs, _) in ref26.CLASSES.items():
        for i, (n, values) in enumerate(attrs, 2):
            if values and (cid, v) not in ((7, 1),):
                yield cid, v, name, i, n, values


def parts(e):
    """the encodings of the elements of a structure"""
    def skip(b, k):
        t = b[k]
        if t in (1, 2):
            n, k = b[k + 1], k + 2
            for _ in range(n):
                k = skip(b, k)
            return k
        if t in (9, 10, 12):
            return k + 2 + b[k + 1]
        if t == 4:
            return k + 2 + (b[k + 1] + 7) // 8
        return k + 1 + {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}[t]
    out, k = [], 2
    for _ in range(e[1]):
        j = skip(e, k)
        out.append(e[k:j])
        k = j
    return out


def single(case, o):
    cid, v, name, i, _, values = case
    s = world()
    x = add(s.c, cid, v, name)
    s.p.set_attr(6, sort_of("C"))
    cols = [(0, values)]
    structs = all(e[0] == 2 for e in values)
    simple = len({e[0] for e in values}) == 1
    if structs and x.get_attr_data_type(i).__class__ is not ut.CHOICE and isinstance(x.get_attr_data_type(i), type) and (cid, i) not in ((21, 2), (71, 3), (1, 2)):
        cols += [(k + 1, list(p)) for k, p in enumerate(zip(*map(parts, values)))]
    for d, vals in cols:
        s.p.set_attr(3, ar(st(u16(8), ln(CLOCK), i8(2), u16(0)), st(u16(cid), ln(name), i8(i), u16(d))))
        for e in vals:
            row = ar(st(dt12, e))
            st_, r = outcome(s.p.set_attr, 2, row)
            o.ok(st_ == "ok", f"{case[:5]} part {d}: row with {e.hex()} refused: {r!r}", "column")
            o.eq(s.p.buffer.encoding, row, f"{case[:5]} part {d}", "column")
            o.eq(s.p.buffer[0][1].encoding, e, f"{case[:5]} part {d}", "column")
        if len({e[0] for e in vals}) == 1 and vals[0][0] not in (1, 2):
            for e in FOREIGN:
                if e[0] != vals[0][0] and e[0]:
                    rejects(o, lambda: s.p.set_attr(2, ar(st(dt12, e))), (Exception,), f"{case[:5]} part {d}: row with {e.hex()}", "column type")
        got = s.c.get_name_and_type(s.p.capture_objects[1])
        want = [col.get_name(cst.LogicalName(name)), str(x.get_attr_element(i))] + ([x.get_attr_data_type(i).ELEMENTS[d - 1].NAME] if d else [])
        o.eq(list(got[0]), want, f"{case[:5]} part {d}: names", "names")
        o.eq([e.NAME for e in s.p.buffer.TYPE.ELEMENTS], [col.get_name(cst.LogicalName(CLOCK)) + ". " + str(s.clock.get_attr_element(2)), ". ".join(want)], f"{case[:5]} part {d}: names of columns", "column names")
    o.eq(s.p.get_capture_object_names()[1], col.get_name(cst.LogicalName(name)), f"{case[:5]}", "names")
    if structs and len(cols) > 1:
        rejects(o, lambda: s.p.set_attr(3, ar(st(u16(cid), ln(name), i8(i), u16(len(cols))))), (Exception,), f"{case[:5]} part {len(cols)}", "part")
    for j in (len(ref26.CLASSES[cid, v][1]) + 2, 100):
        rejects(o, lambda: s.p.set_attr(3, ar(st(u16(cid), ln(name), i8(j), u16(0)))), (Exception,), f"{case[:5]} attribute {j}", "attribute")


@unit("columns", shards=4)
def columns_(ctx):
    ctx.all("attributes", list(samples()), single)
    ctx.bound("every attribute of 36 class versions and every part of its structures as a column")

    def nested(case, o):
        """columns taken from the buffer of another profile"""
        objs, k = case
        s = world()
        s.other.set_attr(3, cap(*objs))
        s.p.set_attr(6, sort_of("C"))
        f = lambda: s.p.set_attr(3, ar(st(u16(7), ln(OTHER), i8(2), u16(k))))
        if k > len(objs):
            rejects(o, f, (Exception,), f"{case}", "nested")
            return
        f()
        for key in objs:
            for e in GOOD[key]:
                row = ar(st(e))
                if e in GOOD[objs[k - 1]]:
                    s.p.set_attr(2, row)
                    o.eq(s.p.buffer.encoding, row, f"{case} {key}", "nested")
    ctx.all("nested", [(p, k) for r in (1, 2, 3) for p in itertools.permutations(("C", "R", "S1", "G", "N"), r) for k in range(1, r + 2)], nested)


@unit("readout")
def readout(ctx):
    def one(case, o):
        c = col.Collection()
        c.set_manufacturer(b"KPZ")
        c.set_spec()
        add(c, 3, 0, REG)
        add(c, 8, 0, CLOCK)
        p = add(c, 7, 1, "0.0.21.0.1.255")
        for lst in case:
            p.set_attr(3, cap(*lst))
            o.eq(p.capture_objects.encoding, cap(*lst), f"{case}", "readout objects")
            for k in lst:
                o.ok(c.get(bytes(map(int, DEF[k][1].split(".")))) is not None, f"{case}: {k} is not in the collection", "readout added")
            o.eq([bytes(x.logical_name.contents) for x in p.get_buffer_objects()], [bytes(map(int, DEF[k][1].split("."))) for k in lst], f"{case}", "readout buffer objects")
            for bits in itertools.product((0, 1), repeat=len(lst)):
                row = ar(st(*[bytes([3, b]) for b in bits]))
                p.set_attr(2, row)
                o.eq(p.buffer.encoding, row, f"{case} {bits}", "readout row")
            for wrong in (ar(st(*[b"\x03\x01"] * (len(lst) + 1))), ar(st(*[u8(1)] * max(1, len(lst))))):
                rejects(o, lambda: p.set_attr(2, wrong), (Exception,), f"{case} row {wrong.hex()}", "readout wrong row")
                o.eq(p.buffer.encoding, row, f"{case} after a refusal", "readout kept")
    lists = [(), ("C",), ("R", "N"), ("N", "C", "R")]
    ctx.all("lists", [p for r in (1, 2) for p in itertools.product(lists, repeat=r)], one)


# ------------------------------------------------------------------ scalers of the columns
@unit("scalers", shards=2)
def scalers(ctx):
    objs = ("C", "R", "Q", "S")
    UNITS = {"R": [None, SU, SU2], "Q": [None, SU2]}

    def show(x):
        return None if x is None else x.encoding

    def direct(case, o):
        lst, sel, ru, qu = case
        s = world()
        s.sort = "C"
        for x, u in ((s.reg, ru), (s.reg2, qu)):
            if u:
                x.set_attr(3, u)
        s.p.set_attr(6, sort_of("C"))
        s.p.set_attr(3, cap(*lst))
        s.caps = lst
        s.sel = sel
        select(s, sel)
        s.p.set_attr(2, ar(st(*[GOOD[k][0] for k in columns(s)])))
        o.eq([show(x) for x in s.p.get_scaler_units_profile()], [{"R": ru, "Q": qu}.get(k) for k in columns(s)], f"{case}", "scaler")
    lists = [p for r in (1, 2, 3) for p in itertools.permutations(objs, r)]
    sels = [("entry", 1, 0), ("entry", 1, 1), ("entry", 2, 0), ("entry", 2, 2), ("range",), ("range", "R"), ("range", "Q", "R"), ("range", "R", "Q")]
    ctx.all("direct", [(lst, sel, ru, qu) for lst in lists for sel in sels if sel[0] == "entry" or set(sel[1:]) <= set(lst) for ru in UNITS["R"] for qu in UNITS["Q"]], direct)

    def through(case, o):
        """the current profile of the national standard takes scalers from its scaler profile"""
        lst, sel, units = case
        c = col.Collection()
        c.set_manufacturer(b"KPZ")
        c.set_spec()
        s = type("S", (), {})()
        s.c = c
        add(c, 8, 0, CLOCK)
        add(c, 3, 0, REG)
        add(c, 3, 0, REG2)
        s.p = add(c, 7, 1, "1.0.94.7.0.255")
        scale = add(c, 7, 1, "1.0.94.7.3.255")
        scale.set_attr(6, sort_of("C"))
        scale.set_attr(3, ar(*[sort_of("C") if k == "S" else st(u16(3), ln(DEF[k][1]), i8(3), u16(0)) for k in lst]))
        s.p.set_attr(6, sort_of("C"))
        s.p.set_attr(3, cap(*lst))
        s.caps, s.sort, s.sel = lst, "C", sel
        rejects(o, s.p.get_scaler_units_profile, (Exception,), f"{case} without scaler buffer", "scaler missing")
        scale.set_attr(2, ar(st(*[units.get(k, dt12) for k in lst])))
        select(s, sel)
        s.p.set_attr(2, ar(st(*[GOOD[k][0] for k in columns(s)])))
        o.eq([show(x) for x in s.p.get_scaler_units_profile()], [units.get(k) for k in columns(s)], f"{case}", "scaler profile")
    ctx.all("through", [(lst, sel, u) for r in (1, 2, 3) for lst in itertools.permutations(("R", "Q", "S"), r) for sel in sels if sel[0] == "entry" and sel[1] <= len(lst) or sel[0] == "range" and set(sel[1:]) <= set(lst)
                        for u in ({"R": SU, "Q": SU2}, {"R": SU2, "Q": SU})], through)
    ctx.bound(f"{len(lists)} lists of columns (two attributes of one object among them) x {len(sels)} selections x scalers present or absent")


# ------------------------------------------------------------------ every attribute as the sort object, long lists of columns
@unit("sorting", shards=2)
def sorting(ctx):
    def body(case, o):
        cid, v, name, i, _, values, filled = case
        s = world()
        x = add(s.c, cid, v, name)
        choice = not isinstance(x.get_attr_data_type(i), type)
        if filled:
            if x.get_attr(i) is not None:
                x.clear_attr(i)
            x.set_attr(i, values[0])
            values = [e for e in values if e[0] == values[0][0]]
        so = st(u16(cid), ln(name), i8(i), u16(0))
        s.p.set_attr(6, so)
        o.eq(s.p.get_attr_descriptor(2, with_selection=True).contents[9:], b"\x02" + st(u32(1), u32(0), u16(1), u16(0)), f"{case[:5]}", "sort descriptor")
        sa = s.p.buffer.selective_access
        T = type(sa).ELEMENTS[1].TYPE.ELEMENTS[1].TYPE
        for e in values:
            for f in (values[0], e):
                w = st(so, e, f, cap("C"))
                s.p.buffer.selective_access = type(sa)(type(sa.access_selector)(1), T(w))
                o.eq(s.p.get_attr_descriptor(2, with_selection=True).contents[9:], b"\x01" + w, f"{case[:5]} range {e.hex()}", "sort range")
        if not choice or filled:
            for e in FOREIGN:
                if e[0] != values[0][0]:
                    for a, b in ((e, values[0]), (values[0], e)):
                        rejects(o, lambda: T(st(so, a, b, cap("C"))), (Exception,), f"{case[:5]} range {a.hex()} to {b.hex()}", "sort type")

    cases = [(*c, f) for c in samples() for f in (False, True) if not ((c[0], c[3]) in ((21, 2), (71, 3), (71, 4), (71, 5)))
             and (c[0], c[3]) not in ((68, 3), (7, 2))]
    ctx.all("sort objects", [c for c in cases if c[6] or len({e[0] for e in c[5]}) == 1 and c[5][0][0] not in (1, 2)], body)
    ctx.bound(f"{len(cases)} attributes as sort object: ranges of their type taken, of others refused")


@unit("long", shards=2)
def long_(ctx):
    N = 12
    regs = [f"1.0.{n}.8.0.255" for n in range(1, N + 1)]
    kinds = [u32(1), u16(1), os(b"a"), i16(-1)]

    def body(case, o):
        n, a, b = case
        s = world()
        xs = [add(s.c, 3, 0, m) if s.c.get(bytes(map(int, m.split(".")))) is None else s.c.get(bytes(map(int, m.split(".")))) for m in regs[:n]]
        for j, x in enumerate(xs):
            x.set_attr(2, kinds[(j * j + j // 3) % 4])
        s.p.set_attr(6, sort_of("C"))
        s.p.set_attr(3, ar(*[st(u16(3), ln(m), i8(2), u16(0)) for m in regs[:n]]))
        s.sort = "C"
        s.caps = tuple(range(n))
        select(s, ("entry", a, b))
        row = [kinds[(j * j + j // 3) % 4] for j in columns_of(n, a, b)]
        s.p.set_attr(2, ar(st(*row), st(*row)))
        o.eq(s.p.buffer.encoding, ar(st(*row), st(*row)), f"{case}", "long row")
        names = [e.NAME for e in s.p.buffer.TYPE.ELEMENTS]
        o.eq(names, [col.get_name(cst.LogicalName(regs[j])) + ". " + str(s.reg.get_attr_element(2)) for j in columns_of(n, a, b)], f"{case}", "long names")
        o.eq([bytes(x.logical_name.contents) for x in s.p.get_buffer_objects()], [bytes(map(int, regs[j].split("."))) for j in columns_of(n, a, b)], f"{case}", "long objects")
        o.eq([bytes(x.logical_name.contents) for x in map(s.c.get, [bytes(map(int, m.split("."))) for m in regs[:n]]) if x is None], [], f"{case}", "long objects")
        for w in (row[:-1], row + [u8(1)], row[::-1]):
            if [e[0] for e in w] != [e[0] for e in row]:
                rejects(o, lambda: s.p.set_attr(2, ar(st(*w))), (Exception,), f"{case} row {len(w)}", "long refused")

    def columns_of(n, a, b):
        return list(range(n))[a - 1:b or None]
    ctx.all("selections", [(n, a, b) for n in range(1, N + 1) for a in range(1, n + 1) for b in (0, *range(a, n + 1))][::ctx.pick(2, 1)], body)

    def many(case, o):
        """objects of long lists are added to the collection, named and read"""
        n, missing = case
        s = world()
        s.p.set_attr(6, sort_of("C"))
        s.p.set_attr(3, ar(*[st(u16(3), ln(m), i8(2), u16(0)) for m in regs[:n]]))
        o.eq([None if s.c.get(bytes(map(int, m.split(".")))) is None else int(s.c.get(bytes(map(int, m.split(".")))).CLASS_ID) for m in regs[:n]], [3] * n, f"{case}", "long added")
        o.eq([str(x.NAME if hasattr(x, "NAME") else x) for x in s.p.get_capture_object_names()], [col.get_name(cst.LogicalName(m)) for m in regs[:n]], f"{case}", "long names")
    ctx.all("added", [(n, 0) for n in range(1, N + 1)], many)
    ctx.bound(f"lists of 1 to {N} columns: every selection of entries")

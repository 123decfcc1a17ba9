"""P06: set(): all or nothing, callbacks once and in order, copies independent - over histories of operations."""
import itertools
import env
import ref
from explorer import unit, outcome, Mismatch

cdt = env.mod("types.common_data_types")


class Veto(Exception):
    pass


class Pair(cdt.Structure):
    first: cdt.Unsigned
    second: cdt.OctetString


class Nest(cdt.Structure):
    num: cdt.Long
    pair: Pair


class Pairs(cdt.Array):
    TYPE = Pair


class Nums(cdt.Array):
    TYPE = cdt.Unsigned


class Uniq(cdt.Array):
    TYPE = cdt.Unsigned
    unique = True


# kind -> (class, [encodings of good values], [bad arguments], convenience arguments {arg: encoding})
OK = {
    "Unsigned": (cdt.Unsigned, ["1100", "1107", "11ff"], [256, -1, "x", b"\x0f\x01", b"\x11", bytearray(b"12"), None and 0], {5: "1105", "9": "1109"}),
    "Long": (cdt.Long, ["100000", "10ffff", "107fff"], [32768, "x", b"\x12\0\1", b"\x10\0"], {-2: "10fffe"}),
    "Boolean": (cdt.Boolean, ["0300", "0301"], ["maybe", b"\x11\1", b"\x03", bytearray(b"12")], {True: "0301", "0": "0300"}),
    "OctetString": (cdt.OctetString, ["0900", "0901ff", "0903010203"], ["zz", b"\x0a\x00", b"\x09\x02\x01"], {"0a 0b": "09020a0b"}),
    "VisibleString": (cdt.VisibleString, ["0a00", "0a0141"], [b"\x09\x00", b"\x0a\x02\x41", 1.5], {"xy": "0a027879"}),
    "BitString": (cdt.BitString, ["0400", "0403a0", "0408ff"], ["012", b"\x04\x09\x00", b"\x09\x00"], {"11": "0402c0"}),
    "Float32": (cdt.Float32, ["1700000000", "173f800000"], ["x", b"\x17\0\0\0", b"\x18" + bytes(8)], {2.0: "1740000000"}),
    "DateTime": (cdt.DateTime, ["19ffffffffffffffffff8000ff", "1907e8021dff0102030400b400"], ["32.1.2024", b"\x19\x07", bytearray(b"\0" * 12)], {"1.2.2024 3:4": "1907e80201ff0304ffff8000ff"}),
    "Date": (cdt.Date, ["1affffffffff", "1a07e8021d04"], ["31.4.2024", b"\x1a\0", bytearray(b"\0" * 5)], {"1.2.2024": "1a07e80201ff"}),
    "Time": (cdt.Time, ["1b00000000", "1bffffffff"], ["24:0", b"\x1b\x18\0\0\0", bytearray(b"\x18\0\0\0")], {"3:4": "1b0304ffff"}),
    "Unit": (cdt.Unit, ["1601", "161b", "16ff"], [0, 256, b"\x16\0", b"\x11\1", "no such unit"], {30: "161e"}),
    "ScalUnit": (cdt.ScalUnitType, ["02020f00161b", "02020ffd16ff"], [(0,), (300, 27), (0, 0), b"\x02\x02\x0f\x00\x11\x1b", b"\x02\x01\x0f\x00"], {(1, 30): "02020f01161e"}),
    "Pair": (Pair, ["020211000900", "02021105090101"], [(1,), (256, b"\x09\0"), (1, "zz"), b"\x02\x02\x0f\0\x09\0", b"\x02\x01\x11\0"], {(9, "0a"): "0202110909010a"}),
    "Nest": (Nest, ["0202100000020211000900", "02021000010202110509020102"], [(1, (1, "zz")), (70000, (1, "")), b"\x02\x02\x10\0\0\x02\x01\x11\0"], {(3, (4, "05")): "0202100003020211040901" + "05"}),
    "Plain": (cdt.Structure, ["020211000f00", "020211050f06"], [b"\x02\x01\x11\1", b"\x02\x03\x11\1\x0f\1\x0f\1", b"\x02\x02\x11\x09\x11\1", b"\x02\x02\x0f\x09\x0f\1"], {}),
    "Nums": (Nums, ["0100", "01021101110f", "0103110311021101"], [[1, 256], [1, "x"], b"\x01\x02\x11\1\x0f\1", b"\x01\x02\x11\1"], {(): "0100"}),
    "Uniq": (Uniq, ["0100", "01021101110f"], [[1, 1], [1, 2, 1], b"\x01\x02\x11\1\x11\1"], {}),
    "Pairs": (Pairs, ["0100", "0101020211000900", "0102020211000900020211050901" + "07"], [[(1, "zz")], [(1, ""), (1,)], b"\x01\x01\x02\x01\x11\1"], {}),
}


class System:
    """state: current encoding, which callbacks are registered, whether the veto is on"""

    def __init__(self, kind):
        self.cls, self.good, self.bad, self.conv = OK[kind]
        self.good = [bytes.fromhex(h) for h in self.good]
        self.bad = [b for b in self.bad if b is not None]

    def fresh(self):
        s = type("S", (), {})()
        s.real = self.cls(self.good[0])
        s.cur = self.good[0]
        s.post = s.pre = False
        s.veto = False
        s.log = []
        return s

    def ops(self, s):
        yield from (("set", w) for w in self.good)
        yield from (("set-bytes-tail", w) for w in self.good[1:])
        yield from (("conv", a) for a in self.conv)
        yield from (("from", w) for w in self.good)
        yield from (("bad", i) for i in range(len(self.bad)))
        yield from (("post",), ("pre",), ("copy",), ("get_copy", self.good[-1]), ("self", "whole"))
        if issubclass(self.cls, cdt.Array):
            yield ("self", "parts")
        if s.pre:
            yield ("veto",)

    def apply(self, s, op, o):
        v = s.real
        s.log.clear()
        k = op[0]
        if k == "post":
            v.register_cb_post_set(lambda: s.log.append(("post", v.encoding)))
            s.post = True
        elif k == "pre":
            def pre(x):
                s.log.append(("pre", v.encoding))
                if s.veto:
                    raise Veto()
            v.register_cb_preset(pre)
            s.pre = True
        elif k == "veto":
            s.veto = not s.veto
        elif k in ("set", "conv", "from", "set-bytes-tail"):
            want = bytes.fromhex(self.conv[op[1]]) if k == "conv" else op[1]
            arg = op[1] if k in ("set", "conv") else self.cls(op[1]) if k == "from" else op[1] + b"\x11\x01"
            if k == "conv" and arg == ():
                arg = []
            hooks = not isinstance(v, cdt.Structure)          # a structure forwards set to its elements
            before = s.cur
            st, e = outcome(v.set, arg)
            if s.veto and s.pre and hooks:
                o.ok(st == "err" and isinstance(e, Veto), f"the refusal of the callback reaches the caller, got {e!r}", "veto")
                o.eq(s.log, [("pre", before)], "callbacks of a refused set", "callback")
            else:
                if st == "err":
                    raise e
                s.cur = want
                if hooks:
                    o.eq(s.log, ([("pre", before)] if s.pre else []) + ([("post", want)] if s.post else []), "callbacks of a set: before with the old value, after with the new", "callback")
        elif k == "bad":
            st, e = outcome(v.set, self.bad[op[1]])
            o.eq(st, "err", f"set({self.bad[op[1]]!r})", "refuse")
            o.ok(not any(x[0] == "post" for x in s.log), "no callback after a refused set", "callback")
        elif k == "copy":
            c = v.copy()
            o.ok(type(c) is type(v) and c == v, "copy equals the original", "copy")
            c.set(self.good[-1] if s.cur != self.good[-1] else self.good[0])
            o.eq(s.log, [], "a change of the copy calls no callback of the original", "copy")
        elif k == "self":           # set to itself, or to a list or tuple of its own elements
            arg = v if op[1] == "whole" else v.values
            before = s.cur
            st, e = outcome(v.set, arg)
            hooks = not isinstance(v, cdt.Structure)
            if s.veto and s.pre and hooks:
                o.ok(st == "err" and isinstance(e, Veto), f"the refusal of the callback reaches the caller, got {e!r}", "veto")
            elif st == "err":
                raise e
            elif hooks:
                o.eq(s.log, ([("pre", before)] if s.pre else []) + ([("post", before)] if s.post else []), "callbacks of a set to itself", "callback")
        elif k == "get_copy":
            c = v.get_copy(op[1])
            o.eq(c.encoding, op[1], "copy with a value", "copy")
            o.eq(s.log, [], "no callback of the original", "copy")
        o.eq(v.encoding, s.cur, f"value after {k}", "value")
        tree, _ = ref.parse(s.cur)
        try:
            want = ref.py(tree)
        except ref.Bad:
            pass
        else:
            o.eq(v.decode(), want, "built-in value", "value")

    def canon(self, s):
        return s.real.encoding, s.post, s.pre, s.veto

    def invariant(self, s):
        if s.real.encoding != s.cur:
            raise Mismatch("object differs from the model", "value")


def mk(kinds):
    def run(ctx):
        d = ctx.pick(4, 6)
        for k in kinds:
            ctx.bound(f"{k}: all histories of up to {d} operations (set from encodings, objects, texts and numbers; refused values; before/after callbacks; a callback that refuses; copies)")
            ctx.bfs(k, System(k), d)
    return run


for i, ks in enumerate((["Unsigned", "Long", "Boolean", "OctetString"], ["VisibleString", "BitString", "Float32", "Unit"], ["DateTime", "Date", "Time"], ["ScalUnit", "Pair", "Nest", "Plain"], ["Nums", "Uniq", "Pairs"])):
    unit(f"set{i}")(mk(ks))


@unit("elements")
def elements(ctx):
    ctx.bound("structures: a callback on each element, set of the whole or of one element; replacing elements by index with right and wrong types")

    def one(case, o):
        enc, target = case
        v = Pair(bytes.fromhex("020211000900"))
        log = []
        v.first.register_cb_post_set(lambda: log.append(1))
        v.second.register_cb_post_set(lambda: log.append(2))
        v.set(bytes.fromhex(enc))
        o.eq((log, v.encoding), ([1, 2], bytes.fromhex(enc)), "element callbacks", "callback")
        o.ok(v[0] is v.first and v[1] is v.second and len(v) == 2, "named and indexed access give one object", "names")
        v.first.set(target)
        o.eq((v.encoding[2:4], log), (bytes((0x11, target)), [1, 2, 1]), "one element set", "callback")
        n = cdt.Unsigned(7)
        v[0] = n
        o.ok(v[0] is n and v.encoding[2:4] == b"\x11\x07", "element replaced", "replace")
        st, e = outcome(v.__setitem__, 0, cdt.Integer(7))
        o.eq((st, v[0] is n), ("err", True), "element of another type", "replace")
        st, e = outcome(setattr, v, "first", cdt.Unsigned(1))
        o.eq(st, "err", "attribute assignment", "replace")
    ctx.all("pair", [(e, t) for e in ("020211000900", "02021105090101", "020211ff09020102") for t in (0, 1, 255)], one)

    def leaves(v):
        return [x for el in v.values for x in (leaves(el) if isinstance(el, cdt.Structure) else [el])]

    def vetoed(case, o):
        kind, new, who, how = case
        v = OK[kind][0](bytes.fromhex(OK[kind][1][0]))
        old, parts, log = v.encoding, leaves(v), []
        seen = []

        def pre(k):
            def f(x):
                seen.append((k, parts[k].encoding))
                if k in who:
                    raise Veto()
            return f
        for k, el in enumerate(parts):
            el.register_cb_preset(pre(k))
        was = [el.encoding for el in parts]
        before = v.values[:]
        st, e = outcome(v.set if how == "set" else v.get_copy(old).__class__.set.__get__(v), new)
        if who:
            o.ok(st == "err" and isinstance(e, Veto), f"the refusal of an element reaches the caller, got {e!r}", "veto")
            o.eq(v.encoding, old, f"value after element {min(who)} refused", "veto")
            o.eq([el.encoding for el in parts], was, "elements after a refusal", "veto")
            o.ok(all(a is b for a, b in zip(v.values, before)), "the elements are the same objects", "veto")
            o.eq([x for x in seen if x[0] in who], [(min(who), was[min(who)])], "the refusing element asked once, its old value in place", "callback")
        else:
            o.eq((st, v.encoding), ("ok", new), "set", "value")
            o.eq(seen, list(enumerate(was)), "each element asked once, its old value in place", "callback")
    def misfit(case, o):
        kind, k, how = case
        T, encs = OK[kind][0], OK[kind][1]
        v = T(bytes.fromhex(encs[0]))
        new = list(T(bytes.fromhex(encs[1])).values)
        new = [x.encoding for x in new]
        new[k] = {"type": b"\x0d\1", "cut": new[k][:-1], "none": b"", "tag": b"\xfe\1"}[how]
        value = bytes([2, len(new)]) + b"".join(new)
        log, old = [], v.encoding
        for i, el in enumerate(leaves(v)):
            el.register_cb_preset(lambda x, i=i: log.append(("pre", i)))
            el.register_cb_post_set(lambda i=i: log.append(("post", i)))
        for arg in (value, tuple(new)):
            if how == "cut" and arg is value and k < len(new) - 1:
                continue
            st, e = outcome(v.set, arg)
            o.eq((st, v.encoding, log), ("err", old, []), f"element {k} misfits ({how})", "misfit")
    ctx.all("misfit", [(k, i, how) for k, n in (("Pair", 2), ("Nest", 2), ("ScalUnit", 2)) for i in range(n) for how in ("type", "cut", "none", "tag")], misfit)
    ctx.bound("structures, nested ones too: every set of elements whose before-change callback refuses")
    ctx.all("vetoed", [(k, bytes.fromhex(OK[k][1][1]), w, "set") for k, n in (("Pair", 2), ("Nest", 3), ("ScalUnit", 2)) for m in range(1 << n) for w in [tuple(i for i in range(n) if m >> i & 1)]], vetoed)


class Untyped:
    """an array without a declared element type takes it from the first elements it is given, and only from those it keeps"""
    SETS = {"empty": ("0100", None), "u8": ("01021101110f", b"\x11"), "i8": ("01010f05", b"\x0f"), "pair": ("0101020211000900", b"\x02"), "array": ("010101010f05", b"\x01"),
            "mixed": ("010211010f01", "bad"), "cut": ("01020f05", "bad"), "tag": ("0f05", "bad"), "none": ("", "bad"), "ff": ("0101fe", "bad")}

    def fresh(self):
        s = type("S", (), {})()
        s.real, s.cur, s.tag, s.veto, s.late, s.log = cdt.Array(), bytes.fromhex("0100"), None, False, False, []

        def pre(x):
            s.log.append("pre")
            if s.veto:
                raise Veto()

        def post():
            s.log.append("post")
            if s.late:
                raise Veto()
        s.real.register_cb_preset(pre)
        s.real.register_cb_post_set(post)
        return s

    def ops(self, s):
        yield from (("set", n) for n in self.SETS)
        yield ("veto",)
        yield ("late",)
        yield ("append", 0x11)
        yield ("append", 0x0f)

    def apply(self, s, op, o):
        del s.log[:]
        if op[0] == "veto":
            s.veto = not s.veto
        elif op[0] == "late":
            s.late = not s.late
        elif op[0] == "append":
            el = (cdt.Unsigned if op[1] == 0x11 else cdt.Integer)(9)
            st, _ = outcome(s.real.append, el)
            if s.tag is not None and s.tag[0] == op[1]:
                o.eq(st, "ok", "append of an element of its type", "append")
                s.cur = s.cur[:1] + bytes([s.cur[1] + 1]) + s.cur[2:] + el.encoding
            else:
                o.eq((st, s.real.encoding), ("err", s.cur), "append of an element of another type or of none", "append")
        else:
            enc, tag = self.SETS[op[1]]
            enc = bytes.fromhex(enc)
            st, e = outcome(s.real.set, enc)
            fits = tag != "bad" and not s.veto and (tag is None or s.tag in (None, tag))
            good = fits and not s.late
            o.eq(st, "ok" if good else "err", f"set {op[1]}", "type")
            if good:
                s.cur = enc
                s.tag = s.tag or tag
                o.eq(s.log, ["pre", "post"], "callbacks", "callback")
            elif not fits:
                o.ok("post" not in s.log, "no callback after a refused set", "callback")
        o.eq(s.real.encoding, s.cur, f"value after {op}", "value")
        o.eq(s.real.TYPE and s.real.TYPE.TAG[:1], s.tag, f"type of the elements after {op}", "type")

    def canon(self, s):
        return s.real.encoding, s.tag, s.veto, s.late

    def invariant(self, s):
        if s.real.encoding != s.cur:
            raise Mismatch("object differs from the model", "value")


@unit("untyped")
def untyped(ctx):
    d = ctx.pick(4, 6)
    ctx.bound(f"an array without declared type: all histories of up to {d} of 14 operations (values of 4 types, 5 refused ones, refusal by the callback before and after the change, append)")
    ctx.bfs("array", Untyped(), d)


@unit("sizes", 2)
def sizes(ctx):
    ns = ctx.pick((0, 1, 2, 7, 8, 9, 15, 16, 64, 99, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1024), (*range(20), 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096))
    ctx.bound(f"strings, bit strings and arrays from every one to every other of {len(ns)} sizes, taken and refused, also from elements that are changed afterwards; structures of 1..12 elements refused by each of their elements")

    def ln(n):
        return bytes([n]) if n < 128 else b"\x81" + bytes([n]) if n < 256 else b"\x82" + n.to_bytes(2, "big")

    def enc(t, n, x):
        if t == 4:
            b = bytearray(bytes([0xff if x else 0xa5]) * ((n + 7) // 8))
            if n % 8:
                b[-1] &= 0xff00 >> n % 8 & 0xff
            return b"\4" + ln(n) + bytes(b)
        return bytes([t]) + ln(n) + (bytes([0x11, x + 1]) if t == 1 else bytes([0x41 + x])) * n

    def one(case, o):
        T, t, a, b = case
        v = T(enc(t, a, 0))
        log = []
        v.register_cb_post_set(lambda: log.append(1)) if t != 1 else None
        bad = enc(t, b, 1)[:-1] if b else bytes([t ^ 3]) + b"\1\1"
        o.eq((outcome(v.set, bad)[0], v.encoding, len(v)), ("err", enc(t, a, 0), a), f"{T.__name__} of {a} set to a value of {b} cut short", "size")
        v.set(enc(t, b, 1))
        o.eq((v.encoding, len(v), bytes(v.contents)), (enc(t, b, 1), b, bytes(T(enc(t, b, 1)).contents)), f"{T.__name__} of {a} set to {b}", "size")
        o.eq(len(log), 2 - 1 if t != 1 else 0, "callbacks after the change", "size")
        v.set(T(enc(t, a, 0)))
        o.eq((v.encoding, len(v)), (enc(t, a, 0), a), f"{T.__name__} of {b} set to an object of {a}", "size")
        if t == 1:
            els = [cdt.Unsigned(7) for _ in range(b)]
            if T is Nums:
                v.set(els)
                for e in els[:1] + els[-1:]:
                    e.set(200)
                o.eq(v.encoding, b"\1" + ln(b) + b"\x11\7" * b, f"{T.__name__} of {a} set to {b} elements that are changed afterwards", "shared")
            src = T(enc(1, b, 1))
            v.set(src)
            for e in src.values[:1] + src.values[-1:]:
                e.set(200)
            o.eq(v.encoding, enc(1, b, 1), f"{T.__name__} of {a} set to an array of {b} that is changed afterwards", "shared")
        w = v.copy()
        before = v.encoding
        w.set(enc(t, a, 1))
        o.eq((w.encoding, v.encoding), (enc(t, a, 1), before), "a copy and its original", "copy")
    ctx.all("sizes", [(T, t, a, b) for T, t in ((cdt.OctetString, 9), (cdt.VisibleString, 10), (cdt.Utf8String, 12), (cdt.BitString, 4), (cdt.Array, 1), (Nums, 1)) for a in ns for b in ns], one)

    def wide(case, o):
        n, k, declared = case
        if declared:
            T = type("Wide", (cdt.Structure,), {"__annotations__": {f"e{i}": cdt.OctetString if i % 3 == 2 else cdt.Unsigned for i in range(n)}})
        else:
            T = cdt.Structure

        def enc(x):
            return b"\2" + bytes([n]) + b"".join(b"\x09\1" + bytes([x + i]) if i % 3 == 2 else bytes([0x11, x + i]) for i in range(n))
        v = T(enc(1))
        refuse = [True]

        def pre(_):
            if refuse[0]:
                raise Veto()
        if k is not None:
            v.values[k].register_cb_preset(pre)
        for src in (enc(100), T(enc(100)), list(T(enc(100)).values))[:3 if declared else 2]:
            st, e = outcome(v.set, src)
            o.eq((st, v.encoding), ("err", enc(1)) if k is not None else ("ok", enc(100)), f"structure of {n} refused by its element {k}: {e!r}", "wide")
        refuse[0] = False
        v.set(enc(50))
        o.eq(v.encoding, enc(50), f"structure of {n}", "wide")
    ctx.all("wide", [(n, k, d) for n in range(1, 13) for k in (None, *range(n)) for d in (True, False) if not d or n <= 10], wide)

"""P26: attributes and methods of COSEM objects - the table of the Blue Book (ref26) against the real classes, and histories
of assignments, refusals, clearing and resetting on them."""
import decimal
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
push2 = env.mod("cosem_interface_classes.push_setup.ver2")
integers = env.mod("types.implementations.integers")

KEYS = list(r.CLASSES)
FIRST = [e for e in r.SIMPLE] + [r.ar(), r.ar(r.u8(1)), r.st(), r.st(r.u8(1))]


def make(key, k=None):
    c, v = key
    ln = cst.LogicalName(r.CLASSES[key][0])
    if key == (40, 2):
        return push2.PushSetup(ln)
    return (col.Collection() if k is None else k).add(ut.CosemClassId(c), cdt.Unsigned(v), ln)


def attrs(key):
    return [(i, n, s) for i, (n, s) in enumerate(r.CLASSES[key][1], 2)]


def enc(v):
    return None if v is None else bytes(v.encoding)


_E = b"\x01\0"
#: what a new object starts with; all other attributes are empty
INITIAL = {(5, 0): {9: r.u16(1)}, (7, 1): {2: _E, 7: r.u32(0), 8: r.u32(1)}, (9, 0): {2: _E}, (10, 0): {2: _E}, (11, 0): {2: _E},
           (15, 0): {3: r.st(r.i8(0x20), r.u16(1)), 4: r.st(r.u8(2), r.u8(16), b"\x12\x00\x74", r.u8(5), r.u8(8), r.u8(1), r.u8(1)), 5: bytes.fromhex("020604187fffff12040012040011060f00090760857405080200"), 8: r.en(0)},
           (15, 1): {3: r.st(r.i8(0x20), r.u16(1)), 4: r.os(bytes.fromhex("60857405080101")), 5: bytes.fromhex("020604187fffff12040012040011060f00090760857405080200"), 8: r.en(0), 9: r.ln("0.0.1.0.0.255")},
           (20, 0): {i: _E for i in (3, 4, 5, 7, 8, 9)}, (21, 0): {2: _E},
           (23, 1): {2: r.en(5), 3: r.u8(1), 4: r.u8(1), 5: r.u16(128), 6: r.u16(128), 7: r.u16(25), 8: r.u16(120), 9: r.u16(16)}, (27, 0): {2: r.en(5)}, (27, 1): {2: r.en(5)},
           (41, 0): {2: r.u16(4059), 4: r.u16(535), 6: r.u16(180)}, (42, 0): {3: r.u32(0xC0A80001)}, (47, 0): {i: r.en(0) for i in (3, 4, 5)}, (47, 1): {i: r.en(0) for i in (3, 4, 5)},
           (64, 0): {2: r.en(0), 3: r.en(0)}, (64, 1): {2: r.en(0), 3: r.en(0), 6: _E}, (68, 0): {2: _E, 3: _E, 4: _E, 5: _E, 6: r.u8(0)}, (71, 0): {6: r.u32(0), 7: r.u32(0)}, (100, 0): {2: r.bo(0), 4: r.u16(123)}}


def state(obj, key):
    return tuple(enc(obj.get_attr(i)) for i, _, s in attrs(key) if i not in r.TIED.get(key, ()))


@unit("table")
def table(ctx):
    def body(key, o):
        c, v = key
        name, at, me = r.CLASSES[key]
        x = make(key)
        ln = bytes(int(i) for i in name.split("."))
        o.eq((int(x.CLASS_ID), int(x.VERSION)), key, "class and version", "class")
        o.eq((x.get_attr_length(), len(list(x)), len(list(x.get_index_with_attributes()))), (len(at) + 1,) * 3, "number of attributes", "count")
        o.eq(sorted(i for i, _ in x.get_index_with_attributes()), list(range(1, len(at) + 2)), "numbers of attributes", "count")
        o.eq((x.get_attr_element(1).NAME, enc(x.get_attr(1)), x.logical_name is x.get_attr(1), bytes(x.get_obis())), ("logical_name", b"\x09\x06" + ln, True, ln), "logical name", "ln")
        for i, n, _ in attrs(key):
            o.eq(x.get_attr_element(i).NAME, n, f"attribute {i}", "name")
            acc = r.ALIAS.get((c, i), n)
            if acc:
                o.ok(getattr(x, acc) is x.get_attr(i) and x[i] is x.get_attr(i), f"accessor {acc} is not attribute {i}", "accessor")
        o.eq({i: enc(x.get_attr(i)) for i, _, _ in attrs(key) if x.get_attr(i) is not None}, INITIAL.get(key, {}), "values a new object starts with", "initial")
        ms = [m for _, m in x.it_index_with_meth]
        o.eq(len({id(m) for m in ms}), len(ms), "one value for two methods", "method-value")
        for i, (n, s) in enumerate(me, 1):
            for e in s:
                was = [enc(m) for m in ms]
                x.get_meth(i).set(e)
                o.eq([enc(m) for m in ms], was[:i - 1] + [e] + was[i:], f"values of the methods after method {i}", "method-value")
        for i, el in x.get_index_with_attributes():
            o.ok(el is x.get_attr(i), f"attribute {i} of the iteration", "iteration")
        o.eq(len(list(x.it_index_with_meth)), len(me), "number of methods", "count")
        for i, (n, s) in enumerate(me, 1):
            o.eq(x.get_meth_element(i).NAME, n, f"method {i}", "name")
            if c != 100:
                o.ok(getattr(x, n) is x.get_meth(i), f"accessor {n} is not method {i}", "accessor")
            for e in s:
                x.get_meth(i).set(e)
                o.eq(enc(x.get_meth(i)), e, f"value of method {i}", "method-value")
            o.eq(bytes(x.get_meth_descriptor(i).contents), bytes([0, c]) + ln + bytes([i]), f"descriptor of method {i}", "descriptor")
        y = make(key)
        for i, n, _ in attrs(key):
            y.set_attr_force(i, cdt.Unsigned(i))
        for i, n, _ in attrs(key):
            acc = r.ALIAS.get((c, i), n)
            o.eq(enc(y.get_attr(i)), r.u8(i), f"attribute {i}", "force")
            if acc:
                o.ok(getattr(y, acc) is y.get_attr(i) and y[i] is y.get_attr(i), f"accessor {acc} is not attribute {i}", "accessor")
        for i in range(1, len(at) + 2):
            o.eq(bytes(x.get_attr_descriptor(i).contents), bytes([0, c]) + ln + bytes([i]), f"descriptor of attribute {i}", "descriptor")
            o.eq(bytes(x.get_attribute_descriptor(i)), bytes([0, c]) + ln + bytes([i]), f"descriptor of attribute {i}", "descriptor")
    ctx.all("table", KEYS, body)

    def absent(case, o):
        key, i = case
        x = make(key)
        n, m = len(r.CLASSES[key][1]) + 1, len(r.CLASSES[key][2])
        before = state(x, key)
        if not 1 <= i <= n:
            for f in (x.get_attr, x.get_attr_element, lambda j: x.set_attr(j, b"\x0f\x00"), lambda j: x[j], x.get_attr_data_type):
                rejects(o, lambda: f(i), Exception, f"attribute {i} of {n}", "attribute")
        if i <= 1:
            rejects(o, lambda: x.clear_attr(i), Exception, f"attribute {i} cleared", "clear")
        if not 1 <= i <= m:
            for f in (x.get_meth, x.get_meth_element):
                rejects(o, lambda: f(i), Exception, f"method {i} of {m}", "method")
        if not 2 <= i <= n:
            rejects(o, lambda: x.get_record_time(i), Exception, f"record time of {i}", "record")
            rejects(o, lambda: x.set_record_time(i, r.dt25), Exception, f"record time of {i}", "record")
        o.eq((state(x, key), [x.get_record_time(j) for j in range(2, n + 1)], enc(x.get_attr(1))[:2]), (before, [None] * (n - 1), b"\x09\x06"), "object after refusals", "changed")
    ctx.all("absent", [(k, i) for k in KEYS for i in [*range(-20, 1), 1, *range(len(r.CLASSES[k][1]) + 1, 24), *range(len(r.CLASSES[k][2]) + 1, 10), 127, 255]], absent)

    def times(key, o):
        x = make(key)
        n = x.get_attr_length()
        want = {}
        for i, e in [(i, e) for e in (r.dt25, r.dt25b) for i in range(2, n + 1)]:
            x.set_record_time(i, e)
            want[i] = e
            o.eq([enc(x.get_record_time(j)) for j in range(2, n + 1)], [want.get(j) for j in range(2, n + 1)], f"after {i}", "record")
    ctx.all("record times", KEYS, times)
    good = [b"OK", b"CONNECT", b"RING", b"NO CARRIER", b"ERROR", b"CONNECT 1 200", b"NO DIAL TONE", b"BUSY", b"NO ANSWER", *[b"CONNECT " + n for n in (b"600", b"2 400", b"4 800", b"9 600", b"14 400", b"28 800", b"36 600", b"56 000")]]

    def modem(t, o):
        x = make((27, 0))
        st_, _ = outcome(x.set_attr, 4, r.ar(r.os(t)))
        o.eq((st_, enc(x.get_attr(4))), ("ok", r.ar(r.os(t))) if t in good else ("err", None), f"modem message {t}", "modem")
    ctx.all("modem messages", good + [b"", b"NO", b"no carrier", b"RINF", b"OK ", b"CONNECT 300", b"NO ANSWEF"], modem)
    ctx.bound(f"{len(KEYS)} classes: every attribute, every method, every number from -20 to 23, 127, 255")


def tag(e):
    return e[0]


@unit("values", shards=4)
def values(ctx):
    def body(case, o):
        key, i, e, f = case
        x = make(key)
        start = state(x, key)
        others = [j for j, _, _ in attrs(key) if j != i and j not in r.TIED.get(key, ())]
        if x.get_attr(i) is not None:
            x.clear_attr(i)
        rest = [enc(x.get_attr(j)) for j in others]
        o.eq(rest, [s for (j, _, _), s in zip([a for a in attrs(key) if a[0] not in r.TIED.get(key, ())], start) if j != i], "others after clearing", "others")
        x.set_attr(i, e)
        o.eq(enc(x.get_attr(i)), e, f"attribute {i}", "first")
        o.ok(isinstance(x.get_attr(i), x.get_attr_data_type(i)), "data type", "type")
        for j, n, _ in attrs(key):
            acc = r.ALIAS.get((key[0], j), n)
            if acc:
                o.ok(getattr(x, acc) is x.get_attr(j) and x[j] is x.get_attr(j), f"with attribute {i} set: accessor {acc} is not attribute {j}", "accessor")
        got = outcome(x.set_attr, i, f)
        if tag(e) == tag(f):
            o.eq((got[0], enc(x.get_attr(i))), ("ok", f), f"attribute {i} after {e.hex()}, then {f.hex()}", "second")
        else:
            o.eq((got[0], enc(x.get_attr(i))), ("err", e), f"attribute {i} after {e.hex()}, then {f.hex()}", "second")
        o.eq([enc(x.get_attr(j)) for j in others], rest, f"other attributes after setting {i}", "others")
        before = enc(x.get_attr(i))
        for v in (e, f) if tag(e) == tag(f) else (e, ):
            k = x.encode(i, v)
            o.eq((enc(k), enc(x.get_attr(i))), (v, before), f"encode {i}", "encode")
            o.ok(k is not x.get_attr(i), f"encode {i} answers the attribute itself", "encode")

    ctx.all("pairs", [(k, i, e, f) for k in KEYS for i, n, s in attrs(k) if s and i not in r.TIED.get(k, ()) for e in s for f in s], body)

    def foreign(case, o):
        key, i, e, bad = case
        x = make(key)
        if x.get_attr(i) is not None:
            x.clear_attr(i)
        rejects(o, lambda: x.set_attr(i, bad), Exception, f"attribute {i} set to {bad.hex()}", "accepted")
        o.eq(enc(x.get_attr(i)), None, f"attribute {i} after a refusal", "changed")
        x.set_attr(i, e)
        before = state(x, key)
        for b in (bad, bad[:1], b"", e[:1], e + b"\x00" if False else b"\xfe"):
            st, _ = outcome(x.set_attr, i, b)
            if st == "ok" and b not in (e, ) and b != b"":
                raise Mismatch(f"attribute {i}={e.hex()} set to {b.hex()}: accepted, now {enc(x.get_attr(i))}", "accepted")
            o.eq(state(x, key), before, f"attribute {i} after refused {b.hex()}", "changed")

    def empty(case, o):
        """an empty value is a value of its own: never what a new object starts with"""
        key, i, v = case
        x = make(key)
        if x.get_attr(i) is not None:
            x.clear_attr(i)
        t = x.get_attr_data_type(i)
        want = outcome(t, v)
        got = outcome(x.set_attr, i, v)
        o((want[0], got[0]))
        if want[0] == "err":
            o.eq((got[0], enc(x.get_attr(i))), ("err", None), f"attribute {i} set to {v!r}", "empty")
        elif got[0] == "ok":
            o.eq(enc(x.get_attr(i)), enc(want[1]), f"attribute {i} set to {v!r}", "empty")
    ctx.all("empty", [(k, i, v) for k in KEYS for i, n, s in attrs(k) if s and i not in r.TIED.get(k, ()) for v in ("", b"", 0, False, [])], empty)
    cases = [(k, i, s[0], b) for k in KEYS for i, n, s in attrs(k) if s and i not in r.TIED.get(k, ()) for b in FIRST if tag(b) not in {tag(e) for e in s}]
    ctx.all("foreign", cases, foreign)
    ctx.bound("every attribute of every class: all pairs of sample values of each, all values of every other data type, cut values")


def bit_strings(a):
    out, a = [], a[2:]
    while a:
        n = 2 + (a[1] + 7) // 8
        out.append(a[:n])
        a = a[n:]
    return out


class Hist:
    """assignments, clearing, resetting of the attributes of one object; model: encodings"""
    def __init__(self, key, cut=None):
        self.key = key
        self.start = None
        ops = []
        x = make(key)
        self.init = {i: enc(x.get_attr(i)) for i, _, s in attrs(key)}
        for i, n, s in attrs(key):
            if i in r.TIED.get(key, ()):
                continue
            for e in (s or ())[:2 if cut is None else cut]:
                ops.append(("set", i, e))
            if s:
                ops.append(("clear", i))
                ops.append(("bad", i, r.ar(r.u8(1)) if tag(s[0]) != 1 else r.u8(1)))
            if isinstance(x.get_attr_element(i).default, int):
                ops.append(("reset", i))
        self._ops = ops

    def fresh(self):
        return [make(self.key), dict(self.init)]

    def ops(self, s):
        return self._ops

    def apply(self, s, op, o):
        x, m = s
        i = op[1]
        if op[0] == "set":
            good = m[i] is None or tag(m[i]) == tag(op[2])
            if self.key == (5, 0) and i in (2, 3) and m[i] is None and m[5 - i] is not None and tag(m[5 - i]) != tag(op[2]):
                good = False
            o.eq(outcome(x.set_attr, i, op[2])[0], "ok" if good else "err", f"{op}", "set")
            if good:
                m[i] = op[2]
                if self.key == (68, 0) and i == 2 and m[3] is not None:          # one permission bit per action
                    n = op[2][1]
                    m[3] = r.ar(*[b if b[1] == n else r.bits("0" * n) for b in bit_strings(m[3])])
        elif op[0] == "bad":
            if self.key == (1, 0) and m[i] is None or m[i] is not None and tag(m[i]) == tag(op[2]):
                return
            o.eq(outcome(x.set_attr, i, op[2])[0], "err", f"{op}", "bad")
        elif op[0] == "clear":
            x.clear_attr(i)
            m[i] = None
            o()
        else:
            x.reset_attribute(i)
            m[i] = self.init[i]
            o()
        o.eq([enc(x.get_attr(j)) for j in m if j not in r.TIED.get(self.key, ())], [m[j] for j in m if j not in r.TIED.get(self.key, ())], f"after {op}", "state")

    def canon(self, s):
        su = tuple(enc(getattr(s[0].get_attr(i), "SCALER_UNIT", None)) for i in (2, 3)) if self.key in ((3, 0), (4, 0), (5, 0)) else ()
        return tuple(enc(s[0].get_attr(i)) for i in s[1]) + su

    def invariant(self, s):
        x, m = s
        if self.key in ((3, 0), (4, 0), (5, 0)):
            su = 4 if self.key[0] == 5 else 3
            for i in (2, 3)[:1 if su == 3 else 2]:
                v = x.get_attr(i)
                if m[su] is not None and v is not None and isinstance(v, (cdt.Digital, cdt.Float)):
                    if enc(v.SCALER_UNIT) != m[su]:
                        raise Mismatch(f"value has scaler and unit {enc(v.SCALER_UNIT)}, the register {m[su]}", "scaler")


@unit("histories", shards=8)
def histories(ctx):
    for key in KEYS:
        h = Hist(key)
        n = len(h._ops)
        d = ctx.pick(4 if n <= 8 else 3 if n <= 40 else 2, 5 if n <= 8 else 4 if n <= 20 else 3)
        ctx.bfs(f"class {key[0]} version {key[1]}", h, d)
    ctx.bound(f"all histories of assignments (two values per attribute), refused assignments, clearing and resetting: depth {ctx.pick('4, 3 or 2 by number of operations (up to 8, 40, more)', '5, 4 or 3 (up to 8, 20, more)')}")


@unit("registers", shards=4)
def registers(ctx):
    for key in ((3, 0), (4, 0), (5, 0)):
        h = Hist(key)
        su = 4 if key[0] == 5 else 3
        vals = [r.u32(7), r.i16(-7), b"\x17\x3f\x80\x00\x00", r.os(b"ab")]
        h._ops = [op for i in ((2, 3) if su == 4 else (2,)) for op in [*[("set", i, e) for e in vals], ("clear", i)]] + [("set", su, r.SU), ("set", su, r.SU2), ("clear", su)]
        ctx.bfs(f"scaler of {key}", h, ctx.pick(5 if su == 3 else 4, 6 if su == 3 else 5))

    def typed(case, o):
        """a value typed for a register is in the unit of the register: encode gives it and leaves the register alone"""
        key, old, new, sc, late = case
        x = make(key)
        su = 4 if key[0] == 5 else 3
        unit_ = b"\2\2\x0f" + sc.to_bytes(1, "big", signed=True) + b"\x16\xff"
        if not late:
            x.set_attr(su, unit_)
        x.set_attr(2, old)
        if late:
            x.set_attr(su, unit_)
        n = int.from_bytes(new[1:], "big", signed=new[0] in (5, 15, 16, 20))
        text = str(decimal.Decimal(n).scaleb(sc)) if sc < 0 else str(n * 10 ** sc)
        k = x.encode(2, text)
        o.eq((enc(k), enc(x.get_attr(2)), enc(x.get_attr(su))), (new, old, unit_), f"{key} holding {old.hex()} with scaler {sc}: typed {text!r}", "typed")
        x.set_attr(2, text)
        o.eq(enc(x.get_attr(2)), new, f"{key} holding {old.hex()} with scaler {sc}: set to {text!r}", "typed")
    nums = [(r.u32(7), r.u32(v)) for v in (0, 5, 12345, 2 ** 32 - 1)] + [(r.i16(-7), r.i16(v)) for v in (0, -5, 120, -32768, 32767)]
    ctx.all("typed " + str(key[0]), [(key, a, b, sc, late) for key in ((3, 0), (4, 0), (5, 0)) for a, b in nums for sc in range(-6, 7) for late in (0, 1)], typed)
    ctx.bound(f"all histories of up to {ctx.pick('5 (4 for demand registers)', '6 (5)')} assignments of value and scaler-unit and clearing")


@unit("copies", shards=2)
def copies(ctx):
    def put(x, i, e):
        if x.get_attr(i) is not None and tag(enc(x.get_attr(i))) != tag(e):
            x.clear_attr(i)
        x.set_attr(i, e)

    def body(case, o):
        key, n = case
        a = make(key)
        tied = r.TIED.get(key, ())
        for i, _, s in attrs(key):
            if s and i not in tied:
                put(a, i, s[n % len(s)])
        want = state(a, key)
        b = type(a)(cst.LogicalName(r.CLASSES[key][0]))
        if key[0] in (15, 21, 71):
            b = make(key)
        src = a.collection
        a.collection = None                            # an object of no collection: nothing decides what is writable
        b.copy(a)
        a.collection = src
        o.eq(state(a, key), want, "source after copying", "source")
        static = [i for i, _, s in attrs(key) if s and i not in tied and i not in r.DYNAMIC.get(key, ())]
        o.eq([enc(b.get_attr(i)) for i in static], [enc(a.get_attr(i)) for i in static], "copied attributes", "copied")
        for i, _, s in attrs(key):
            if s and i in static:
                for e in s:
                    if tag(e) == tag(enc(b.get_attr(i))):
                        b.set_attr(i, e)
                o.eq(state(a, key), want, f"source after changing the copy's {i}", "shared")
        got = state(b, key)
        for i, _, s in attrs(key):
            if s and i in static:
                for e in s:
                    if tag(e) == tag(enc(a.get_attr(i))):
                        a.set_attr(i, e)
                o.eq(state(b, key), got, f"copy after changing the source's {i}", "shared")
    ctx.all("objects", [(k, n) for k in KEYS for n in range(3) if k != (7, 1)], body)

    def forced(case, o):
        """a value of a type of the meter's own, put in by force, is copied with its type"""
        key, i, v = case
        a, b = make(key), make(key)
        tied = r.TIED.get(key, ())
        for x in (a, b):
            for j, _, _ in attrs(key):
                if j not in tied and j > 1:
                    x.clear_attr(j)
        a.set_attr_force(i, v.copy())
        src = a.collection
        a.collection = None
        st, _ = outcome(b.copy, a)
        a.collection = src
        o.eq((st, enc(b.get_attr(i)), type(b.get_attr(i))), ("ok", enc(v), type(v)), f"attribute {i} of a type of its own", "forced")
        o.ok(b.get_attr(i) is not a.get_attr(i), "one value in two objects", "shared")
    ctx.all("forced", [(k, i, v) for k in KEYS if k != (7, 1) for i, n, s in attrs(k) if s and i not in r.TIED.get(k, ()) and i not in r.DYNAMIC.get(k, ())
                       and (k[0], i) not in ((10, 2), (11, 2), (15, 2), (15, 5), (15, 6))          # looked into as soon as they are set
                       for v in (cdt.Unsigned(5), cdt.OctetString(b"\x09\x03abc"), cdt.DoubleLong(-7))], forced)

    def between(case, o):
        """values of all objects of one collection into another"""
        keys, n, miss = case
        ka, kb = col.Collection(), col.Collection()
        a, b = [make(k, ka) for k in keys], [make(k, kb) for k in keys if k != miss]
        for k, x in zip(keys, a):
            for i, _, s in attrs(k):
                if s and i not in r.TIED.get(k, ()):
                    put(x, i, s[n % len(s)])
        o.eq(kb.copy_objects_attr_values_from(ka), miss is None, "all written", "answer")
        for x in b:
            y = ka.get(x.logical_name.contents)
            k = (int(x.CLASS_ID), int(x.VERSION))
            o.eq(state(x, k), state(y, k), f"values of {k}", "copied")
    pairs = [k for k in KEYS if k[0] not in (7, 15, 40, 21, 71) and (k[1] == 0 or k in ((23, 1), ))]
    ctx.all("between", [((k, m), n, miss) for k, m in itertools.combinations(pairs[::2] + pairs[1::2], 2) if r.CLASSES[k][0] != r.CLASSES[m][0] for n in range(1) for miss in (None, k, m)][::ctx.pick(2, 1)], between)
    ctx.bound("each class with three sets of values copied to a fresh object, then either side changed attribute by attribute; pairs of objects between two collections")


ZERO = {6: r.u32(0), 16: r.i16(0), 17: r.u8(0), 9: r.os(b"")}
REG = {2: [r.u32(7), r.i16(-7), r.u8(200), r.os(b"ab")]}


@unit("monitors")
def monitors(ctx):
    """Limiter and RegisterMonitor: thresholds take data type, scaler and unit of the monitored value"""
    LN3 = "1.0.1.8.0.255"

    def setup(e, su):
        k = col.Collection()
        a = k.add(ut.CosemClassId(3), cdt.Unsigned(0), cst.LogicalName(LN3))
        if e:
            a.set_attr(2, e)
        if su:
            a.set_attr(3, su)
        return k, a

    def limiter(case, o):
        e, su, f, i = case
        k, a = setup(e, su)
        x = k.add(ut.CosemClassId(71), cdt.Unsigned(0), cst.LogicalName("0.0.17.0.0.255"))
        rejects(o, lambda: x.set_attr(i, f), Exception, "threshold without monitored value", "early")
        o.eq(x.get_attr(i), None, "threshold after refusal", "early")
        st, _ = outcome(x.set_attr, 2, r.VALDEF[0])
        o.eq((st, enc(x.get_attr(2))), ("ok", r.VALDEF[0]) if e else ("err", None), "monitored value", "monitored")
        if not e:
            o.eq([x.get_attr(j) for j in (3, 4, 5)], [None] * 3, "thresholds of a refused monitored value", "monitored")
            return
        o.eq([enc(x.get_attr(j)) for j in (3, 4, 5)], [ZERO[tag(e)]] * 3, "thresholds of a new monitored value", "zero")
        o.eq([tag(enc(x.get_attr(j))) for j in (3, 4, 5)], [tag(e)] * 3, "data type of thresholds", "type")
        good = tag(f) == tag(e)
        before = [enc(x.get_attr(j)) for j in (3, 4, 5)]
        st, _ = outcome(x.set_attr, i, f)
        o.eq(st, "ok" if good else "err", f"threshold {i} set to {f.hex()}", "threshold")
        if good:
            before[i - 3] = f
        o.eq([enc(x.get_attr(j)) for j in (3, 4, 5)], before, "thresholds", "threshold")
        o.eq((enc(a.value), enc(a.scaler_unit)), (e, su), "the monitored register", "monitored")
        if su and isinstance(a.value, cdt.Digital):
            o.eq([enc(x.get_attr(j).SCALER_UNIT) for j in (3, 4, 5)], [su] * 3, "scaler and unit of thresholds", "scaler")
    ctx.all("limiter", [(e, su, f, i) for e in [None, *REG[2]] for su in (None, r.SU, r.SU2) for f in REG[2] for i in (3, 4, 5)], limiter)

    def missing(case, o):
        """a monitored object the collection does not have, or has not read: refused, and nothing is set"""
        c, i, ref, have = case
        k, a = setup(r.u32(7) if have else None, r.SU)
        x = k.add(ut.CosemClassId(c), cdt.Unsigned(0), cst.LogicalName(r.CLASSES[c, 0][0]))
        before = state(x, (c, 0))
        st, _ = outcome(x.set_attr, i, ref)
        good = ref == r.VALDEF[0] and (have or c == 21)
        o.eq(st, "ok" if good else "err", f"class {c}: monitored value {ref.hex()}", "monitored")
        if not good:
            o.eq(state(x, (c, 0)), before, f"class {c} after refused {ref.hex()}", "changed")
            a.set_attr(2, r.u32(5))
            x.set_attr(i, r.VALDEF[0])
            o.eq(enc(x.get_attr(i)), r.VALDEF[0], "monitored value after a refusal", "monitored")
    ctx.all("missing", [(c, i, ref, have) for c, i in ((71, 2), (21, 3)) for ref in (*r.VALDEF, r.st(r.u16(3), r.ln("1.0.1.8.0.255"), r.i8(9)), r.st(r.u16(3), r.ln("1.0.1.8.1.255"), r.i8(2))) for have in (False, True)], missing)

    def order(case, o):
        """thresholds set before the monitored value: kept if they are of its type"""
        e, fs = case
        k, a = setup(e, r.SU)
        x = k.add(ut.CosemClassId(21), cdt.Unsigned(0), cst.LogicalName("0.0.16.0.0.255"))
        st, _ = outcome(x.set_attr, 2, r.ar(*fs))
        o(st)
        mixed = len({tag(f) for f in fs}) > 1
        o.eq((st, enc(x.get_attr(2))), ("err", r.ar()) if mixed else ("ok", r.ar(*fs)), "thresholds first", "first")
        x.set_attr(3, r.VALDEF[0])
        o.eq(enc(x.get_attr(2)), r.ar(*fs) if not mixed and all(tag(f) == tag(e) for f in fs) else r.ar(), "thresholds after the monitored value", "kept")
        o.eq(enc(a.value), e, "monitored value", "monitored")
    ctx.all("thresholds first", [(e, fs) for e in REG[2] for n in range(3) for fs in itertools.product(REG[2], repeat=n)], order)

    def monitor(case, o):
        e, f = case
        k, a = setup(e, r.SU)
        x = k.add(ut.CosemClassId(21), cdt.Unsigned(0), cst.LogicalName("0.0.16.0.0.255"))
        x.set_attr(3, r.VALDEF[0])
        st, _ = outcome(x.set_attr, 2, r.ar(f, f))
        good = tag(f) == tag(e)
        o.eq((st, enc(x.get_attr(2))), ("ok", r.ar(f, f)) if good else ("err", r.ar()), f"thresholds set to {f.hex()}", "thresholds")
        st, _ = outcome(x.set_attr, 2, r.ar(e))
        o.eq((st, enc(x.get_attr(2))), ("ok", r.ar(e)), "thresholds", "thresholds")
    ctx.all("register monitor", [(e, f) for e in REG[2] for f in REG[2]], monitor)
    ctx.bound("4 data types (and none) of the monitored value x 3 scalers x 4 types of threshold")


@unit("secret")
def secret(ctx):
    """the secret of an association exists only together with its mechanism"""
    def body(case, o):
        ver, hist = case
        x = make((15, ver))
        m = None
        M = r.MECH if ver == 0 else r.MECHA
        for op in hist:
            if op[0] == "m":
                x.set_attr(6, M[op[1]])
                first = op[1] if m is None else first
                m = op[1]
            elif op[0] == "s":
                was = enc(x.get_attr(7))
                st, _ = outcome(x.set_attr, 7, op[1])
                o(st)
                if m is not None:
                    fits = first != 2 or len(op[1]) == 18                        # a key of mechanism 2 has 16 octets
                    o.eq((st, enc(x.get_attr(7))), ("ok", op[1]) if fits else ("err", was), "secret", "secret")
                else:
                    o.eq(x.get_attr(7), None, "secret without mechanism", "early")
            o.eq(x.get_attr(7) is not None, m is not None, f"secret present after {op}", "present")
            o.eq(enc(x.get_attr(6)), None if m is None else M[m], "mechanism", "mechanism")
    ops = [("m", 0), ("m", 1), ("m", 2), ("s", r.os(b"12345678")), ("s", r.os(b"1234567890123456"))]
    ctx.all("histories", [(v, h) for v in (0, 1) for n in (1, 2, 3) for h in itertools.product(ops, repeat=n)], body)
    ctx.bound("all histories of up to 3 assignments of mechanism and secret")


@unit("links")
def links(ctx):
    """an attribute linked to a value that exists already"""
    def body(case, o):
        key, i, j = case
        x, y = make(key), make(key)
        dt = r.CLASSES[key][1][i - 2][1]
        src = r.CLASSES[key][1][j - 2][1]
        if y.get_attr(j) is not None:
            y.clear_attr(j)
        y.set_attr(j, src[0])
        v = y.get_attr(j)
        before = state(x, key)
        st, _ = outcome(x.set_attr_link, i, v)
        want = isinstance(v, x.get_attr_element(i).DATA_TYPE)
        if i == j:
            o.ok(want, f"value of attribute {j} is not of its data type", "type")
        if tag(src[0]) not in {tag(e) for e in dt}:
            o.ok(not want, f"value of attribute {j} is of the data type of {i}", "type")
        o.eq(st, "ok" if want else "err", f"attribute {i} linked to a value of attribute {j}", "link")
        if want:
            o.ok(x.get_attr(i) is v, "linked value", "link")
            rest = list(before)
            idx = [a for a, _, _ in attrs(key) if a not in r.TIED.get(key, ())]
            if i in idx:
                rest[idx.index(i)] = src[0]
            o.eq(state(x, key), tuple(rest), "other attributes", "others")
        else:
            o.eq(state(x, key), before, "after a refused link", "changed")
    pairs = [(k, i, j) for k in KEYS for i, _, s in attrs(k) if s and not isinstance(make(k).get_attr_element(i).DATA_TYPE, ut.CHOICE) for j, _, t in attrs(k) if t and j not in r.TIED.get(k, ())]
    ctx.all("pairs", pairs, body)
    ctx.bound(f"{len(pairs)} pairs of attributes of one class")


# ------------------------------------------------------------------ selective access to the list of objects
@unit("selection")
def selection(ctx):
    """object_list: 1 all, 2 by list of classes, 3 by list of objects, 4 one object"""
    A = {v: env.mod(f"cosem_interface_classes.association_ln.ver{v}") for v in (0, 1, 2)}
    a0 = A[0]
    NAME = b"\x00\x00\x28\x00\x03\xff"
    ctx.bound("selectors -1 to 300 with every kind of parameter; lists of up to 3 of 4 classes or objects; every attribute of an association with and without selection, before and after its list is known")
    ctx.all("selector", [(n,) for n in range(-1, 301)], lambda c, o: o.eq(outcome(lambda: a0.AccessSelector(c[0]).contents), ("ok", bytes(c)), f"selector {c[0]}", "selector") if 1 <= c[0] <= 4
            else rejects(o, lambda: a0.AccessSelector(c[0]), (ValueError, OverflowError), f"selector {c[0]}", "selector"))
    ctx.all("kinds", [(n,) for n in range(256)], lambda c, o: o.eq(getattr(a0.Data.ELEMENTS.get(c[0]), "TYPE", None), {1: cdt.NullData, 2: a0.ClassList, 3: a0.ObjectIdList, 4: a0.ObjectId}.get(c[0]), f"parameter of selector {c[0]}", "kind"))
    lists = [p for n in range(4) for p in itertools.permutations((1, 7, 15, 70), n)]
    obj = lambda k: r.st(r.u16(k), b"\x09\x06\x00\x00\x01" + bytes([k]) + b"\x00\xff")
    params = [(1, lambda: cdt.NullData(), b"\x00")]
    params += [(2, lambda p=p: a0.ClassList(r.ar(*map(r.u16, p))), r.ar(*map(r.u16, p))) for p in lists]
    params += [(3, lambda p=p: a0.ObjectIdList(r.ar(*map(obj, p))), r.ar(*map(obj, p))) for p in lists]
    params += [(4, lambda k=k: a0.ObjectId(obj(k)), obj(k)) for k in (1, 7, 15, 70)]

    def body(c, o):
        v, known, i, n = c
        k = col.Collection()
        a = k.add(ut.CosemClassId(15), cdt.Unsigned(v), cst.LogicalName("0.0.40.0.3.255"))
        plain = b"\x00\x0f" + NAME + bytes([i])
        if known:
            a.set_attr(2, b"\x01\x00")
        o.eq(a.get_attr_descriptor(i).contents, plain, "descriptor", "plain")
        if known or i != 2:
            o.eq(a.get_attr_descriptor(i, with_selection=True).contents, plain + (b"\x01\x00" if i == 2 else b""), f"descriptor of {i} with selection", "selected")
        if i == 2 and known:
            s, make, raw = params[n]
            a.object_list.selective_access = a0.SelectiveAccessDescriptor(a0.AccessSelector(s), make())
            o.eq(a.get_attr_descriptor(2, with_selection=True).contents, plain + bytes([s]) + raw, f"selection {s} {raw.hex()}", "selected")
            o.eq(a.get_attr_descriptor(2).contents, plain, "descriptor without", "plain")
    ctx.all("descriptors", [(v, k, i, n) for v in A for k in (False, True) for i in range(1, 9 if v == 0 else 10) for n in (range(len(params)) if i == 2 and k else (0,))], body)

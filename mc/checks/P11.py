"""P11: arrays behave as typed lists: every history of list operations against a python list."""
import itertools
import env
import ref
from explorer import unit, outcome, Mismatch

cdt = env.mod("types.common_data_types")


class Nums(cdt.Array):
    TYPE = cdt.Unsigned


class Uniq(cdt.Array):
    TYPE = cdt.Unsigned
    unique = True


class Pair(cdt.Structure):
    a: cdt.Unsigned
    b: cdt.Integer


class Pairs(cdt.Array):
    TYPE = Pair


class ArraySys:
    def __init__(self, kind, maxlen):
        self.kind, self.maxlen = kind, maxlen
        self.cls = {"Nums": Nums, "Uniq": Uniq, "Pairs": Pairs, "Plain": cdt.Array, "Param": lambda v=None: cdt.Array(v, type_=cdt.Unsigned)}[kind]
        self.elem = Pair if kind == "Pairs" else cdt.Unsigned
        self.vals = [bytes.fromhex(h) for h in (["020211010f01", "020211020f02"] if kind == "Pairs" else ["1101", "1102"])]
        self.zero = bytes.fromhex("020211000f00" if kind == "Pairs" else "1100")

    def fresh(self):
        s = type("S", (), {})()
        s.real = self.cls()
        s.m = []
        s.typed = self.kind != "Plain"
        return s

    def ops(self, s):
        n = len(s.m)
        yield ("clear",)
        for ws in ([], [0], [1, 0], [0, 0], [0, 1, 1]):
            if len(ws) <= self.maxlen:
                yield ("set", tuple(ws))
        if s.typed:
            yield ("set-list", (1, 0))
            yield ("set-bad",)
            yield ("append-bad",)
            if n < self.maxlen:
                yield from (("append", i) for i in (0, 1))
                yield from (("append-encoding", i) for i in (0, 1))
                yield ("append-new",)
                yield from (("insert", k, 1) for k in range(n + 1))
                yield ("insert-other-type",)
            yield from (("remove", i) for i in (0, 1))
        yield from (("pop", k) for k in [None, *range(-n - 1, n + 1)])
        yield ("copy",)

    def apply(self, s, op, o):
        v, m, k = s.real, s.m, op[0]
        before = list(m)
        uniq = self.kind == "Uniq"
        w = lambda i: self.vals[i]
        e = lambda i: self.elem(self.vals[i])

        def expect(fn, ok, *a):
            st, r = outcome(fn, *a)
            o.eq(st, "ok" if ok else "err", f"{op}: {r!r}", k)
            return r
        if k == "clear":
            v.clear()
            m.clear()
        elif k == "set":
            ws = [w(i) for i in op[1]]
            enc = b"\x01" + bytes([len(ws)]) + b"".join(ws)
            ok = not uniq or len(set(ws)) == len(ws)
            expect(v.set, ok, enc)
            if ok:
                m[:] = ws
                s.typed = s.typed or bool(ws)
        elif k == "set-list":
            expect(v.set, True, [e(i) for i in op[1]])
            m[:] = [w(i) for i in op[1]]
        elif k == "set-bad":
            expect(v.set, False, b"\x01\x02" + w(0) + b"\x09\x00")
        elif k == "append-bad":
            expect(v.append, False, b"\x09\x00")
        elif k in ("append", "append-encoding"):
            ok = not uniq or w(op[1]) not in m
            expect(v.append, ok, e(op[1]) if k == "append" else w(op[1]))
            if ok:
                m.append(w(op[1]))
        elif k == "append-new":
            ok = not uniq or self.zero not in m
            expect(v.append, ok)
            if ok:
                m.append(self.zero)
        elif k == "insert":
            ok = not uniq or w(op[2]) not in m
            expect(v.insert, ok, op[1], e(op[2]))
            if ok:
                m.insert(op[1], w(op[2]))
        elif k == "insert-other-type":
            outcome(v.insert, 0, cdt.OctetString())
        elif k == "remove":
            x = w(op[1])
            st, r = outcome(v.remove, e(op[1]))
            if x in m:
                o.eq(st, "ok", f"{op}: {r!r}", k)
                m.remove(x)
        elif k == "pop":
            i = -1 if op[1] is None else op[1]
            ok = -len(m) <= i < len(m)
            r = expect(v.pop, ok, *([] if op[1] is None else [op[1]]))
            if ok:
                o.eq(r.encoding, m.pop(i), f"{op}", k)
        elif k == "copy":
            if s.typed or not m:
                c = v.copy()
                o.eq(c.encoding, v.encoding, "copy", k)
                c.clear()
        self.look(s, o, op)

    def look(self, s, o, op=None):
        v, m = s.real, s.m
        o.eq(v.encoding, b"\x01" + bytes([len(m)]) + b"".join(m), f"encoding after {op}", "encode")
        o.eq(len(v), len(m), "length", "len")
        o.eq([x.encoding for x in v], m, "iteration", "iter")
        for i in range(-len(m), len(m)):
            o.eq(v[i].encoding, m[i], f"[{i}]", "index")
        for i in (len(m), -len(m) - 1):
            o.eq(outcome(lambda: v[i])[0], "err", f"[{i}]", "index")
        o.eq(v.decode(), [ref.py(ref.parse(x)[0]) for x in m], "built-in value", "decode")
        t = v.TYPE
        o.ok(t is None or all(isinstance(x, t) for x in v), "every element has the element type", "type")

    def canon(self, s):
        return tuple(s.m), s.typed, s.real.TYPE is None

    def invariant(self, s):
        from explorer import _Silent
        self.look(s, _Silent())


def mk(kind):
    @unit("list-" + kind)
    def run(ctx):
        L = ctx.pick(3, 4)
        ctx.bound(f"{kind}: every history over arrays of up to {L} elements (append, insert, remove, pop, set, clear, copy, wrong types, indexes -n-1..n) to the fixpoint of reachable contents, at most {ctx.pick(6, 10)} steps")
        ctx.bfs(kind, ArraySys(kind, L), ctx.pick(6, 10))


for kk in ("Nums", "Uniq", "Pairs", "Plain", "Param"):
    mk(kk)


@unit("set-type")
def set_type(ctx):
    ctx.bound("changing the element type empties the array; then elements of the new type only; arrays of arrays and structures built from lists, tuples, encodings and other arrays")

    def one(case, o):
        t, ok, bad = case
        v = cdt.Array(b"\x01\x02\x11\1\x11\2")
        v.set_type(t)
        o.eq((len(v), v.encoding, v.get_type()), (0, b"\x01\0", t), "after set_type", "type")
        v.append(t(ok))
        o.eq(v.encoding, b"\x01\x01" + ok, "element of the new type", "type")
        o.eq(outcome(v.append, bad)[0], "err", "element of another type", "type")
        o.eq(len(v), 1, "length", "type")
    ctx.all("types", [(cdt.Integer, b"\x0f\1", b"\x11\1"), (cdt.OctetString, b"\x09\1\1", b"\x0a\1\1"), (Pair, b"\2\2\x11\1\x0f\1", b"\2\1\x11\1"), (Nums, b"\1\1\x11\1", b"\x11\1")], one)

    def build(case, o):
        n, kind = case
        vals = list(range(n))
        enc = b"\x01" + ref.enc_len(n) + b"".join(bytes((0x11, x % 256)) for x in vals)
        src = {"list": [cdt.Unsigned(x % 256) for x in vals], "ints": [x % 256 for x in vals], "encodings": [bytes((0x11, x % 256)) for x in vals], "bytes": enc, "array": Nums(enc), "tail": enc + b"\x11\x05"}[kind]
        v = Nums(src)
        o.eq(v.encoding, enc, f"{n} elements from {kind}", "build")
        o.eq(v.decode(), [x % 256 for x in vals], "values", "build")
    def many(case, o):
        """long arrays: set, then one operation more"""
        n, op = case
        enc = b"\x01" + ref.enc_len(n) + b"".join(bytes((0x11, x % 256)) for x in range(n))
        for cls in (Nums, Uniq) if n <= 256 else (Nums,):
            for v in (cls(), cls(b"\x01\x01\x11\x07"), cls(enc)):
                v.set(enc)
                m = [x % 256 for x in range(n)]
                if op == "append":
                    k, _ = outcome(v.append, cdt.Unsigned((n - 1) % 256))
                    o.eq(k, "ok" if cls is Nums else "err", f"{n}: append one that is there", "long")
                    if cls is Nums:
                        m.append((n - 1) % 256)
                elif op == "first":
                    k, _ = outcome(v.append, cdt.Unsigned(0))
                    o.eq(k, "ok" if cls is Nums else "err", f"{n}: append one that is there", "long")
                    if cls is Nums:
                        m.append(0)
                elif op == "pop":
                    v.pop()
                    m.pop()
                elif op == "pop first":
                    v.pop(0)
                    m.pop(0)
                elif op == "remove":
                    v.remove(cdt.Unsigned(m[n // 2]))
                    m.remove(m[n // 2])
                elif op == "insert" and cls is Nums:
                    v.insert(n // 2, cdt.Unsigned(9))
                    m.insert(n // 2, 9)
                elif op == "set again":
                    v.set(v.encoding)
                    v.set(cls(enc).encoding)
                o.eq((v.decode(), len(v)), (m, len(m)), f"{n} elements, {op}", "long")
                o.eq(v.encoding, b"\x01" + ref.enc_len(len(m)) + b"".join(bytes((0x11, x)) for x in m), f"{n} elements, {op}", "long")
                o.eq([int(x) for x in v], m, f"{n} elements, {op} walked", "long")
    ctx.all("long", itertools.product((1, 2, 5, 9, 16, 17, 31, 33, 63, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600), ("append", "first", "pop", "pop first", "remove", "insert", "set again")), many)
    def from_array(case, o):
        """an array made from another array, of any size; the element type given is kept"""
        n, how = case
        T = cdt.Unsigned
        enc = b"\x01" + ref.enc_len(n) + b"\x11\x07" * n
        src = cdt.Array(enc, type_=T)
        v = {"array": lambda: cdt.Array(src, type_=T), "typed array": lambda: Nums(src), "copy": src.copy, "bytes": lambda: cdt.Array(enc, type_=T), "list": lambda: cdt.Array([7] * n, type_=T), "set": lambda: (a := cdt.Array(type_=T)).set(enc) or a}[how]()
        o.eq((len(v), v.encoding == enc, v.decode() == [7] * n), (n, True, True), f"{n} elements from {how}", "from")
        if how != "copy" or n:
            o.ok(v.TYPE is T, f"{n} elements from {how}: element type {v.TYPE}", "from-type")
            o.eq(outcome(v.append, b"\x09\1\1")[0], "err", f"{n} elements from {how}: element of another type", "from-type")
            v.append(cdt.Unsigned(3))
            o.eq(v.decode()[-1], 3, "appended", "from")
    ctx.all("from", itertools.product((0, 1, 2, 127, 128, 256, 2000, 33000), ("array", "typed array", "copy", "bytes", "list", "set")), from_array)
    ctx.all("build", itertools.product((0, 1, 2, 127, 128, 255, 256, 300), ("list", "ints", "encodings", "bytes", "array", "tail")), build)


class Small(cdt.Unsigned, min=1, max=9):
    """a narrower element type with the tag of a wider one"""


class Four(cdt.OctetString):
    SIZE = 4


class Twin(cdt.Structure):
    a: cdt.Unsigned
    b: cdt.Integer


class Triple(cdt.Structure):
    a: cdt.Unsigned
    b: cdt.Integer
    c: cdt.Integer


@unit("foreign")
def foreign(ctx):
    """elements whose class is not the element type, though their tag is the same"""
    ctx.bound("arrays of a narrowed integer, a fixed-size string and a structure: 5 kinds of foreign elements each, by append, set, insert and constructor, at lengths 0 and 1")
    T = {"Small": (Small, [5, "5", b"\x11\5"], [cdt.Unsigned(0), cdt.Unsigned(10), 0, 10, b"\x11\x0a", cdt.Integer(5).encoding, "x"], b"\x11\5", b"\x11\2"),
         "Four": (Four, [cdt.OctetString("01020304"), "01 02 03 04", b"\x09\4\1\2\3\4"], [cdt.OctetString("010203"), cdt.OctetString("0102030405"), "01", b"\x09\3\1\2\3", b"\x0a\4abcd"], b"\x09\4\1\2\3\4", b"\x09\4\0\0\0\1"),
         "Pair": (Pair, [Twin((1, -1)), (1, -1), [1, -1], cdt.Structure(bytes.fromhex("020211010fff"))], [Triple((1, -1, 2)), (1,), (1, 2, 3), (300, 0), cdt.Structure(bytes.fromhex("020211011101")), cdt.Structure(b"\2\0")], bytes.fromhex("020211010fff"), bytes.fromhex("020211020f02"))}

    def one(case, o):
        kind, good, i, n, how = case
        E, goods, bads, wire, other = T[kind]
        x = (goods if good else bads)[i]
        t = type("A", (cdt.Array,), {"TYPE": E})
        a = t()
        if n:
            a.append(E(other))
        before = a.encoding
        if how == "append":
            st, e = outcome(a.append, x)
            want = [other] * n + [wire]
        elif how == "list":
            st, e = outcome(a.set, [x])
            want = [wire]
        else:
            st, e = outcome(t, [*a.values, x])
            want = [other] * n + [wire]
            if st == "ok":
                a = e
        if good:
            o.eq((st, a.encoding), ("ok", b"\1" + bytes([len(want)]) + b"".join(want)), f"{how} {x!r}", "foreign")
            o.ok(all(isinstance(el, E) for el in a), "every element has the element type", "foreign")
        else:
            o.eq((st, a.encoding), ("err", before), f"{how} {x!r}", "foreign")
    ctx.all("foreign", [(k, g, i, n, h) for k, v in T.items() for g in (True, False) for i in range(len(v[1 if g else 2])) for n in (0, 1) for h in ("append", "list", "new")], one)

"""P01: the byte cursor against a reference model (content, position, writability), all operation histories."""
import sys
import env
from explorer import unit, outcome, Mismatch

sys.set_int_max_str_digits(0)
bb = env.mod("types.byte_buffer")
ASSUMPTIONS = ["an explicit write length, where given, equals the length of the value"]
REFUSE = (BufferError, IndexError, ValueError, TypeError)


class Sys:
    def __init__(self, size, readonly, alphabet):
        self.size, self.ro, self.alpha = size, readonly, alphabet
        n = size
        ops = [("get",), ("get_uint8",), ("remaining",), ("frozen",)]
        lens = sorted({-1, 0, 1, 2, n, n + 1} | ({8, 9, n // 2, n - 1} if n > 8 else set()))
        poss = sorted({-1, 0, 1, n - 1, n, n + 1} | ({n // 2} if n > 8 else set()))
        ops += [("read", k) for k in lens] + [("get_uint", k) for k in lens]
        ops += [("read_pos", p, k) for p in poss for k in lens] + [("get_uint_pos", p, k) for p in poss for k in lens]
        ops += [("set_pos", p) for p in poss]
        ops += [("put_int", v) for v in (0, 1, 255, 256, -1)]
        vals = [b"", b"\xaa", b"\xaa\xbb", bytes(i + 1 & 0xff for i in range(n)), bytes(n + 1)]
        vals = list(dict.fromkeys(vals))
        ops += [("write", v, e) for v in vals for e in (False, True)]
        ops += [("write_pos", v, p, e) for v in vals for p in poss for e in (False, True)]
        ops += [("remaining_pos", p) for p in poss if 0 <= p <= n]
        ops += [("slice_write", b"\xcc")]
        self._ops = ops

    def fresh(self):
        data = bytes(0x10 + i & 0xff for i in range(self.size))
        if self.ro:
            real = bb.ByteBuffer.wrap(data)
        else:
            real = bb.ByteBuffer.allocate(self.size)
            if self.size:
                real.write(data)
                real.set_pos(0)
        return {"real": real, "data": bytearray(data), "pos": 0}

    def ops(self, s):
        return self._ops

    def apply(self, s, op, o):
        r, d, p, n = s["real"], s["data"], s["pos"], self.size
        k = op[0]
        want = "refuse"
        newpos = p
        if k in ("read", "get_uint"):
            call = lambda: bytes(r.read(op[1])) if k == "read" else r.get_uint(op[1])
            if 0 <= op[1] <= n - p:
                b = bytes(d[p:p + op[1]])
                want = b if k == "read" else int.from_bytes(b, "big")
                newpos = p + op[1]
        elif k in ("get", "get_uint8"):
            call = lambda: getattr(r, k)()
            if p < n:
                want = bytes(d[p:p + 1]) if k == "get" else d[p]
                newpos = p + 1
        elif k in ("read_pos", "get_uint_pos"):
            call = lambda: bytes(r.read_pos(op[1], op[2])) if k == "read_pos" else r.get_uint_pos(op[1], op[2])
            if op[2] >= 0 and 0 <= op[1] <= n - op[2]:
                b = bytes(d[op[1]:op[1] + op[2]])
                want = b if k == "read_pos" else int.from_bytes(b, "big")
        elif k == "set_pos":
            call = lambda: r.set_pos(op[1])
            if 0 <= op[1] <= n:
                want, newpos = None, op[1]
        elif k == "put_int":
            call = lambda: r.put_int(op[1])
            if 0 <= op[1] <= 255 and p < n and not self.ro:
                want, newpos = 1, p + 1
                d[p] = op[1]
        elif k == "write":
            call = lambda: r.write(op[1], len(op[1])) if op[2] else r.write(op[1])
            if len(op[1]) <= n - p and not self.ro:
                want, newpos = len(op[1]), p + len(op[1])
                d[p:newpos] = op[1]
        elif k == "write_pos":
            v, q = op[1], op[2]
            call = lambda: r.write_pos(v, q, len(v)) if op[3] else r.write_pos(v, q)
            if 0 <= q <= n - len(v) and not self.ro:
                want = len(v)
                d[q:q + len(v)] = v
        elif k == "remaining":
            call, want = (lambda: r.remaining()), n - p
        elif k == "remaining_pos":
            call, want = (lambda: r.remaining(op[1])), n - op[1]
        elif k == "frozen":
            def call():
                f = r.frozen()
                st, v = outcome(f.put_int, 0)
                if st == "ok" and n:
                    raise Mismatch("a frozen copy accepted a write", "frozen")
                if n and not self.ro:       # what is written to the buffer afterwards is not seen in the frozen one
                    r.write_pos(bytes([d[0] ^ 0xff]), 0)
                    seen = bytes(f)
                    r.write_pos(bytes(d[:1]), 0)
                    if seen != bytes(d):
                        raise Mismatch("a frozen copy changed with the buffer", "frozen")
                return bytes(f), f.get_pos()
            want = (bytes(d), 0)
        elif k == "slice_write":
            def call():
                v = r.slice()
                if len(v) != n - p or bytes(v) != bytes(r)[p:]:
                    raise Mismatch("slice differs from the rest of the buffer", "slice")
                return v.write(op[1])
            if p < n and not self.ro:      # a slice is a window on the same bytes
                d[p] = op[1][0]
                want = 1
        st, v = outcome(call)
        if st == "err" and isinstance(v, Mismatch):
            raise v
        zero = self.ro and k in ("write", "write_pos") and not op[1]
        if want == "refuse":
            if st == "ok" and not (zero and v == 0):
                raise Mismatch(f"{op}: must be refused, gave {v!r}", k)
            if st == "err" and not isinstance(v, REFUSE):
                raise v
            o("refused")
        else:
            if st == "err":
                raise v
            o.eq(v, want, str(op), k)
        s["pos"] = newpos
        o.eq(bytes(r), bytes(d), f"content after {op}", k)
        o.eq(r.get_pos(), newpos, f"position after {op}", k)
        o.eq(len(r), n, "length")

    def canon(self, s):
        return bytes(s["data"]), s["pos"]

    def invariant(self, s):
        pass


@unit("large", 4)
def large(ctx):
    sizes = ctx.pick((16, 65, 130, 255, 256, 257, 300, 600), (16, 33, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 600, 2100))
    ctx.bound(f"buffers of {len(sizes)} sizes to {sizes[-1]} and of 65540 octets, writable and read-only: every history of up to 2 operations at the start, the middle and the end")
    for i, n in enumerate(sizes):
        for ro in (False, True):
            ctx.bfs(f"histories of {n}{' read-only' if ro else ''}", Sys(n, ro, None), 2, max_states=400)
    for ro in (False, True):
        ctx.bfs(f"histories of 65540{' read-only' if ro else ''}", Sys(65540, ro, None), 1, max_states=400)


for _n in (0, 1, 2, 3, 4):
    for _ro in (False, True):
        def go(ctx, n=_n, ro=_ro):
            d = ctx.pick(3, 5) if n > 2 else ctx.pick(6, 12)
            ctx.bound(f"buffer of {n} bytes, {'read-only' if ro else 'writable'}: every operation history up to depth {d}, states merged when content and position coincide")
            ctx.bfs("histories", Sys(n, ro, None), d, max_states=ctx.pick(800, 20000))
        unit(f"buffer{_n}{'ro' if _ro else ''}", 1 if _n < 3 else 2)(go)

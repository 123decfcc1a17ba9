"""P16: joining the segments of a long information field, against a reference walk over the send numbers."""
import collections
import itertools
import env
import hd
from explorer import unit, outcome, rejects, Mismatch

fr = env.mod("hdlc.frame")
D, S = fr.Address(upper_address=1), fr.Address(upper_address=0x10)


def mk(ns, seg, pf, nr, info):
    return fr.Frame(DA=D, SA=S, control=fr.Control(nr << 5 | pf << 4 | ns << 1), info=info, is_segmentation=seg)


def rr(nr):
    return fr.Frame(DA=D, SA=S, control=fr.Control(nr << 5 | 0x11), info=b"", is_segmentation=False)


def ref(items):
    """items: None for a frame without information, else (ns, seg, info); -> joined octets or None, frames left"""
    q = list(items)
    while q and q[0] is None:
        q.pop(0)
    if not q:
        return None, None
    ns, seg, out = q.pop(0)
    while seg:
        while q and (q[0] is None or q[0][0] != (ns + 1) % 8):
            q.pop(0)
        if not q:
            return None, None
        ns, seg, i = q.pop(0)
        out += i
    return out, len(q)


def check(items, o, nr=0, pf=lambda i, last: 1, wire=False, shift=1, same=None):
    n = len(items)
    frames = collections.deque()
    model = []
    for i, it in enumerate(items):
        if it is None:
            f = rr(nr)
        else:
            ns, seg = it
            info = bytes([0x41 + i]) * ((i + shift) % 3) if same is None else same
            f = mk(ns, seg, pf(i, not seg), nr, info)
            model.append((ns, seg, info))
        if it is None:
            model.append(None)
        if wire:
            f = fr.Frame.try_from(bytearray(f.content))
        frames.append(f)
    want, left = ref(model)
    if want is None:
        return rejects(o, lambda: fr.Frame.join_info(frames), (ValueError, IndexError), f"joining {items}", "incomplete")
    o.eq(bytes(fr.Frame.join_info(frames)), want, f"joining {items}", "joined")
    o.eq(len(frames), left, "frames left for the next answer", "left")


@unit("segments", shards=4)
def segments(ctx):
    n = ctx.pick(5, 6)
    ctx.bound(f"every sequence of up to {n} frames drawn from send numbers 0..3, with and without the segmentation bit, and frames without information; every start number for runs up to 20 segments; poll bit set in each, in the last only, or in none; at every receive number")
    kinds = [(ns, s) for ns in range(3 if ctx.quick else 4) for s in (True, False)] + [None]
    ctx.all("sequences", (c for k in range(1, n + 1) for c in itertools.product(kinds, repeat=k)), lambda c, o: check(c, o))
    ctx.all("sequences with empty segments", (c for k in range(1, n) for c in itertools.product(kinds, repeat=k)), lambda c, o: (check(c, o, shift=0), check(c, o, shift=2)))

    def run(c, o):
        start, count, nr, style, wire = c
        pf = {"each": lambda i, last: 1, "last": lambda i, last: int(last), "none": lambda i, last: 0}[style]
        check([((start + i) % 8, i < count - 1) for i in range(count)], o, nr, pf, wire)
    ctx.all("runs", itertools.product(range(8), range(1, 21), range(8), ("each", "last", "none"), (False, True)), run)

    def long(c, o):
        """answers of many octets"""
        start, count, size = c
        infos = [bytes([i % 251]) * (size + i % 3) for i in range(count)]
        frames = collections.deque(mk((start + i) % 8, i < count - 1, 1, 0, x) for i, x in enumerate(infos))
        o.eq(bytes(fr.Frame.join_info(frames)), b"".join(infos), f"{count} segments of about {size} octets", "joined")
        o.eq(len(frames), 0, "frames left", "left")
    ctx.all("long", [(s, n, z) for s in (0, 5) for n in (1, 2, 7, 8, 9, 16, 17, 33, 64, 100, 257) for z in (1, 120, 248, 1000, 2030)], long)

    def alike(c, o):
        """segments with equal contents are still different segments"""
        start, count, same = c
        check([((start + i) % 8, i < count - 1) for i in range(count)], o, same=same)
        check([((start + i // 2) % 8, i < 2 * count - 2) for i in range(2 * count)], o, same=same)
    ctx.all("alike", itertools.product(range(8), range(1, 21), (b"", b"\0", b"\xff" * 3, bytes(120))), alike)

    def again(c, o):
        """a retransmitted or lost segment"""
        start, count, i, what = c
        seq = [((start + k) % 8, k < count - 1) for k in range(count)]
        if what == "twice":
            seq.insert(i, seq[i])
        elif what == "lost":
            del seq[i]
        elif what == "rr":
            seq.insert(i, None)
        else:
            seq[i], seq[(i + 1) % count] = seq[(i + 1) % count], seq[i]
        if seq:
            check(seq, o)
    ctx.all("faults", [(s, n, i, w) for s in range(8) for n in range(1, 10) for i in range(n) for w in ("twice", "lost", "rr", "swap")], again)
    ctx.all("two answers", [(s, a, b) for s in range(8) for a in range(1, 5) for b in range(1, 5)],
            lambda c, o: check([((c[0] + k) % 8, k not in (c[1] - 1, c[1] + c[2] - 1)) for k in range(c[1] + c[2])], o))

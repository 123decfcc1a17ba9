"""P35: transfer of an image in blocks - the blocks are the image, in order, whatever the history of the transfer."""
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")

ID = (b"", b"A", b"AB", b"default")


def make():
    return col.Collection().add(ut.CosemClassId(18), cdt.Unsigned(0), cst.LogicalName("0.0.44.0.0.255"))


def image(n):
    return bytes((i * 37 + 11) & 0xff for i in range(n))


def enc_len(n):
    if n < 128:
        return bytes([n])
    k = 1 if n < 256 else 2 if n < 65536 else 4
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def block(k, value):
    return b"\x02\x02" + r.u32(k) + b"\x09" + enc_len(len(value)) + value


def cut(img, size):
    return [img[i:i + size] for i in range(0, len(img), size)]


def enc(v):
    return bytes(v.encoding)


def check(x, blocks, k, ident, img, o, what):
    """x is ready to send block k of these blocks"""
    o.eq(x.get_n_blocks(), len(blocks), f"{what}: number of blocks", "count")
    o.eq(x.is_image_exist, bool(blocks), f"{what}: image exists", "exists")
    o.eq(x.current_block_transfer, k, f"{what}: current block", "number")
    o.eq(x.sent_blocks_part, k / len(blocks) if blocks else 0, f"{what}: part sent", "part")
    if blocks:
        o.eq(enc(x.get_meth(2)), block(k, blocks[k]), f"{what}: parameter of the block transfer", "block")
        o.eq(enc(x.image_block_transfer), block(k, blocks[k]), f"{what}: parameter of the block transfer", "block")
        o.eq(enc(x.get_meth(1)), b"\x02\x02" + b"\x09" + enc_len(len(ident)) + ident + r.u32(len(img)), f"{what}: parameter of the initiation", "initiate")


@unit("transfers", 4)
def transfers(ctx):
    def body(case, o):
        n, size, ident, *kind = case
        img = image(n) if not kind else {"zeros": bytes(n), "ones": b"\xff" * n, "period": bytes(i % size & 0xff for i in range(n)), "period 2": bytes(i // size % 2 for i in range(n)), "text": b"30" * (n // 2) + b"0" * (n & 1), "tags": (b"\x81\x09\x02\x00" * (n // 4 + 1))[:n]}[kind[0]]
        want = cut(img, size)
        x = make()
        x.set_attr(2, r.u32(size))
        x.set_image_for_update(img, bytearray(ident))
        check(x, want, 0, ident, img, o, "after the image was set")
        got = []
        for k in range(len(want) + 1):
            b = enc(x.image_block_transfer)
            o.eq(b, block(k, want[k]), f"block {k} of {n} octets by {size}", "block")
            got.append(x.image_block_transfer.image_block_value.contents)
            st, e = outcome(x.set_next_block)
            if k == len(want) - 1:
                o.ok(st == "err" and isinstance(e, (StopIteration, RuntimeError)), f"there is no block after {k}: {e!r}", "end")
                check(x, want, k, ident, img, o, "after the end")
                break
            o.ok(st == "ok", f"no block after {k} of {len(want)}: {e!r}", "next")
            check(x, want, k + 1, ident, img, o, f"at block {k + 1}")
        o.eq(b"".join(got), img, "blocks together", "image")
        o.eq(enc(x.get_attr(2)), r.u32(size), "block size", "changed")
        if n < 60:
            for k in itertools.chain(range(-3, 0), range(len(want) - 1, -1, -1), (len(want), len(want) + 1, 1 << 32)):
                before = (enc(x.get_meth(1)), enc(x.get_meth(2)))
                if 0 <= k < len(want):
                    x.set_block_for_transfer(k)
                    check(x, want, k, ident, img, o, f"block {k} asked for")
                else:
                    rejects(o, lambda: x.set_block_for_transfer(k), Exception, f"block {k} of {len(want)}", "index")
                    o.eq((enc(x.get_meth(1)), enc(x.get_meth(2)), x.get_n_blocks()), (*before, len(want)), f"after the refusal of block {k}", "index")
        x.clear_image()
        o.eq((x.get_n_blocks(), x.is_image_exist, x.sent_blocks_part), (0, False, 0), "cleared", "clear")
        rejects(o, lambda: x.set_block_for_transfer(0), Exception, "block 0 without image", "index")
    ns = ctx.pick((1, 2, 3, 15, 16, 17, 31, 32, 33, 48, 127, 128, 129, 255, 256, 257, 1000), range(1, 300))
    ctx.all("whole image", [(n, s, i) for n in ns for s in (1, 2, 3, 16, 127, 128, 129, 200, 256, 5000) for i in (ID if n < 40 else ID[1:2]) if n / s < 300] + [(70000, 300, b"big"), (70000, 65536, b"big")], body)
    ctx.all("images that repeat themselves", [(n, s, b"A", kind) for n in ctx.pick((1, 2, 4, 7, 8, 11, 16, 17, 33, 40, 50), range(1, 60)) for s in (1, 2, 3, 4, 16, 17, 60) for kind in ("zeros", "ones", "period", "period 2", "text", "tags")], body)

    def sizes(size, o):
        x = make()
        x.set_attr(2, r.u32(size))
        if size == 0:
            rejects(o, lambda: x.set_image_for_update(image(5), bytearray(b"A")), Exception, "blocks of no octets", "size")
    ctx.all("block of 0 octets", (0, 1), sizes)

    def again(case, o):
        """the same image set again at block k goes on there or at the one before it"""
        n, size, k, ident = case
        x, img = make(), image(n)
        want = cut(img, size)
        x.set_attr(2, r.u32(size))
        x.set_image_for_update(img, bytearray(b"A"))
        x.set_block_for_transfer(k)
        x.set_image_for_update(img, bytearray(ident))
        at = x.current_block_transfer
        o.ok(at in ((k, max(0, k - 1)) if ident == b"A" else (0,)), f"image of {len(want)} blocks set again at block {k} as {ident}: block {at}", "resume")
        check(x, want, at, ident, img, o, f"set again at block {k}")
        for i in range(at, min(at + 3, len(want) - 1)):
            x.set_next_block()
            check(x, want, i + 1, ident, img, o, f"set again, block {i + 1}")
    ctx.all("set again at each block", [(n, size, k, i) for n, size in ((40, 2), (300, 1), (600, 16)) for k in range(-(-n // size)) for i in (b"A", b"AB", b"")], again)

    def many(case, o):
        n, ks = case
        x, img = make(), image(n)
        x.set_attr(2, r.u32(1))
        x.set_image_for_update(img, bytearray(b"A"))
        want = cut(img, 1)
        check(x, want, 0, b"A", img, o, "first block")
        for k in ks:
            x.set_block_for_transfer(k)
            check(x, want, k, b"A", img, o, f"block {k} of {n}")
            st, e = outcome(x.set_next_block)
            o.eq(st, "ok" if k + 1 < n else "err", f"block after {k} of {n}", "next")
            check(x, want, min(k + 1, n - 1), b"A", img, o, f"block after {k} of {n}")
    ctx.all("many blocks", [(n, sorted({k for m in (1, 128, 256, 512, 4096, 0x8000, 0x10000, n) for k in (m - 2, m - 1, m) if 0 <= k < n})) for n in (0x10000, 0x10003)], many)
    ctx.bound("images of 17 lengths to 1000 (thorough all to 299) and 70000 octets x 10 block sizes x 4 identifiers, walked to the end, also images of equal, repeated, text-like blocks; images of 65536 and 65539 blocks around powers of two; images set again at every block; every block asked for, numbers outside refused")


IMGS = (image(10), image(7)[::-1], bytes(7), image(1))


class Transfer:
    """state: object, model (image, identifier of the last image, current block, blocks)"""

    def fresh(self):
        x = make()
        x.set_attr(2, r.u32(3))
        return {"x": x, "img": None, "id": x.image_transfer_initiate.image_identifier.contents, "k": 0, "blocks": [], "size": 3, "sent": None}

    def ops(self, s):
        return [("set", i, j) for i in range(len(IMGS)) for j in (b"A", b"B")] + [("next",), ("clear",)] + [("block", k) for k in (0, 1, 3, 4)] + [("size", 3), ("size", 2)]

    def apply(self, s, op, o):
        x = s["x"]
        if op[0] == "size":
            x.set_attr(2, r.u32(op[1]))
            s["size"] = op[1]
        elif op[0] == "set":
            k0 = x.current_block_transfer
            x.set_image_for_update(IMGS[op[1]], bytearray(op[2]))
            s["blocks"] = cut(IMGS[op[1]], s["size"])
            k = x.current_block_transfer
            if op[2] != s["id"] or k0 >= len(s["blocks"]):
                allowed = (0,)
            else:
                allowed = (k0, max(0, k0 - 1))     # the last one may have to be sent again
            if k not in allowed:
                raise Mismatch(f"image {op[1]} set at block {k0} ({'the same' if op[2] == s['id'] else 'another'} identifier, {len(s['blocks'])} blocks): block {k}, expected {allowed}", "resume")
            s.update(img=IMGS[op[1]], id=op[2], k=k, sent=(k, s["blocks"][k]))
        elif op[0] == "clear":
            x.clear_image()
            s["blocks"] = []
        else:
            k = s["k"] + 1 if op[0] == "next" else op[1]
            st, e = outcome(x.set_next_block) if op[0] == "next" else outcome(x.set_block_for_transfer, k)
            if k < len(s["blocks"]):
                if st != "ok":
                    raise Mismatch(f"{op}: {e!r}, there are {len(s['blocks'])} blocks", "refused")
                s["k"], s["sent"] = k, (k, s["blocks"][k])
            elif st == "ok":
                raise Mismatch(f"{op}: accepted, there are {len(s['blocks'])} blocks", "accepted")

    def canon(self, s):
        x = s["x"]
        return s["img"], s["id"], s["k"], len(s["blocks"]), tuple(s["blocks"]), s["size"], enc(x.get_meth(1)), enc(x.get_meth(2))

    def invariant(self, s):
        x = s["x"]
        if (x.get_n_blocks(), x.is_image_exist, x.current_block_transfer) != (len(s["blocks"]), bool(s["blocks"]), s["k"]):
            raise Mismatch(f"{x.get_n_blocks()} blocks, at {x.current_block_transfer}; expected {len(s['blocks'])} at {s['k']}", "state")
        if s["sent"] is not None:
            if enc(x.get_meth(2)) != block(*s["sent"]):
                raise Mismatch(f"block transfer {enc(x.get_meth(2)).hex()}, expected {block(*s['sent']).hex()}", "block")
            want = b"\x02\x02" + b"\x09" + enc_len(len(s["id"])) + s["id"] + r.u32(len(s["img"]))
            if enc(x.get_meth(1)) != want:
                raise Mismatch(f"initiation {enc(x.get_meth(1)).hex()}, expected {want.hex()}", "initiate")
        p = x.sent_blocks_part
        if p != (s["k"] / len(s["blocks"]) if s["blocks"] else 0):
            raise Mismatch(f"part sent {p}", "part")


@unit("histories")
def histories(ctx):
    ctx.bfs("transfer", Transfer(), ctx.pick(5, 8))
    ctx.bound("histories of setting 4 images under 2 identifiers, next block, a chosen block, clearing, two block sizes to depth 5 (thorough 8)")

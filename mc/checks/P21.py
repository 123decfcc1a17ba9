"""P21: firmware containers - encryption with an integrity check - under every single-octet change and cut."""
import itertools
import os
import pickle
import env
from explorer import unit, outcome, rejects

fw = env.mod("firmwares")
cp = env.mod("config_parser")
KEYS = {16: b"00000000password", 24: bytes(range(24)), 32: bytes(range(100, 132))}
DATA = bytes((i * 37 + 11) & 0xFF for i in range(70100))


def enc(key, *datas):
    c = fw.init_cipher(key)
    return [fw.encrypt(c, d) for d in datas]


def dec(key, *texts):
    c = fw.init_cipher(key)
    return [fw.decrypt(c, t) for t in texts]


REFUSE = (KeyError, ValueError)


@unit("cipher", shards=4)
def cipher(ctx):
    ctx.bound("data of 0..300 octets and around 1024, 4096 and 65536 with each key size; sequences of up to 3 images with one cipher; for 0, 1, 15, 16, 17, 40 octets: every change of every octet of the ciphertext after the first block, and of single bits in the first two blocks, every cut, every other key differing in one bit")

    def one(c, o):
        k, n = c
        t, = enc(KEYS[k], DATA[:n])
        o.eq(dec(KEYS[k], t), [DATA[:n]], f"{n} octets with a {k}-octet key", "round trip")
        o.ok(len(t) % 16 == 0 and len(t) >= n + 48, "whole blocks", "round trip")
        o.ok(n < 8 or DATA[:n] not in t, "data are not readable in the ciphertext", "secrecy")
    ctx.all("lengths", [(k, n) for k in KEYS for n in (*range(301), 1023, 1024, 1025, 4095, 4096, 4097, 65519, 65535, 65536, 65537, 70000)], one)

    def seq(c, o):
        ds = [DATA[i:i + n] for i, n in enumerate(c)]
        t = enc(KEYS[16], *ds)
        o.eq(dec(KEYS[16], *t), ds, f"images of {c} octets with one cipher", "sequence")
        for i, x in enumerate(t):
            o.eq(dec(KEYS[16], x), [ds[i]], "one image alone", "sequence")
        o.eq(dec(KEYS[16], *reversed(t)), ds[::-1], "images in another order", "sequence")
    ctx.all("sequences", [c for k in (1, 2, 3) for c in itertools.product((0, 1, 15, 16, 17, 100), repeat=k)], seq)
    sizes = (0, 1, 15, 16, 17, 40)
    texts = {n: enc(KEYS[16], DATA[:n])[0] for n in sizes}

    def change(c, o):
        n, i, x = c
        t = bytearray(texts[n])
        t[i] ^= x
        rejects(o, lambda: dec(KEYS[16], bytes(t)), REFUSE, f"octet {i} of the ciphertext of {n} octets changed by {x:#x}", "tampering")
    bits = [1 << b for b in range(8)] + [0xFF]
    ctx.all("changes", [(n, i, x) for n in sizes for i in range(len(texts[n])) for x in (bits if ctx.quick else range(1, 256))], change)

    def cut(c, o):
        n, a, b = c
        t = texts[n]
        rejects(o, lambda: dec(KEYS[16], t[a:b]), REFUSE, f"ciphertext of {n} octets cut to {a}..{b} of {len(t)}", "cut")
    ctx.all("cuts", [(n, 0, b) for n in sizes for b in range(len(texts[n]))] + [(n, a, len(texts[n])) for n in sizes for a in range(1, len(texts[n])) if a % 16], cut)

    def key(c, o):
        n, bit = c
        k = bytearray(KEYS[16])
        k[bit // 8] ^= 1 << bit % 8
        rejects(o, lambda: dec(bytes(k), texts[n]), REFUSE, f"key with bit {bit} changed", "wrong key")
    ctx.all("keys", [(n, b) for n in sizes for b in range(128)], key)


@unit("container")
def container(ctx):
    ctx.bound("every container with up to 2 firmware and 2 boot images, containers of up to 40 of each, key written as text or hexadecimal; every damaged image, wrong key, wrong container name, missing or cut file; unknown manufacturer")
    path = os.path.join(env.scratch(), "fw.dat")

    def conf(codec, value, man="KPZ"):
        cp.config["DLMS"]["firmwares"] = [{"man": "ZZZ", "path": path + ".none", "key": {"codec": "ascii", "value": "x"}}, {"man": man, "path": path, "key": {"codec": codec, "value": value}}]

    def fresh():
        getattr(fw.get_firmware, "cache_clear", lambda: None)()

    def build(fws, boots, key=KEYS[16], name="CryptoFirmware_1"):
        c = fw.init_cipher(key)
        a = {k: fw.encrypt(c, d) for k, d in fws.items()}
        b = {k: fw.encrypt(c, d) for k, d in boots.items()}
        return name, a, b

    def save(obj):
        with open(path, "wb") as f:
            pickle.dump(obj, f)

    F = {((1, 1, 4), "a"): DATA[:100], ((1, 2, 0), ""): DATA[:7]}
    B = {(1, "b"): DATA[5:50], (2, "b"): b""}

    def one(c, o):
        nf, nb, hexa = c
        f, b = dict(list(F.items())[:nf]), dict(list(B.items())[:nb])
        save(build(f, b))
        conf("hex" if hexa else "ascii", KEYS[16].hex() if hexa else KEYS[16].decode())
        fresh()
        o.eq(fw.get_firmware(b"KPZ"), (f, b), f"container with {nf} firmware and {nb} boot images", "container")
        o.eq(fw.get_firmware(b"KPZ"), (f, b), "asked again", "container")
        for other in (b"QQQ", b"KPZ1", b"KP", b"Z", b"", b"kpz", b"KPZ\0", b" KPZ"):
            o.eq(fw.get_firmware(other), None, f"unknown manufacturer {other}", "container")
    ctx.all("good", itertools.product(range(3), range(3), (False, True)), one)

    def more(c, o):
        nf, nb = c
        one((0, 0, False), o)
        f = {((1, 1 + i // 5, i), "ab"[i % 2]): DATA[i:60 + 7 * i] for i in range(nf)}
        b = {(i, "b"): DATA[2 * i:2 * i + 33] for i in range(nb)}
        save(build(f, b))
        conf("ascii", KEYS[16].decode())
        fresh()
        o.eq(fw.get_firmware(b"KPZ"), (f, b), f"container with {nf} firmware and {nb} boot images", "container")
    ctx.all("many images", [(a, b) for a in (0, 3, 4, 9, 17, 40) for b in (0, 3, 4, 9, 17, 40)], more)

    def several(order, o):
        """manufacturers whose names begin alike, each with its own container and key"""
        sets = {m: ({((1, i, 0), m): DATA[i:40 + i]}, {(i, m): DATA[:i]}) for i, m in enumerate(("KPZ", "KPZ1", "KP", "KPZ12"))}
        keys = dict(zip(sets, (KEYS[16], KEYS[24], KEYS[32], bytes(16))))
        cp.config["DLMS"]["firmwares"] = []
        for m in order:
            with open(f"{path}.{m}", "wb") as f:
                pickle.dump(build(*sets[m], key=keys[m]), f)
            cp.config["DLMS"]["firmwares"].append({"man": m, "path": f"{path}.{m}", "key": {"codec": "hex", "value": keys[m].hex()}})
        fresh()
        for m in (*sets, *reversed(sets)):
            o.eq(fw.get_firmware(m.encode()), sets[m] if m in order else None, f"firmware of {m} with {order}", "manufacturer")
        for m in order:
            os.remove(f"{path}.{m}")
    ctx.bound("every order of up to 4 manufacturers whose names begin alike")
    ctx.all("several", [p for k in range(5) for p in itertools.permutations(("KPZ", "KPZ1", "KP", "KPZ12"), k)], several)

    def bad(c, o):
        what, i = c
        obj = build(F, B, *((bytes(16),) if what == "key" else ()), **({"name": ("Firmware_1", "CryptoFirmware", "CryptoFirmware_1_2", "cryptofirmware_1")[i]} if what == "name" else {}))
        conf("ascii", KEYS[16].decode())
        if what == "image":
            part, k = [(p, k) for p in (1, 2) for k in obj[p]][i % 4]
            t = bytearray(obj[part][k])
            t[(i // 4) % len(t)] ^= 0x10
            obj[part][k] = bytes(t)
        elif what == "codec":
            conf(("utf", "", "HEX")[i], KEYS[16].decode())
        save(obj)
        if what == "cut":
            with open(path, "r+b") as f:
                f.truncate(i)
        fresh()
        rejects(o, lambda: fw.get_firmware(b"KPZ"), (ValueError,), f"container with bad {what} {i}", "bad container")
    save(build(F, B))
    n = os.path.getsize(path)
    ctx.all("bad", [("image", i) for i in range(4 * 64)] + [("key", 0)] + [("name", i) for i in range(4)] + [("codec", i) for i in range(3)] + [("cut", i) for i in range(n - 1)], bad)

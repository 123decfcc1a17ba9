"""Independent reference for COSEM data on the wire (A-XDR): lengths, tags, python values."""
import datetime
import struct

INT = {5: (4, True), 6: (4, False), 15: (1, True), 16: (2, True), 17: (1, False), 18: (2, False), 20: (8, True), 21: (8, False)}
STR = (9, 10, 12)
FIXED = {3: 1, 13: 1, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4, 0: 0, **{k: v[0] for k, v in INT.items()}}


class Bad(Exception):
    pass


def enc_len(n):
    if n < 0x80:
        return bytes([n])
    k = next(k for k in (1, 2, 4, 5, 6, 7, 8, 9) if n < 1 << 8 * k)
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def dec_len(b, i):
    if i >= len(b):
        raise Bad("no length")
    n = b[i]
    if n < 0x80:
        return n, i + 1
    k = n & 0x7f
    if i + 1 + k > len(b):
        raise Bad("length cut")
    return int.from_bytes(b[i + 1:i + 1 + k], "big"), i + 1 + k


def parse(b, i=0):
    """-> (tree, next index); tree = (tag, payload)"""
    if i >= len(b):
        raise Bad("empty")
    t = b[i]
    if t in FIXED:
        n = FIXED[t]
        if i + 1 + n > len(b):
            raise Bad("cut")
        return (t, bytes(b[i + 1:i + 1 + n])), i + 1 + n
    if t in STR:
        n, j = dec_len(b, i + 1)
        if j + n > len(b):
            raise Bad("cut")
        return (t, bytes(b[j:j + n])), j + n
    if t == 4:
        n, j = dec_len(b, i + 1)
        k = (n + 7) // 8
        if j + k > len(b):
            raise Bad("cut")
        return (t, (n, bytes(b[j:j + k]))), j + k
    if t in (1, 2):
        n, j = dec_len(b, i + 1)
        els = []
        for _ in range(n):
            e, j = parse(b, j)
            if t == 1 and els and els[0][0] != e[0]:
                raise Bad("mixed array")
            els.append(e)
        return (t, tuple(els)), j
    raise Bad(f"tag {t}")


def wire(tree):
    """canonical encoding"""
    t, p = tree
    if t in FIXED:
        return bytes([t]) + p
    if t in STR:
        return bytes([t]) + enc_len(len(p)) + p
    if t == 4:
        return bytes([t]) + enc_len(p[0]) + p[1]
    return bytes([t]) + enc_len(len(p)) + b"".join(map(wire, p))


def dt_ok(c):
    """is this a valid 12-octet date-time (same for date: 5 octets, time: 4)"""
    return date_ok(c[:5]) and time_ok(c[5:9])


def time_ok(c):
    h, m, s, f = c
    return (h < 24 or h == 255) and (m < 60 or m == 255) and (s < 60 or s == 255) and (f < 100 or f == 255)


def date_ok(c):
    y = c[0] << 8 | c[1]
    mo, d, w = c[2], c[3], c[4]
    if not (1 <= y <= 9999 or y == 0xffff):
        return False
    if not (1 <= mo <= 12 or mo in (0xfd, 0xfe, 0xff)):
        return False
    if not (1 <= d <= 31 or d in (0xfd, 0xfe, 0xff)):
        return False
    if not (1 <= w <= 7 or w == 0xff):
        return False
    if 1 <= mo <= 12 and 1 <= d <= 31:
        yy = y if y != 0xffff else 2000
        try:
            dt = datetime.date(yy, mo, d)
        except ValueError:
            return False
        if y != 0xffff and w != 0xff and dt.weekday() != w - 1:
            return False
    return True


def py(tree):
    """the built-in python value decode() stands for"""
    t, p = tree
    if t == 0:
        return None
    if t == 1:
        return [py(e) for e in p]
    if t == 2:
        return tuple(py(e) for e in p)
    if t == 3:
        return p != b"\0"
    if t == 4:
        return [p[1][i // 8] >> 7 - i % 8 & 1 for i in range(p[0])]
    if t in INT:
        return int.from_bytes(p, "big", signed=INT[t][1])
    if t == 9:
        return p
    if t == 10:
        return bytes(c if c >= 32 else 63 for c in p).decode("cp1251")
    if t == 22:
        return p[0]
    if t == 23:
        return struct.unpack(">f", p)[0]
    if t == 24:
        return struct.unpack(">d", p)[0]
    z = lambda v, d: d if v in (0xff, 0xfe, 0xfd) else v
    if t in (25, 26):
        y = p[0] << 8 | p[1]
        y = datetime.MINYEAR if y == 0xffff else y
        if t == 26:
            return datetime.date(y, z(p[2], 1), z(p[3], 1))
        h, m, s, f = [0 if v == 0xff else v for v in p[5:9]]
        dev = int.from_bytes(p[9:11], "big", signed=True)
        return datetime.datetime(y, z(p[2], 1), z(p[3], 1), h, m, s, f * 10000, datetime.timezone.utc if dev == -0x8000 else datetime.timezone(datetime.timedelta(minutes=dev)))
    if t == 27:
        h, m, s, f = [0 if v == 0xff else v for v in p]
        return datetime.time(h, m, s, f * 10000)
    raise Bad(f"no python value for {t}")

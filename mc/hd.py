"""Independent HDLC (ISO/IEC 13239 frame format type 3) encoder."""


def _tab():
    t = []
    for i in range(256):
        for _ in range(8):
            i = i >> 1 ^ 0x8408 if i & 1 else i >> 1
        t.append(i)
    return t


_T = _tab()


def crc(b):
    """X.25 CRC, least significant octet first"""
    v = 0xFFFF
    for x in b:
        v = v >> 8 ^ _T[(v ^ x) & 0xFF]
    v ^= 0xFFFF
    return bytes((v & 0xFF, v >> 8))


def addr(upper, lower=None, size=None):
    """octets of the address, None when it cannot be written"""
    if upper < 0 or upper > 0x3FFF or lower is not None and not 0 <= lower <= 0x3FFF:
        return None
    need = 4 if upper > 0x7F or (lower or 0) > 0x7F else 2 if lower else 1
    n = size or need
    if n < need or n not in (1, 2, 4) or n > 1 and lower is None and need == 1:
        return None
    lo = lower or 0
    parts = {1: [upper], 2: [upper, lo], 4: [upper >> 7, upper & 0x7F, lo >> 7, lo & 0x7F]}[n]
    out = [p << 1 for p in parts]
    out[-1] |= 1
    return bytes(out)


def frame(da, sa, control, info=b"", seg=False):
    n = 2 + len(da) + len(sa) + 1 + (2 + len(info) if info else 0) + 2
    if n > 0x7FF:
        return None
    head = (0xA000 | 0x800 * bool(seg) | n).to_bytes(2, "big") + da + sa + bytes([control])
    body = head + (crc(head) + info if info else b"")
    return b"\x7e" + body + crc(body) + b"\x7e"

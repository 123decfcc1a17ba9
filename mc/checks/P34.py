"""P34: the display name of an object follows from its logical name alone."""
import re
import env
import ref34
from explorer import unit, Mismatch

col = env.mod("cosem_interface_classes.collection")
obis = env.mod("relation_to_OBIS")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
cid = env.mod("types.cosemClassID")
settings = env.mod("settings")
rn = env.mod("Values.RU.relation_to_obis_names" if settings.get_current_language() is settings.Language.RUSSIAN else "Values.EN.relation_to_obis_names")
BS = (0, 1, 2, 64, 65, 127, 128, 129, 199, 200, 255)


def text(w):
    if isinstance(w, str):
        return getattr(rn, w)
    if w[0] == "class":
        return str(getattr(cid, w[1]))
    return rn.UNKNOWN if w[0] == "?" else w[0]


def norm(s):
    return "".join(re.findall(r"[^\s,.:;]+", s))


def cuts():
    """values of C, D and E named in a row, with neighbours; the pairs (C, D) of the rows"""
    cd = {}
    for p, _ in ref34.TABLE:
        cd.setdefault((p[0], p[2], p[3]), set()).update(range(256) if p[4] is None else (p[4] - 1, p[4], p[4] + 1))
    return cd


CD = cuts()
EDGE = (0, 1, 2, 63, 64, 119, 120, 121, 123, 124, 125, 126, 127, 128, 129, 131, 132, 133, 254, 255)


def ln(a, b, c, d, e, f=255):
    return cst.LogicalName(bytearray((a, b, c, d, e, f)))


def look(o, a, b, c, d, e, f=255):
    n = obis.get_name(ln(a, b, c, d, e, f))
    w = ref34.words(a, b, c, d, e)
    what = f"name of {a}.{b}.{c}.{d}.{e}.{f}"
    if not isinstance(n, str) or not n.strip():
        raise Mismatch(f"{what} is {n!r}", "text")
    if w is None:
        o.eq(n, rn.UNKNOWN, what, "unknown")
    elif ("?",) in w:
        o.ok(rn.UNKNOWN in n, f"{what} is {n!r}, a part of it has no name", "unknown")
    elif w[-2:-1] == ["MANUFACTURER_SPECIFIC"] and a == 1 and 64 <= e <= 127 and w[-1] == (str(e),):
        head = norm(" ".join(map(text, w[:-2])))
        o.ok(norm(n).startswith(head) and norm(rn.RATE) not in norm(n)[len(head):], f"{what} is {n!r}", "rate")
    else:
        o.eq(norm(n), norm(" ".join(map(text, w))), what, "name")


@unit("abstract", 4)
def abstract(ctx):
    def rows(case, o):
        a, c, d = case
        es = sorted({e for e in CD.get(case, ()) if 0 <= e < 256} | set(EDGE))
        for e in es:
            for b in BS:
                look(o, a, b, c, d, e)
    ds = {k[1:] for k in CD if k[0] == 0} | {(154, 0), (99, 98)}
    near = {(c + i, d + j) for c, d in ds for i in (-1, 0, 1) for j in (-1, 0, 1)} | {(c, d) for c in range(256) for d in (0, 1, 255)}
    ctx.all("rows", [(0, c, d) for c, d in sorted(near) if 0 <= c < 256 and 0 <= d < 256], rows)
    ctx.bound("group A 0: every row of the table and its neighbours x every E of the row x 11 channels; all 256 of C")


@unit("electricity", 6)
def electricity(ctx):
    def body(case, o):
        c, d = case
        wide = c in (1, 11, 21, 45, 80, 91, 124, 81, 94, 0, 147, 148) or d in (0, 7, 8, 133, 134)
        for e in range(256) if wide else EDGE:
            for b in (0, 1, 64, 255) if wide and not ctx.quick or d == 7 else (0, 5):
                look(o, 1, b, c, d, e)
    ctx.all("C and D", [(c, d) for c in range(256) for d in range(256) if c <= 99 or d in (0, 1, 7, 36, 57, 58, 59, 127, 128, 133, 134, 255) or c in ref34.OTHER_C or c in (137, 147, 148)], body)
    ctx.bound("group A 1: all C to 99 with all D, the others with 12; all E for 12 quantities and 5 kinds of processing, 20 for the rest; 2 to 4 channels")


@unit("other")
def other(ctx):
    def media(a, o):
        for c in range(256):
            for d in (0, 1, 7, 8, 255):
                for e in (0, 1, 255):
                    for b in (0, 1, 128):
                        look(o, a, b, c, d, e)
    ctx.all("media", [a for a in range(2, 256) if a < 10 or a in (15, 64, 127, 128, 129, 255)], media)

    def free(case, o):
        """group F takes no part, an object shows its name behind its logical name, asking twice and in any order gives the same"""
        a, b, c, d, e = case
        w = obis.get_name(ln(a, b, c, d, e))
        for f in (0, 1, 99, 101, 254, 255, 255):
            o.eq(obis.get_name(ln(a, b, c, d, e, f)), w, f"name with F {f}", "group F")
            look(o, a, b, c, d, e, f)
        x = ln(a, b, c, d, e)
        obis.get_name(x)
        for y in sorted(pool)[:40]:
            x.set(bytes((9, 6)) + bytes((*y, 255)))
            o.eq(obis.get_name(x), obis.get_name(ln(*y)), f"name after the logical name became {y}", "stale")
    pool = {(0, 0, 1, 0, 0), (0, 0, 96, 1, 0), (0, 1, 96, 1, 0), (1, 0, 1, 8, 0), (1, 0, 1, 8, 1), (1, 0, 2, 8, 0), (1, 0, 21, 7, 0), (1, 0, 41, 7, 0), (1, 0, 12, 7, 5), (1, 0, 81, 7, 40), (1, 0, 81, 7, 4),
            (0, 0, 10, 0, 100), (0, 0, 40, 0, 1), (0, 0, 40, 0, 7), (7, 0, 0, 0, 1), (1, 0, 99, 1, 0), (0, 0, 15, 0, 3), (0, 0, 94, 7, 1), (1, 0, 1, 47, 0), (1, 0, 81, 7, 9)}
    ctx.all("group F, history", sorted(pool), free)

    def shown(case, o):
        a, b, c, d, e, k = case
        x = col.Collection().add(ut.CosemClassId(k), cdt.Unsigned(0), ln(a, b, c, d, e))
        o.eq(str(x), f"{a}.{b}.{c}.{d}.{e}.255 {obis.get_name(ln(a, b, c, d, e))}", "object as text", "object")
    ctx.all("objects", [(0, 0, 1, 0, 0, 8), (0, 0, 96, 1, 0, 1), (1, 0, 1, 8, 0, 3), (1, 0, 1, 47, 0, 3), (1, 0, 81, 7, 9, 3), (1, 0, 11, 7, 122, 3), (0, 0, 10, 0, 100, 9), (1, 0, 1, 6, 3, 4)], shown)
    ctx.bound("other media: all C; group F, repeated and changing questions over 20 names; 8 objects as text")

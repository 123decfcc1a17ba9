"""P28: the group of a logical name - every combination of value groups A, C, D, E with the boundary values of B and F."""
import env
import ref28
from explorer import unit, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
mid = env.mod("obis.media_id")
ask = getattr(col.get_relation_group, "__wrapped__", col.get_relation_group)
A = sorted(ref28.MEDIA)
PLAIN = {"ABSTRACT", "ELECTRICITY", "HCA", "THERMAL", "GAS", "WATER", "OTHER_MEDIA"}
CLASSES = {0: mid.Abstract, 1: mid.Electricity, 4: mid.Hca, 5: mid.Thermal, 6: mid.Thermal, 7: mid.Gas, 8: mid.Water, 9: mid.Water}


def name_of(g):
    n = GROUPS.get(type(g).subgroup)
    return n if n else f"unknown {g!r}"


GROUPS = {}
for k, v in vars(mid).items():
    if k.isupper() and isinstance(v, mid.MediaId):
        GROUPS.setdefault(type(v).subgroup, k)

def cuts(table):
    """boundary values of each group in the rows"""
    s = [set() for _ in range(5)]
    for *cs, _ in table:
        for i, c in enumerate(cs):
            for v in c or ():
                for w in (v - 1, v, v + 1):
                    if 0 <= w <= 255 and (v - 1 not in c or v + 1 not in c):
                        s[i].add(w)
    for x in s:
        x.update((0, 1, 127, 255))
    return [sorted(x) for x in s]


CUTS = {a: cuts(table) for a, (_, table) in ref28.MEDIA.items()}


def rows_for(a, **fixed):
    """rows of the medium that the fixed groups leave possible"""
    return [r for r in ref28.MEDIA[a][1] if all(r["bcdef".index(k)] is None or v in r["bcdef".index(k)] for k, v in fixed.items())]


def wrong(ln, table=None):
    want = ref28.group(ln, table)
    if want == "?":
        return None
    got = name_of(ask(cst.LogicalName(bytearray(ln))))
    return None if got == want else (got, want)


@unit("every c and d", shards=8)
def every_cd(ctx):
    def body(case, o):
        a, c = case
        b, _, d_, e_, f_ = (CUTS[a][i] for i in range(5))
        table = rows_for(a, c=c)
        near = cuts(rows_for(a, c=max(c - 1, 0)) + table + rows_for(a, c=min(c + 1, 255)))
        for d in range(256):
            some = rows_for(a, c=c, d=d)
            for e in sorted({*near[3], *cuts(some)[3]}) if ctx.quick else range(256):
                for f in sorted({*near[4]}):
                    for bb in (0, 1, 255) if a == 0 else (0,):
                        ctx.transitions += 1
                        w = wrong((a, bb, c, d, e, f), some)
                        if w:
                            raise Mismatch(f"{a}.{bb}.{c}.{d}.{e}.{f}: group {w[0]}, the tables say {w[1]}", "group")
        o(True)
    ctx.all("groups", [(a, c) for a in A for c in sorted(set(CUTS[a][1]) | set(range(0, 128)))], body)
    ctx.bound(f"8 media x C 0..127 and beyond x all D x {ctx.pick('boundary values of', 'all')} E x the boundary values of F in the rows of C (and B for abstract objects)")


@unit("boundaries", shards=8)
def boundaries(ctx):
    def body(case, o):
        a, c, d = case
        b_, _, _, e_, f_ = CUTS[a]
        some = rows_for(a, c=c, d=d)
        for e in e_:
            for f in f_:
                for b in b_ if a == 0 else (0, 1, 255):
                    ctx.transitions += 1
                    w = wrong((a, b, c, d, e, f), some)
                    if w:
                        raise Mismatch(f"{a}.{b}.{c}.{d}.{e}.{f}: group {w[0]}, the tables say {w[1]}", "group")
        o(True)
    ctx.all("groups", [(a, c, d) for a in A for c in CUTS[a][1] for d in ctx.pick(CUTS[a][2], range(256))], body)


@unit("media")
def media(ctx):
    def body(a, o):
        g = [ask(cst.LogicalName(bytearray((a, b, c, d, e, 255)))) for b in (0, 1) for c in (0, 1, 42, 43, 96, 98, 127, 200, 255) for d in (0, 1, 97, 255) for e in (0, 255)]
        m = col.get_media_id(cst.LogicalName(bytearray((a, 0, 1, 0, 0, 255))))
        if a in CLASSES:
            o.ok(all(isinstance(x, CLASSES[a]) for x in g) and type(m) is CLASSES[a], f"group of medium {a}", "medium")
        else:
            o.ok(all(x is mid.OTHER_MEDIA for x in g), f"group of medium {a}", "medium")
            o.ok(type(m) is (mid.Other if a == 15 else mid.Reserved), f"medium {a}", "medium")
        for b in range(256):
            n = col.get_media_id(cst.LogicalName(bytearray((b, 0, 1, 0, 0, 255))))
            same = a == b or {a, b} in ({5, 6}, {8, 9})
            o.eq((m == n, m == b, hash(m) == hash(n) or not same), (same, same, True), f"medium {a} and {b}", "equal")
    ctx.all("media", range(256), body)
    ctx.bound("all 256 values of A, all pairs")

    def cached(case, o):
        """the public function gives what it gave before, for equal names made in different ways, after the first name was changed"""
        first, second = case
        x = cst.LogicalName(".".join(map(str, first)))
        o.eq(name_of(col.get_relation_group(x)), ref28.group(first), f"group of {first}", "group")
        x.set(b"\x09\x06" + bytes(second))
        o.eq(name_of(col.get_relation_group(x)), ref28.group(second), f"group of {second}, object was {first}", "cache")
        o.eq(name_of(col.get_relation_group(cst.LogicalName(bytearray(first)))), ref28.group(first), f"group of {first} again", "cache")
    some = [(0, 0, 1, 0, 0, 255), (1, 0, 1, 8, 0, 255), (0, 0, 40, 0, 1, 255), (0, 1, 40, 0, 1, 255), (7, 0, 43, 15, 0, 255), (5, 0, 97, 97, 0, 255), (0, 0, 96, 3, 10, 255), (0, 0, 96, 3, 20, 255), (2, 0, 0, 0, 0, 0), (15, 0, 0, 0, 0, 0)]
    ctx.all("names", [(f, s) for f in some for s in some], cached)

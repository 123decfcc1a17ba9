"""P20: firmware versions - text, order, nearest older one - and the choice of a template file by them."""
import itertools
import os
import shutil
import env
from explorer import unit, outcome, rejects

V = env.mod("version").AppVersion
exc = env.mod("exceptions")


def key(v):
    return (v[0], v[1], -1 if v[2] is None else v[2])


def ref_parse(s):
    def dec(x):
        return x.isdecimal()
    p = s.split(".", 2)
    if len(p) == 1 or not (dec(p[0]) and dec(p[1])):
        return (0, 0, None, "") if len(p) == 2 else (0, 0, 0, "")
    if len(p) == 2:
        return int(p[0]), int(p[1]), None, ""
    n = 0
    while n < len(p[2]) and p[2][n] in "0123456789":
        n += 1
    if dec(p[2]):
        return int(p[0]), int(p[1]), int(p[2]), ""
    return int(p[0]), int(p[1]), int(p[2][:n] or 0), p[2][n:]


def tup(v):
    return (v.major, v.minor, v.patch, v.additional)


NUM = (0, 1, 2, 3, 9, 10, 11)
SMALL = [(a, b, c) for a in (0, 1, 2, 10) for b in (0, 1, 9, 10) for c in (None, 0, 1, 2, 9, 10, 100)]


@unit("order")
def order(ctx):
    ctx.bound("all pairs of 112 versions, with and without text, for every comparison; all triples of 30 sorted; all subsets of up to 3 variants of 14 for the nearest version of 16")

    def cmp(c, o):
        a, b, x, y = c
        p, q = V(*a, x), V(*b, y)
        i, j = key(a), key(b)
        o.eq((p < q, p <= q, p > q, p >= q), (i < j, i <= j, i > j, i >= j), f"{a} against {b}", "order")
        o.eq((p == q, p != q), (i == j and x == y, not (i == j and x == y)), f"{a} {x!r} equal to {b} {y!r}", "equality")
        r = eval(repr(p), {"AppVersion": V})
        o.eq(tup(r), tup(p), f"{p!r} read as the program text it is", "text")
        if i == j and x == y:
            o.eq(hash(p), hash(q), "hash of equal versions", "hash")
    ctx.all("pairs", [(a, b, "", "") for a in SMALL for b in SMALL] + [(a, b, x, y) for a in SMALL[:14] for b in SMALL[:14] for x in ("", "d1") for y in ("", "d1", "rc", "D1", "d1 ")], cmp)
    ctx.all("sorted", itertools.permutations(SMALL[10:28:1] if not ctx.quick else SMALL[20:32], 3),
            lambda c, o: o.eq([tup(v)[:3] for v in sorted(V(*x) for x in c)], sorted(c, key=key), f"{c} sorted", "order"))
    var = [(1, 0, 0), (1, 0, 13), (1, 1, None), (1, 1, 0), (1, 1, 6), (1, 1, 8), (1, 1, 9), (1, 1, 10), (1, 2, None), (1, 2, 0), (2, 1, 0), (2, 1, 9), (0, 1, 5), (11, 1, 1)]
    ask = [(1, 1, None), (1, 1, 0), (1, 1, 5), (1, 1, 9), (1, 1, 99), (1, 0, 12), (1, 2, 3), (1, 3, 0), (2, 1, 8), (0, 0, 0), (0, 1, 4), (11, 1, 1), (1, 11, 0), (3, 1, 9), (2, 1, None), (1, 2, None)]

    def near(c, o):
        v, vs = c
        cand = [x for x in vs if x[:2] == v[:2] and key(x) <= key(v)]
        want = max(cand, key=key) if cand else None
        got = V(*v).select_nearest([V(*x) for x in vs])
        o.eq(got and tup(got)[:3], want, f"nearest to {v} among {vs}", "nearest")
        got = V(*v).select_nearest({V(*x): 1 for x in reversed(vs)}.keys())
        o.eq(got and tup(got)[:3], want, f"nearest to {v} among keys {vs}", "nearest")
    ctx.all("nearest", [(v, vs) for v in ask for k in range(ctx.pick(4, 6)) for vs in itertools.combinations(var, k)], near)


@unit("text")
def text(ctx):
    n = ctx.pick(6, 8)
    ctx.bound(f"every text of up to {n} characters over 0 1 9 . d space and every form of three numbers from 7 with and without text")

    def one(s, o):
        v = V.from_str(s)
        o.eq(tup(v), ref_parse(s), f"version {s!r}", "parse")
        a, b, c, _ = tup(v)
        o.eq(str(v), f"{a}.{b}" + (f".{c}" if c is not None else ""), "text of the version", "text")
        w = V.from_str(str(v))
        o.eq(tup(w)[:3], (a, b, c), "text read back", "text")
    ctx.all("texts", ("".join(t) for k in range(n + 1) for t in itertools.product("019.d", repeat=k)), one)
    ctx.all("forms", [f"{a}.{b}{c}{d}" for a in NUM for b in NUM for c in ("", *(f".{x}" for x in NUM)) for d in (("", "d1", "-rc2", " x", "é", ".7", "a5") if c else ("",))], one)
    ctx.all("odd", ["1.²", "1.2.²", "²", "1.2.3²", "١.٢", "1.2.٣", "", ".", "..", "1", "1.", ".1", "v1.2.3", "1.2.x", "-1.2.3", "1.-2", " 1.2", "1 .2"], lambda s, o: o.eq(tup(V.from_str(s)), ref_parse(s), f"version {s!r}", "parse"))


@unit("library")
def library(ctx):
    cdt = env.mod("types.common_data_types")
    cl = env.mod("cosem_interface_classes.collection")
    ctx.bound("every library of up to 3 (thorough 4) of 9 versions for one meter type beside a fixed other type and manufacturer; 13 versions asked for, unknown manufacturer and type")
    T1, T2, T3 = cdt.OctetString("4d324d5f31"), cdt.OctetString("4d324d5f33"), cdt.OctetString("00")
    files = ["1.1.4", "1.1.9", "1.1", "1.0.7", "1.2.0", "2.1.4", "1.1.10", "1.1.8d2", "1.1.8"]
    ask = ["1.1.4", "1.1.5", "1.1.9", "1.1.99", "1.1", "1.2.1", "1.3.0", "2.1.3", "1.0.7", "1.1.8", "1.1.8d2", "1.1.8x", "1.1.4d2"]

    def one(vs, o):
        shutil.rmtree("Types")
        for man, t, names in (("KPZ", T1, vs), ("KPZ", T2, ["1.1.4", "1.1.6"]), ("101", T1, ["1.1.5"])):
            d = os.path.join("Types", man, t.encoding.hex())
            os.makedirs(d)
            for x in names:
                open(os.path.join(d, x + ".typ"), "w").close()
        open("Types/readme.txt", "w").close()
        for f in ("get_manufactures_container", "get_dir_entry", "get"):
            getattr(getattr(cl, f, None), "cache_clear", lambda: None)()
        for man, t, names in ((b"KPZ", T1, vs), (b"KPZ", T2, ["1.1.4", "1.1.6"]), (b"101", T1, ["1.1.5"]), (b"XYZ", T1, []), (b"KPZ", T3, [])):
            for a in ask:
                v = ref_parse(a)
                have = [ref_parse(x) for x in names]
                cand = [x for x in have if x[:2] == v[:2] and key(x) <= key(v)]
                best = v if v in have else max(cand, key=key) if cand else None
                fit = [n for n, x in zip(names, have) if x == best or v not in have and best and key(x) == key(best)]
                call = lambda: cl.get_dir_entry(man, t, V.from_str(a))
                if best is None:
                    rejects(o, call, exc.NoConfig, f"template for {man} {t} {a} in {names}", "library")
                else:
                    e = call()
                    where = os.path.normpath(e.path).split(os.sep)[-3:]
                    o.ok(where[:2] == [man.decode(), t.encoding.hex()] and where[2][:-4] in fit and where[2].endswith(".typ"), f"template for {a} in {names}: {where}, expected {fit}", "library")
    try:
        ctx.all("libraries", [list(vs) for k in range(ctx.pick(3, 4) + 1) for vs in itertools.combinations(files, k)], one)
    finally:
        os.makedirs("Types", exist_ok=True)

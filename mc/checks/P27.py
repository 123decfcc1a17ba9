"""P27: queries over many objects - sorting, grouping, filtering and attribute lists neither lose nor invent objects."""
import itertools
import env
import ref28
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
exc = env.mod("exceptions")
mid = env.mod("obis.media_id")
ov = env.mod("cosem_interface_classes.overview")
enums = env.mod("types.implementations.enums")

OBJ = [  # logical name, class, version
    ((0, 0, 1, 0, 0, 255), 8, 0), ((0, 0, 96, 1, 0, 255), 1, 0), ((0, 0, 42, 0, 0, 255), 1, 0), ((1, 0, 1, 8, 0, 255), 3, 0), ((1, 0, 2, 8, 0, 255), 3, 0), ((1, 0, 1, 6, 0, 255), 4, 0),
    ((1, 1, 1, 8, 0, 255), 3, 0), ((0, 0, 96, 3, 10, 255), 70, 0), ((1, 0, 12, 7, 0, 255), 3, 0), ((0, 0, 96, 1, 1, 255), 1, 0), ((7, 0, 0, 0, 1, 255), 1, 0), ((8, 0, 0, 0, 1, 255), 1, 0), ((9, 0, 0, 0, 1, 255), 1, 0),
    ((0, 0, 10, 0, 100, 255), 9, 0), ((1, 128, 1, 8, 0, 255), 3, 0), ((0, 64, 96, 1, 0, 255), 1, 0)]
MED = {0: "Abstract", 1: "Electricity", 4: "Hca", 5: "Thermal", 6: "Thermal", 7: "Gas", 8: "Water", 9: "Water", 15: "Other"}
GROUPS = {}
for k, v in vars(mid).items():
    if k.isupper() and isinstance(v, mid.MediaId):
        GROUPS.setdefault(k, v)
BYSUB = {}
for k, v in GROUPS.items():
    BYSUB.setdefault(type(v).subgroup, k)


def build(objs=OBJ):
    c = col.Collection()
    out = []
    for ln, cid, v in objs:
        x = c.get(bytes(ln))
        out.append(c.add(ut.CosemClassId(cid), cdt.Unsigned(v), cst.LogicalName(bytearray(ln))) if x is None else x)
    return c, out


COL, POOL = build()
KEY = {id(x): k for x, k in zip(POOL, OBJ)}


def key(x):
    return KEY[id(x)]


ref_key = {"l": lambda k: k[0], "c": lambda k: k[1], "n": lambda k: col.get_name(cst.LogicalName(bytearray(k[0]))),
           "m": lambda k: MED.get(k[0][0], ("reserved", k[0][0])), "g": lambda k: ref28.group(k[0])}
real_key = {"c": lambda x: int(x), "m": lambda x: type(x).__name__, "g": lambda x: BYSUB[type(x).subgroup]}
SORT = ["", "l", "n", "c", "cl", "cn", "lc", "nl", "nc", "ln", "cnl"]
TREE = ["m", "g", "c", "mc", "cm", "gm", "gc", "cg", "mg", "gmc", "mgc", "cgm", "mcg"]


def ref_tree(keys, mode):
    """the last letter of the mode is the outermost level"""
    if not mode:
        return list(keys)
    out = {}
    for k in keys:
        out.setdefault(ref_key[mode[-1]](k), []).append(k)
    return {g: ref_tree(v, mode[:-1]) for g, v in out.items()}


def read_tree(t, mode):
    if not mode:
        return [key(x) for x in t]
    out = {}
    for g, v in t.items():
        n = real_key[mode[-1]](g)
        if n in out:
            raise Mismatch(f"two branches {n}", "branch")
        out[n] = read_tree(v, mode[:-1])
    return out


@unit("sorted", shards=4)
def sort(ctx):
    n = ctx.pick(5, 7)

    def one(case, o):
        objs = [POOL[i] for i in case]
        for mode in SORT:
            want = list(case)
            for letter in reversed(mode):
                want.sort(key=lambda i: ref_key[letter](OBJ[i]))
            src = list(objs)
            got = col.get_sorted(src, mode)
            o.eq([key(x) for x in got], [OBJ[i] for i in want], f"{case} sorted by {mode!r}", "sorted")
            o.ok(src == objs and all(a is b for a, b in zip(src, objs)), f"{case} by {mode}: the given list was changed", "source")
    ctx.all("large", [tuple((i * 7 + k) % len(OBJ) for i in range(m)) for m in (16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 600) for k in (0, 3)], one)
    ctx.all("orders", [p for r in range(n + 1) for p in itertools.permutations(range(ctx.pick(9, 8)), r)], one)
    ctx.bound(f"all orders of up to {n} of {ctx.pick(9, 8)} objects x {len(SORT)} sort modes")


@unit("trees", shards=4)
def trees(ctx):
    n = ctx.pick(5, 7)

    def one(case, o):
        objs = [POOL[i] for i in case]
        for mode in TREE:
            for given in (list(objs), tuple(objs)):
                got = col.get_object_tree(given, mode)
                o.eq(read_tree(got, mode), ref_tree([OBJ[i] for i in case], mode), f"{case} as a tree by {mode!r}", "tree")
                o.ok(len(given) == len(objs) and all(a is b for a, b in zip(given, objs)), f"{case} by {mode}: the given list was changed", "source")
    ctx.all("large", [tuple((i * 7 + k) % len(OBJ) for i in range(m)) for m in (16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 600) for k in (0, 3)], one)
    ctx.all("subsets", [p for r in range(n + 1) for p in itertools.combinations(range(ctx.pick(14, len(OBJ))), r)] + [tuple(range(len(OBJ))), tuple(range(len(OBJ) - 1, -1, -1))] + [(i, j, i) for i in range(4) for j in range(4)], one)
    ctx.bound(f"all sets of up to {n} of {ctx.pick(14, len(OBJ))} objects and all 16 of them x {len(TREE)} tree modes")


PATTERNS = ["a.b.c.d.e.f", "0.b.c.d.e.f", "a.0.1.d.e.f", "(0, 7).b.c.d.e.255", "a.b.(96-98).d.e.f", "1.b.(1,2).(6-8).0.255", "0.0.1.0.0.255", "a.1.c.d.e.f", "a.b.c.d.(1,100-200).f"]
KEYS = [("c", 1), ("c", 3), ("c", 70), ("m", "ABSTRACT"), ("m", "ELECTRICITY"), ("m", "WATER"), ("m", "GAS"), ("g", "ACTIVE_POWER_PLUS"), ("g", "CLOCK_OBJECTS"), ("g", "DEVICE_ID_OBJECTS"), ("g", "ID_NUMBERS_WATER")] + [("p", t) for t in PATTERNS]


def ref_pattern(text, ln):
    for i, (t, v) in enumerate(zip(text.split("."), ln)):
        if t == "abcdef"[i]:
            continue
        s = set()
        for part in t.strip("()").split(","):
            a, _, b = part.strip().partition("-")
            s.update(range(int(a), int(b or a) + 1))
        if v not in s:
            return False
    return True


MEDNAME = {"ABSTRACT": (0,), "ELECTRICITY": (1,), "WATER": (8, 9), "GAS": (7,), "HCA": (4,), "THERMAL": (5, 6)}


def ref_match(k, obj):
    kind, v = k
    ln, cid, _ = obj
    return cid == v if kind == "c" else ln[0] in MEDNAME[v] if kind == "m" else ref28.group(ln) == v if kind == "g" else ref_pattern(v, ln)


def real(k):
    kind, v = k
    return ov.ClassID if False else ut.CosemClassId(v) if kind == "c" else GROUPS[v] if kind in "mg" else col.LNPattern(v)


@unit("filters", shards=4)
def filters(ctx):
    n = ctx.pick(3, 4)

    def one(case, o):
        keys = [KEYS[i] for i in case]
        kinds = {k for k, _ in keys}
        want = [x for x in OBJ if all(any(ref_match(k, x) for k in keys if k[0] == kind) for kind in kinds)]
        got = col.get_filtered(list(POOL), tuple(map(real, keys)))
        o.eq([key(x) for x in got], want, f"filter {keys}", "filter")
    def much(case, o):
        """long lists of objects, long lists of keys"""
        keys, m = case
        objs = [(i * 7) % len(OBJ) for i in range(m)]
        keys = [KEYS[i] for i in keys] * (1 + m % 5)
        kinds = {k for k, _ in keys}
        want = [OBJ[i] for i in objs if all(any(ref_match(k, OBJ[i]) for k in keys if k[0] == kind) for kind in kinds)]
        o.eq([key(x) for x in col.get_filtered([POOL[i] for i in objs], tuple(map(real, keys)))], want, f"filter {keys} of {m} objects", "filter")
    ctx.all("large", [((i, j), m) for i in range(len(KEYS)) for j in range(i, len(KEYS), 3) for m in (17, 33, 65, 129, 600)] + [(tuple(range(len(KEYS))), 300)], much)
    ctx.all("keys", [p for r in range(n + 1) for p in itertools.product(range(len(KEYS)), repeat=r)], one)
    ctx.bound(f"all sequences of up to {n} of {len(KEYS)} keys (class, medium, group, pattern) over {len(OBJ)} objects")

    def by(case, o):
        kind, v = case
        if kind == "c":
            want = [x for x in OBJ if x[1] == v]
            o.eq([key(x) for x in col.class_id_filter(list(POOL), ut.CosemClassId(v))], want, f"class {v}", "class filter")
            o.eq([key(x) for x in COL.get_objects_by_class_id(v)], sorted(want, key=lambda k: [y[0] for y in ORDER].index(k[0])), f"class {v}", "class query")
        else:
            want = [x for x in OBJ if x[0][0] == v or {x[0][0], v} == {8, 9} or {x[0][0], v} == {5, 6}]
            o.eq([key(x) for x in col.media_id_filter(list(POOL), mid.MediaId.from_int(v))], want, f"medium {v}", "medium filter")
    ORDER = [key(x) for x in COL]
    ctx.all("class or medium", [("c", i) for i in (1, 3, 4, 8, 9, 70, 15)] + [("m", i) for i in range(16)], by)

    def descriptions(case, o):
        objs = [OBJ[i] for i in case]
        c, xs = build(objs)
        got = [(tuple(bytes(ln.contents)), int(k), int(v)) for ln, k, v in c.get_objects_descriptions()]
        o.eq(sorted(got), sorted(set(objs) | {OBJ[2]}), f"descriptions of {objs}", "descriptions")
        for keys in itertools.permutations((0, 3, 5, 13), 3):
            have = [k for k in keys if OBJ[k] in objs]
            names = [bytes(OBJ[k][0]) if n == 0 else ".".join(map(str, OBJ[k][0])) if n == 1 else cst.LogicalName(bytearray(OBJ[k][0])) for n, k in enumerate(keys)]
            st, r = outcome(c.get_first, names)
            if have:
                o.ok(st == "ok" and tuple(r.logical_name.contents) == OBJ[have[0]][0], f"first of {keys} among {case}: {r!r}", "first")
            else:
                o.ok(st == "err" and isinstance(r, exc.NoObject), f"first of {keys} among {case}: {r!r}", "first")
    ctx.all("descriptions", [p for r in range(4) for p in itertools.permutations((0, 3, 5, 8, 13), r)], descriptions)


# ------------------------------------------------------------------ pattern grammar
@unit("patterns", shards=2)
def patterns(ctx):
    ELEM = ["0", "7", "255", "96", "(0)", "(1,2)", "(0-255)", "(254)", "(0-254)", "(96-98)", "(0, 96-98, 255)", "(98-96)", "X"]

    def one(case, o):
        pos, t = case
        parts = ["X"] * 6
        for p, e in zip(pos, t):
            parts[p] = e
        text = ".".join("abcdef"[i] if e == "X" else e for i, e in enumerate(parts))
        p = col.LNPattern(text)
        for v in itertools.product(range(0, 256) if len(pos) == 1 else (0, 1, 2, 7, 95, 96, 97, 98, 99, 254, 255), repeat=len(pos)):
            ln = [3, 4, 5, 6, 7, 8]
            for i, x in zip(pos, v):
                ln[i] = x
            if (p == cst.LogicalName(bytearray(ln))) is not ref_pattern(text, ln):
                raise Mismatch(f"pattern {text} and {ln}: {not ref_pattern(text, ln)}", "match")
        o(True)
    ctx.all("one group", [((i,), (e,)) for i in range(6) for e in ELEM], one)
    ctx.all("two groups", [(q, e) for q in itertools.combinations(range(6), 2) for e in itertools.product(ELEM, repeat=2)], one)
    ctx.bound(f"{len(ELEM)} forms of an element in every group, in every pair of groups; all 256 values of one group, boundaries of two")

    def bad(case, o):
        i, e = case
        parts = list("abcdef")
        parts[i] = e
        rejects(o, lambda: col.LNPattern(".".join(parts)), (Exception,), f"pattern {'.'.join(parts)}", "bad pattern")
    letters = "abcdefxA"
    ctx.all("refused", [(i, e) for i in range(6) for e in [x for x in letters if x != "abcdef"[i]] + ["256", "1000", "-1", "", " ", "()", "(256)", "(1-256)", "(-1)", "(1,)", "(a)", "(1-2-3)", "(1", "1)", "aa", "1a", "(1;2)", "*", "(1--2)"]], bad)
    ctx.all("seven", [(5, "f.f"), (5, "255.0"), (0, "a.b")], bad)


# ------------------------------------------------------------------ objects and attributes of an association
READ = {0: 0, 1: 1, 2: 0, 3: 1}
WRITE = {0: 0, 1: 0, 2: 1, 3: 1}
NATTR = {8: 9, 1: 2, 3: 3, 15: 8, 4: 5, 70: 4, 9: 2}


def arr(tag, items):
    n = len(items)
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n])) + b"".join(items)


def list_enc(objs, mode_of):
    return arr(1, [arr(2, [bytes([18, 0, cid]), bytes([17, v]), b"\x09\x06" + bytes(ln),
                           arr(2, [arr(1, [arr(2, [bytes([15, i]), bytes([22, mode_of(n, i)]), b"\x00"]) for i in range(1, NATTR[cid] + 1)]), b"\x01\x00"])]) for n, (ln, cid, v) in enumerate(objs)])


FEW = [OBJ[i] for i in (0, 3, 1, 7, 11, 5)]


def sap(c, k, ver, value):
    a = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(f"0.0.40.0.{k}.255"))
    if value is not None:
        a.set_attr(3, b"\x02\x02\x0f" + bytes([value]) + b"\x12\x00\x01")
    return a


@unit("attribute trees", shards=8)
def attr_trees(ctx):
    MODES = {"none": lambda n, i: 0, "all": lambda n, i: 3, "read": lambda n, i: 1, "write": lambda n, i: 2, "mixed": lambda n, i: (n + i) % 4, "by object": lambda n, i: n % 4, "name only": lambda n, i: 3 if i == 1 else 0,
             "last only": lambda n, i: 3 if i == 2 and n == 1 else 1 if i == 1 else 0, "odd": lambda n, i: 3 * (n % 2)}

    def one(case, o):
        which, mname = case
        objs = [FEW[i] for i in which]
        c, xs = build(objs)
        a = sap(c, 1, 0, 16)
        m = MODES[mname]
        a.set_attr(2, list_enc(objs, m))
        back = {id(x): k for x, k in zip(xs, objs)}
        o.ok([x is y for x, y in itertools.zip_longest(c.filter_by_ass(1), xs)] == [True] * len(xs), f"{case}: objects of the association", "list")
        for af in ("l", "r", "w", "lr", "lw", "wr", "lrw", "rl"):
            idx = {}
            for n, (ln, cid, v) in enumerate(objs):
                got = [i for i in range(1, NATTR[cid] + 1) if not ("l" in af and i == 1) and not ("r" in af and not READ[m(n, i)]) and not ("w" in af and not WRITE[m(n, i)])]
                if got:
                    idx[objs[n]] = got
            for tree in ("m", "c", "g", "mc", "cm", "gmc", "cgm"):
                for srt in ("", "l", "c", "cl"):
                    for flt in (None, (KEYS[0],), (KEYS[4],), (KEYS[1], KEYS[5])):
                        keys = [k for k in objs if k in idx and (not flt or all(any(ref_match(f, k) for f in flt if f[0] == kind) for kind in {f[0] for f in flt}))]
                        for letter in reversed(srt):
                            keys.sort(key=ref_key[letter])

                        def ref(ks, mode):
                            if not mode:
                                return [(k, idx[k]) for k in ks]
                            out = {}
                            for k in ks:
                                out.setdefault(ref_key[mode[-1]](k), []).append(k)
                            return {g: ref(v, mode[:-1]) for g, v in out.items()}

                        def read(t, mode):
                            if not mode:
                                return [(back[id(x)], list(i)) for x, i in t.items()]
                            return {real_key[mode[-1]](g): read(v, mode[:-1]) for g, v in t.items()}
                        t = c.get_attr_tree(1, tree, tuple(map(real, flt)) if flt else None, srt, af)
                        o.eq(read(t, tree), ref(keys, tree), f"{case} mode {tree!r} sorted {srt!r} attributes {af!r} filter {flt}", "attribute tree")
    ctx.all("lists", [(w, m) for r in range(ctx.pick(4, 5)) for w in itertools.permutations(range(len(FEW)), r) for m in MODES] + [(tuple(range(len(FEW))), m) for m in MODES], one)
    ctx.bound(f"object lists of up to {ctx.pick(3, 4)} of {len(FEW)} objects in every order and all of them x {len(MODES)} access patterns x 7 tree modes x 4 sortings x 4 filters x 8 attribute filters")


@unit("associations")
def associations(ctx):
    lists = [None, (), (0,), (1, 0), (2,)]

    def one(case, o):
        """two or three associations, each without or with a list and a client address"""
        c, xs = build(FEW[:4])
        ass = {}
        for k, (lst, who) in enumerate(case):
            a = sap(c, k, 0, who)
            if lst is not None:
                a.set_attr(2, list_enc([FEW[i] for i in lst], lambda n, i: (n + i + k) % 4))
            ass[k] = (lst, int(a.associated_partners_id.client_SAP) if who is None and a.associated_partners_id is not None else who)
        for w in (16, 32, 48):
            st, r = outcome(c.get_objects_list, enums.ClientSAP(w))
            hit = [lst for k, (lst, who) in ass.items() if who == w and k != 0]
            if not hit:
                o.ok(st == "err" and isinstance(r, (ValueError, exc.DLMSException)), f"{case} list of {w}: {r!r}", "no association")
            elif hit[0] is None:
                o.ok(st == "err" and isinstance(r, exc.DLMSException), f"{case} list of {w}: {r!r}", "no list")
            else:
                o.ok(st == "ok" and len(r) == len(hit[0]) and all(x is xs[i] for x, i in zip(r, hit[0])), f"{case} list of {w}: {r!r}", "list")
        want = {}
        for k, (lst, _) in ass.items():
            if k and lst:
                for n, i in enumerate(lst):
                    for j in range(1, NATTR[FEW[i][1]] + 1):
                        if WRITE[(n + j + k) % 4]:
                            want.setdefault(FEW[i][0], set()).add(j)
        got = c.get_writable_attr()
        o.eq({tuple(ln.contents): set(v) for ln, v in got.items()}, want, f"{case} writable", "writable")
        o.eq(len(got), len(want), f"{case} writable names", "writable")
    some = [(lst, w) for lst in lists for w in (None, 16, 32)]
    ctx.all("associations", [p for r in (1, 2) for p in itertools.product(some, repeat=r)] + [((None, 16), x, y) for x in some for y in some], one)

    def absent(case, o):
        """an object of the list was removed from the collection"""
        c, xs = build(FEW[:4])
        sap(c, 1, 0, 16).set_attr(2, list_enc(FEW[:4], lambda n, i: 3))
        c.try_remove(cst.LogicalName(bytearray(FEW[case][0])))
        for f, a in ((c.filter_by_ass, 1), (c.get_objects_list, enums.ClientSAP(16)), (c.get_attr_tree, 1)):
            rejects(o, lambda: f(a), (exc.NoObject,), f"object {case} removed, {f.__name__}", "absent object")
        rejects(o, lambda: c.filter_by_ass(2), (exc.NoObject,), "association 2", "absent association")
    ctx.all("absent", range(4), absent)

    def far(case, o):
        """two associations give different attributes of one object"""
        (k, i), (k2, i2) = case
        c, xs = build(FEW[:2])
        for kk, ii in case:
            sap(c, kk, 1, 16).set_attr(2, list_enc(FEW[:2], lambda n, j: 2 if n == 0 and j in ii else 0))
        w = set().union(*(ii for kk, ii in case if kk))
        o.eq({tuple(n.contents): set(s) for n, s in c.get_writable_attr().items()}, {FEW[0][0]: w} if w else {}, f"associations {case}", "writable")
    some = [(k, ii) for k in range(9) for ii in ((), (2,), (1, 2))]
    ctx.all("unions", [(x, y) for x in some for y in some if x[0] != y[0]], far)

    def writable(case, o):
        k, v, ver, *cleared = case
        c, xs = build(FEW[:1])
        a = sap(c, k, ver, 16)
        if cleared:
            a.clear_attr(3)         # the client is not known
        a.set_attr(2, list_enc(FEW[:1], lambda n, i: v if i == 2 else 0) if ver == 0 else list_enc(FEW[:1], lambda n, i: v if i == 2 else 0))
        o.eq({tuple(n.contents): s for n, s in c.get_writable_attr().items()}, {FEW[0][0]: {2}} if k and v in (2, 3, 5, 6) else {}, f"association {case}", "writable")
    def numbers(case, o):
        """attributes of any number, those of the manufacturer are negative"""
        c, xs = build(FEW[:2])
        ids, ver = case
        ent = lambda n, ln, own: b"\2\4" + b"\x12" + FEW[n][1].to_bytes(2, "big") + b"\x11\0" + b"\x09\6" + bytes(ln) + b"\2\2" + b"\1" + bytes([len(own)]) + b"".join(b"\2\3\x0f" + i.to_bytes(1, "big", signed=True) + b"\x16" + bytes([m]) + b"\0" for i, m in own) + b"\1\0"
        a = sap(c, 1, ver, 16)
        a.set_attr(2, b"\1\2" + ent(0, FEW[0][0], [(i, 3) for i in ids]) + ent(1, FEW[1][0], [(i, 2 if k % 2 else 1) for k, i in enumerate(ids)]))
        want = {tuple(FEW[0][0]): set(ids), tuple(FEW[1][0]): {i for k, i in enumerate(ids) if k % 2}}
        o.eq({tuple(n.contents): set(s) for n, s in c.get_writable_attr().items()}, {k: v for k, v in want.items() if v}, f"attributes {ids}", "writable")
    ctx.all("many numbers", [(tuple(range(-n, 0)) + tuple(range(n)), 1) for n in range(1, 60)], numbers)
    ctx.all("numbers", [(ids, ver) for ver in (0, 1) for n in (1, 2, 3) for ids in itertools.permutations((-128, -1, 0, 1, 2, 3, 20, 127), n)], numbers)
    ctx.all("modes", [(k, v, ver) for k in (0, 1, 2) for ver in (0, 1) for v in range(4 if ver == 0 else 7)] + [(1, v, ver, 1) for ver in (0, 1) for v in range(4)], writable)

"""P29: type files and copies - a collection saved as a type and read back, and a collection copied, is the same server."""
import itertools
import os
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
exc = env.mod("exceptions")
ver = env.mod("version")
push2 = env.mod("cosem_interface_classes.push_setup.ver2")

AV = ver.AppVersion
KEYS = [k for k in r.CLASSES if k != (40, 2)]
#: attributes that belong to the individual meter
OWN = {(1, 0): (2,), (3, 0): (2,), (4, 0): (2,), (15, 0): (7,), (15, 1): (7,)}
ASS = "0.0.40.0.%d.255"
LDN = "0.0.42.0.0.255"


def LN(s):
    return cst.LogicalName(s)


def entry(key, ln, modes, order=None):
    """element of an object list; modes: mode of the attributes from 1 on"""
    acc = [r.st(r.i8(i), r.en(m), b"\0") for i, m in enumerate(modes, 1)]
    if order:
        acc = [acc[i] for i in order]
    return r.st(r.u16(key[0]), r.u8(key[1]), r.ln(ln), r.st(r.ar(*acc), r.ar()))


def ident(c):
    return (c.dlms_ver, c.country, c.country_ver, c.manufacturer, None if c.server_type is None else bytes(c.server_type.encoding))


def new(man=b"ABC", cv=AV(3, 0), typ=b"\x09\x03abc", sv=AV(1, 2, 3)):
    c = col.Collection()
    if cv:
        c.set_country_ver(cv)
    if man:
        c.set_manufacturer(man)
    if typ:
        c.set_server_type(cdt.get_instance_and_pdu_from_value(typ)[0])
    if sv:
        c.set_server_ver(0, sv)
    c.set_spec()
    return c


def add(c, key, ln):
    return c.add_if_missing(class_id=ut.CosemClassId(key[0]), version=cdt.Unsigned(key[1]), logical_name=LN(ln))


def enc(v):
    return None if v is None else bytes(v.encoding)


def values(x):
    return {i: enc(v) for i, v in x.get_index_with_attributes()}


def shape(c):
    return {bytes(x.logical_name.contents): (int(x.CLASS_ID), int(x.VERSION), type(x).__name__) for x in c}


_n = itertools.count()


def store(c):
    f = os.path.join(env.scratch(), f"p29_{os.getpid()}_{next(_n) % 4}.typ")
    c.save_type(f)
    return f


def load(f):
    d = col.Collection.from_xml(f)
    os.unlink(f)
    return d


def server(objs, v=1, assoc=(3,), extra=lambda k: (), **kw):
    """objs: ((key, ln, modes), ...); every association lists itself, the others and all objects"""
    c = new(**kw)
    for k in assoc:
        add(c, (15, v), ASS % k)
    for key, ln, *_ in objs:
        add(c, key, ln)
    al = [((15, v), ASS % k, [1] * 9) for k in assoc]
    for k in assoc:
        c.getASSOCIATION(k).set_attr(2, r.ar(*[entry(*e) for e in al + list(objs)]))
    return c


# ------------------------------------------------------------------ every attribute
def cases_attr():
    for key in KEYS:
        ln, at, _ = r.CLASSES[key]
        if key[0] == 15:
            continue
        for i, (n, samples) in enumerate(at, 2):
            for s in samples or ():
                for m in (0, 1, 2, 3):
                    yield key, i, s, m


def fresh_tag(key, ln, i, tag):
    x = add(col.Collection(), key, ln)
    x.set_attr(i, tag)
    return enc(x.get_attr(i))


@unit("attributes", shards=8)
def attributes(ctx):
    def body(case, o):
        key, i, s, m = case
        ln, at, _ = r.CLASSES[key]
        modes = [1] * (len(at) + 1)
        modes[i - 1] = m
        c = server([(key, ln, modes)])
        x = c.get_object(ln)
        x.set_attr(i, s)
        was = shape(c)
        d = load(store(c))
        o.eq(ident(d), ident(c), "identification", "identification")
        o.eq(d.collection_ver, AV(1, 2, 3), "version", "version")
        o.eq({k: v for k, v in shape(d).items() if k != bytes((0, 0, 40, 0, 0, 255))}, was, "objects", "objects")
        y = d.get_object(ln)
        blank = values(add(new(), key, ln))
        got = values(y)
        if m == 1 and i not in r.DYNAMIC.get(key, ()) and i not in OWN.get(key, ()):
            o.eq(got[i], s, f"fixed attribute {i}", "fixed")
        elif isinstance(y.get_attr_element(i).DATA_TYPE, ut.CHOICE):
            if s[0] != 2:       # the members of a structure are not in the file: it stays open
                o.eq(got[i], fresh_tag(key, ln, i, s[0]), f"type of attribute {i}", "choice")
            y.set_attr(i, s)
            o.eq(enc(y.get_attr(i)), s, f"value given to attribute {i}", "given")
        else:
            o.eq(got[i], blank[i], f"free attribute {i}", "free")
        o.eq({k: v for k, v in got.items() if k != i}, {k: v for k, v in blank.items() if k != i}, "other attributes", "other")
        o.eq(enc(x.get_attr(i)), s, "saving changed the value", "source")
        # copy
        e = c.copy()
        z = e.get_object(ln)
        o.eq(shape(e), was, "objects of the copy", "copy-objects")
        want = s if isinstance(y.get_attr_element(i).DATA_TYPE, ut.CHOICE) or i not in r.DYNAMIC.get(key, ()) else blank[i]
        o.eq(enc(z.get_attr(i)), want, f"copied attribute {i}", "copy-value")
        o.ok(z.get_attr(i) is None or z.get_attr(i) is not x.get_attr(i), "shared value", "copy-shared")
    ctx.all("attribute", list(cases_attr()), body)


# ------------------------------------------------------------------ several associations, several objects
POOL = (((8, 0), "0.0.1.0.0.255", ((3, r.i16(180)), (8, r.bo(1)), (9, r.en(2)))),
        ((70, 0), "0.0.96.3.10.255", ((4, r.en(3)),)),
        ((3, 0), "1.0.1.8.0.255", ((2, r.u32(9)), (3, r.SU))))


@unit("associations", shards=8)
def associations(ctx):
    def body(case, o):
        """case: (version, ((association, ((object, mode), ...)), ...), order of the rights, where the associations list themselves)"""
        v, lists, order, back = case
        c = new()
        ids = [k for k, _ in lists]
        for k in ids:
            add(c, (15, v), ASS % k)
        used = {}
        for k, objs in lists:
            for n, m in objs:
                used.setdefault(n, []).append(m)
        for n in used:
            key, ln, vals = POOL[n]
            x = add(c, key, ln)
            for i, e in vals:
                x.set_attr(i, e)
        al = [entry((15, v), ASS % k, [1] * 9) for k in ids] + [entry((1, 0), LDN, [1, 1])]
        want = {}
        for k, objs in lists:
            el = [entry(POOL[n][0], POOL[n][1], [m] * (len(r.CLASSES[POOL[n][0]][1]) + 1), [j if order == 0 else -j - 1 if order == 1 else (j + 1) % (len(r.CLASSES[POOL[n][0]][1]) + 1)
                                                                                           for j in range(len(r.CLASSES[POOL[n][0]][1]) + 1)]) for n, m in objs]
            want[k] = r.ar(*(el + al if back else al + el))
            c.getASSOCIATION(k).set_attr(2, want[k])
        d = load(store(c))
        cur = bytes((0, 0, 40, 0, 0, 255))
        o.eq({k: v for k, v in shape(d).items() if k != cur}, shape(c), "objects", "objects")
        for k in ids:
            o.eq(enc(d.getASSOCIATION(k).object_list), want[k], f"object list of association {k}", "list")
            o.eq(int(d.getASSOCIATION(k).VERSION), v, "version of the association", "version")
        for n, modes in used.items():
            key, ln, vals = POOL[n]
            y = d.get_object(ln)
            blank = values(add(new(), key, ln))
            for i, e in vals:
                if 1 in modes and i not in OWN.get(key, ()):
                    o.eq(enc(y.get_attr(i)), e, f"{ln} attribute {i} with modes {modes}", "fixed")
                elif not isinstance(y.get_attr_element(i).DATA_TYPE, ut.CHOICE):
                    o.eq(enc(y.get_attr(i)), blank[i], f"{ln} attribute {i} with modes {modes}", "free")
        # once more from what was read
        d.set_server_ver(0, d.collection_ver)
        f = load(store(d))
        o.eq(shape(f), shape(d), "objects of the second reading", "again")
        o.eq({bytes(x.logical_name.contents): values(x) for x in f}, {bytes(x.logical_name.contents): values(x) for x in d}, "values of the second reading", "again")
        # the copy
        full = max(ids, key=lambda k: len(dict(lists)[k]))
        if [len(l) for _, l in lists].count(len(dict(lists)[full])) == 1:
            e = c.copy()
            o.eq(shape(e), shape(c), "objects of the copy", "copy-objects")
            o.eq(ident(e), ident(c), "identification of the copy", "copy-identification")
            o.ok(e == c and hash(e) == hash(c), "a copy is not equal to the original", "copy-equal")
            for n, _ in dict(lists)[full]:
                o.eq(values(e.get_object(POOL[n][1])), values(c.get_object(POOL[n][1])), f"copy of {POOL[n][1]}", "copy-value")
            for k in ids:
                o.eq(enc(e.getASSOCIATION(k).object_list), want[k], f"object list of association {k} in the copy", "copy-list")
    ms = (0, 1, 3)
    one = [()] + [((n, m),) for n in range(3) for m in ms] + [((a, m), (b, q)) for a, b in ((0, 1), (1, 2), (2, 0)) for m in ms for q in ms]
    if not ctx.pick(0, 1):
        two = [()] + [((n, m),) for n in range(3) for m in ms]
    else:
        two = one
    cases = []
    for v in (0, 1):
        for back in (0, 1):
            for order in (0, 1, 2):
                cases += [(v, ((3, a),), order, back) for a in one]
                cases += [(v, ((i, a), (j, b)), order, back) for i, j in ((1, 3), (3, 1)) for a in two for b in (one if i == 1 else two)]
    ctx.all("associations", cases, body)
    ctx.bound(f"{len(cases)} combinations of two associations of versions 0 and 1 over three objects in every mode and order")


@unit("rights", shards=4)
def rights(ctx):
    """the rights differ from attribute to attribute and from association to association"""
    key, ln, vals = POOL[0]

    def body(case, o):
        ids, modes = case
        c = new()
        for k in ids:
            add(c, (15, 1), ASS % k)
        x = add(c, key, ln)
        for i, e in vals:
            x.set_attr(i, e)
        for k, ms in zip(ids, modes):
            own = () if ms is None else (r.st(r.u16(8), r.u8(0), r.ln(ln), r.st(r.ar(*[r.st(r.i8(i), r.en(m), b"\0") for (i, _), m in zip(vals, ms) if m is not None]), r.ar())),)
            c.getASSOCIATION(k).set_attr(2, r.ar(*[entry((15, 1), ASS % q, [1] * 9) for q in ids], entry((1, 0), LDN, [1, 1]), *own))
        d = load(store(c))
        if all(ms is None for ms in modes):
            return o()
        y = d.get_object(ln)
        blank = values(add(new(), key, ln))
        for n, (i, e) in enumerate(vals):
            fixed = any(ms is not None and ms[n] == 1 for ms in modes)
            o.eq(enc(y.get_attr(i)), e if fixed else blank[i], f"attribute {i} with modes {[ms and ms[n] for ms in modes]}", "rights")
    m = (None, 0, 1, 3)
    some = [None, *itertools.product(m, repeat=3)] if ctx.pick(0, 1) else [None, *itertools.product((0, 1), repeat=3), *itertools.product((None, 3), repeat=3), (3, 1, 0), (1, None, 3), (0, 3, 1)]
    three = (None, (0, 0, 1), (1, 0, 0), (0, 1, 3), (3, 3, 3))
    cases = [(ids, (a, b)) for ids in ((1, 3), (3, 1)) for a in some for b in some] + [((1, 2, 3), t) for t in itertools.product(three, repeat=3)]
    ctx.all("rights", cases, body)
    ctx.bound(f"{len(cases)} tables of rights of two and three associations to three attributes of one object")


# ------------------------------------------------------------------ identification
@unit("identification", shards=2)
def identification(ctx):
    def body(case, o):
        man, cv, typ, vers, dev = case
        c = new(man, cv, typ, None)
        for k, x in vers:
            c.set_server_ver(k, x)
        c.set_spec()
        add(c, (15, 1), ASS % 3)
        ev = "0.0.96.11.0.255"
        add(c, (1, 0), ev)
        c.getASSOCIATION(3).set_attr(2, r.ar(entry((15, 1), ASS % 3, [1] * 9), entry((1, 0), ev, [1, 1])))
        if dev:
            c.get_object(LDN).set_attr(2, r.os(man + b"123"))
        d = load(store(c))
        o.eq(ident(d), ident(c), "identification", "identification")
        o.eq(d.collection_ver, dict(vers).get(0), f"version of {vers}", "version")
        o.eq(type(d.get_object(ev)).__name__, type(c.get_object(ev)).__name__, "class of an object", "class")
        o.eq(enc(d.get_object(LDN).get_attr(2)), None, "device name in a type", "device")
        for x in (c, d):
            e = x.copy()
            o.eq(ident(e), ident(x), "identification of the copy", "copy-identification")
            o.eq(e.collection_ver, x.collection_ver, "version of the copy", "copy-version")
            o.ok(e == x and hash(e) == hash(x), "a copy is not equal to the original", "copy-equal")
            o.eq(shape(e), shape(x), "objects of the copy", "copy-objects")
            new_ev = (add(x, (1, 0), "0.0.96.11.1.255"), add(e, (1, 0), "0.0.96.11.1.255"))
            o.eq(type(new_ev[0]).__name__, type(new_ev[1]).__name__, "class of an object added to both", "copy-class")
        e = c.copy()
        o.eq({k: v for k, v in e.server_ver.items() if v is not None}, {k: v for k, v in c.server_ver.items() if v is not None}, "versions of all instances in the copy", "copy-instances")
        o.ok(all(c.server_ver.get(k) == v for k, v in vers), f"versions of the server: {c.server_ver}", "copy-instances")
        e.set_server_ver(3, AV(7, 7, 7))
        o.ok(3 not in c.server_ver, "a version set in the copy shows in the original", "copy-instances")
    def instances(vers, o):
        c = new(b"ABC", AV(3, 0), b"\x09\x03abc", None)
        for k, x in vers:
            c.set_server_ver(k, x)
        c.set_spec()
        add(c, (15, 1), ASS % 3)
        c.getASSOCIATION(3).set_attr(2, r.ar(entry((15, 1), ASS % 3, [1] * 9)))
        e = c.copy()
        o.eq({k: v for k, v in e.server_ver.items() if v is not None}, dict(vers), "versions of all instances in the copy", "copy-instances")
        o.eq((e.collection_ver, ident(e)), (c.collection_ver, ident(c)), "identification of the copy", "copy-identification")
    W = (AV(1, 2, 3), AV(0, 0, 1))
    ctx.all("instances", [tuple(zip(ks, vs)) for n in (0, 1, 2, 3) for ks in itertools.permutations((0, 1, 2, 7), n) for vs in itertools.product(W, repeat=n)], instances)
    V = (AV(1, 2, 3), AV(1, 3, 29), AV(1, 3, 30), AV(0, 0, 1), AV(255, 0, 0))
    vers = [((0, v),) for v in V] + [((1, AV(9, 9, 9)), (0, V[0])), ((0, V[1]), (1, AV(9, 9, 9))), ((2, V[0]), (1, V[1]), (0, V[2])), ((1, V[2]), (0, V[1])), ((1, V[1]), (0, V[2]))]
    ctx.all("identification", itertools.product((b"ABC", b"KPZ", b"101"), (None, AV(3, 0), AV(4, 1), AV(0, 0)), (b"\x09\x03abc", b"\x09\x00", b"\x0a\x02ab", b"\x11\x07", b"\x12\x01\x02"), vers, (0, 1)), body)


# ------------------------------------------------------------------ objects that depend on each other
def dependent():
    mon = [r.st(r.u16(3), r.ln("1.0.1.8.0.255"), r.i8(2)), r.st(r.u16(1), r.ln("0.0.96.50.9.255"), r.i8(2))]
    act = r.st(*r.ACT)
    return (((3, 0), "1.0.1.8.0.255", ((2, r.u32(9)), (3, r.SU))),
            ((1, 0), "0.0.96.50.9.255", ((2, r.u16(9)),)),
            ((71, 0), "0.0.17.0.0.255", ((2, mon[0]), (3, r.u32(1)), (4, r.u32(2)), (5, r.u32(3)), (11, act))),
            ((71, 0), "0.0.17.0.1.255", ((2, mon[1]), (3, r.u16(1)), (4, r.u16(2)), (5, r.u16(3)), (11, act))),
            ((21, 0), "0.0.16.0.0.255", ((3, mon[0]), (2, r.ar(r.u32(5), r.u32(6))))),
            ((7, 1), "1.0.99.1.0.255", ((6, r.CAP[0]), (3, r.ar(r.CAP[1], r.CAP[0])), (4, r.u32(60)))),
            ((8, 0), "0.0.1.0.0.255", ((3, r.i16(180)),)))


@unit("dependencies", shards=8)
def dependencies(ctx):
    DEP = dependent()

    def body(case, o):
        perm, mode = case
        c = new()
        add(c, (15, 1), ASS % 3)
        for n in sorted(perm, key=lambda i: i % 6):
            key, ln, vals = DEP[n]
            x = add(c, key, ln)
            for i, e in vals:
                x.set_attr(i, e)
        want = {n: values(c.get_object(DEP[n][1])) for n in perm}
        c.getASSOCIATION(3).set_attr(2, r.ar(entry((15, 1), ASS % 3, [1] * 9), *[entry(DEP[n][0], DEP[n][1], [mode] * (len(r.CLASSES[DEP[n][0]][1]) + 1)) for n in perm]))
        if mode == 1:
            d = load(store(c))
            for n in perm:
                key, ln, vals = DEP[n]
                y = d.get_object(ln)
                for i, e in vals:
                    if i in OWN.get(key, ()) or i in r.DYNAMIC.get(key, ()):
                        o.eq(enc(y.get_attr(i))[:1], e[:1], f"type of {ln} attribute {i}", "type")
                    else:
                        o.eq(enc(y.get_attr(i)), e, f"{ln} attribute {i}", "fixed")
        e = c.copy()
        for n in perm:
            got = values(e.get_object(DEP[n][1]))
            for i in want[n]:
                if i not in r.DYNAMIC.get(DEP[n][0], ()) or (want[n][i] is not None and DEP[n][0] == (71, 0) and i == 3):
                    o.eq(got[i], want[n][i], f"copy of {DEP[n][1]} attribute {i}", "copy")
        for n in perm:
            o.eq(values(c.get_object(DEP[n][1])), want[n], f"{DEP[n][1]} after copying", "source")
    need = {2: (0,), 3: (1,), 4: (0,), 5: (0, 6)}
    cases = []
    for k in range(1, ctx.pick(6, 7) + 1):
        for s in itertools.combinations(range(7), k):
            if all(set(need.get(n, ())) <= set(s) for n in s):
                cases += [(p, m) for p in itertools.permutations(s) for m in (1, 3)]
    ctx.all("orders", cases, body)
    ctx.bound(f"all {len(cases)} orders of the object list over registers, limiters, a register monitor and a profile that refer to each other")


@unit("waiting", shards=4)
def waiting(ctx):
    """many objects listed before what they wait for"""
    act = r.st(*r.ACT)
    mon = [r.st(r.u16(3), r.ln("1.0.1.8.0.255"), r.i8(2)), r.st(r.u16(3), r.ln("1.0.2.8.0.255"), r.i8(2))]
    objs = [((3, 0), "1.0.1.8.0.255", ((2, r.u32(9)), (3, r.SU))), ((3, 0), "1.0.2.8.0.255", ((2, r.u16(9)), (3, r.SU)))]
    objs += [((71, 0), f"0.0.17.0.{k}.255", ((2, mon[k % 2]), (3, (r.u16 if k % 2 else r.u32)(k + 1)), (4, (r.u16 if k % 2 else r.u32)(k + 2)), (5, (r.u16 if k % 2 else r.u32)(k + 3)), (11, act))) for k in range(ctx.pick(4, 5))]

    def body(case, o):
        perm, mode = case
        c = new()
        add(c, (15, 1), ASS % 3)
        for key, ln, vals in objs:
            x = add(c, key, ln)
            for i, e in vals:
                x.set_attr(i, e)
        want = {ln: values(c.get_object(ln)) for _, ln, _ in objs}
        c.getASSOCIATION(3).set_attr(2, r.ar(entry((15, 1), ASS % 3, [1] * 9), *[entry(objs[n][0], objs[n][1], [mode] * (len(r.CLASSES[objs[n][0]][1]) + 1)) for n in perm]))
        e = c.copy()
        for key, ln, vals in objs:
            o.eq(values(e.get_object(ln)), want[ln], f"copy of {ln}", "copy")
    cases = [(p, m) for p in itertools.permutations(range(len(objs))) for m in (1, 3)]
    ctx.all("orders", cases, body)
    ctx.bound(f"all orders of two registers and {len(objs) - 2} limiters of them in the list")


# ------------------------------------------------------------------ the collection of a meter out of the library
LIB = ((b"KPZ", b"\x09\x03abc", "1.1.4", 101), (b"KPZ", b"\x09\x03abc", "1.1.8", 102), (b"KPZ", b"\x09\x03abc", "1.1.8d2", 103), (b"KPZ", b"\x09\x03abc", "2.0.1", 104),
       (b"KPZ", b"\x09\x03abd", "1.1.6", 105), (b"ABC", b"\x09\x03abc", "1.1.5", 106), (b"ABC", b"\x0a\x02ab", "1.1.5", 107))
ASK = [x[:3] for x in LIB] + [(b"KPZ", b"\x09\x03abc", "1.1.7"), (b"KPZ", b"\x09\x03abc", "2.0.9"), (b"KPZ", b"\x09\x03abd", "1.1.8"), (b"ABC", b"\x09\x03abc", "1.1.8d2"),
                               (b"KPZ", b"\x09\x03abc", "1.2.4"), (b"KPZ", b"\x09\x03abc", "1.1.3"), (b"XYZ", b"\x09\x03abc", "1.1.4"), (b"ABC", b"\x09\x03abe", "1.1.5")]
#: what the library gives for each question: the same version (with the additional text), else the nearest below
ANSWER = dict(zip(ASK, (101, 102, 103, 104, 105, 106, 107, 101, 104, 105, 106, None, None, None, None)))


class Meters:
    """collections asked for, changed, asked for again"""

    def fresh(self):
        return {"c": [], "m": []}

    def ops(self, s):
        if len(s["c"]) < 4:
            for n, k in enumerate(ASK):
                yield ("ask", n)
        for n, k in enumerate(s["m"]):
            yield ("change", n)
            yield ("grow", n)

    def apply(self, s, op, o):
        k, n = op
        if k == "ask":
            man, t, v = ASK[n]
            call = lambda: col.get_collection(man, cdt.get_instance_and_pdu_from_value(t)[0], AV.from_str(v))
            want = ANSWER[ASK[n]]
            if want is None:
                rejects(o, call, exc.NoConfig, f"collection for {ASK[n]}", "library")
                return
            c = call()
            s["c"].append(c)
            s["m"].append([want, 3, man, t])
            o.ok(all(c is not x for x in s["c"][:-1]), f"the same collection again for {ASK[n]}", "library")
        elif k == "change":
            s["c"][n].get_object("0.0.1.0.0.255").set_attr(3, r.i16(7))
            s["m"][n][0] = 7
        else:
            add(s["c"][n], (1, 0), "0.0.96.50.9.255")
            s["m"][n][1] = 4

    def canon(self, s):
        return tuple(map(tuple, s["m"]))

    def invariant(self, s):
        for c, (v, size, man, t) in zip(s["c"], s["m"]):
            got = (enc(c.get_object("0.0.1.0.0.255").get_attr(3)), len(c) - (c.get(bytes((0, 0, 40, 0, 0, 255))) is not None), c.manufacturer, enc(c.server_type))
            if got != (r.i16(v), size, man, t):
                raise Mismatch(f"collection {got}, expected {(r.i16(v), size, man, t)}", "library")


@unit("library")
def library(ctx):
    for man, t, v, mark in LIB:
        os.makedirs(d := os.path.join("Types", man.decode(), t.hex()), exist_ok=True)
        c = server([((8, 0), "0.0.1.0.0.255", [1] * 9)], man=man, typ=t, sv=AV.from_str(v))
        c.get_object("0.0.1.0.0.255").set_attr(3, r.i16(mark))
        c.save_type(os.path.join(d, v + ".typ"))
    for f in ("get_manufactures_container", "get_dir_entry", "get"):
        getattr(getattr(col, f, None), "cache_clear", lambda: None)()
    try:
        ctx.bfs("library", Meters(), ctx.pick(3, 4))
    finally:
        for man, t, v, mark in LIB:
            os.unlink(os.path.join("Types", man.decode(), t.hex(), v + ".typ"))
    ctx.bound(f"histories of up to {ctx.pick(3, 4)} steps: collections asked for (15 questions to a library of 7 types) and changed")


# ------------------------------------------------------------------ copies are independent
class Copies:
    def __init__(self):
        c = server([((8, 0), "0.0.1.0.0.255", [1, 3, 3, 1, 3, 3, 3, 3, 3]), ((1, 0), "0.0.96.50.9.255", [1, 3]), ((20, 0), "0.0.13.0.0.255", [1] + [3] * 9)])
        c.get_object("0.0.1.0.0.255").set_attr(3, r.i16(1))
        c.get_object("0.0.96.50.9.255").set_attr(2, r.u16(1))
        c.get_object("0.0.13.0.0.255").set_attr(8, r.WEEK[1])
        self.c = [c]
        self.m = [{("0.0.1.0.0.255", 3): r.i16(1), ("0.0.96.50.9.255", 2): r.u16(1), ("0.0.13.0.0.255", 8): r.WEEK[1], "objects": 3, "list": 4}]


class CopySystem:
    def fresh(self):
        return Copies()

    def ops(self, s):
        for n in range(len(s.c)):
            yield ("zone", n, 2)
            yield ("data", n, 5)
            yield ("week", n)
            yield ("add", n)
            yield ("remove", n)
            yield ("mode", n)
            if len(s.c) < 3:
                yield ("copy", n)

    def apply(self, s, op, o):
        kind, n = op[:2]
        c, m = s.c[n], s.m[n]
        if kind == "zone":
            c.get_object("0.0.1.0.0.255").set_attr(3, r.i16(op[2]))
            m["0.0.1.0.0.255", 3] = r.i16(op[2])
        elif kind == "data":
            c.get_object("0.0.96.50.9.255").value.set(op[2])
            m["0.0.96.50.9.255", 2] = r.u16(op[2])
        elif kind == "week":
            w = c.get_object("0.0.13.0.0.255").week_profile_table_passive
            if len(w) == 1:
                w.append(type(w)(r.WEEK[1].replace(b"w", b"v"))[0])
                m["0.0.13.0.0.255", 8] = b"\x01\x02" + r.WEEK[1][2:] + r.WEEK[1][2:].replace(b"w", b"v")
            else:
                w.pop(1)
                m["0.0.13.0.0.255", 8] = r.WEEK[1]
        elif kind == "add":
            add(c, (70, 0), "0.0.96.3.10.255")
            m["objects"] = 4
        elif kind == "remove":
            c.try_remove(LN("0.0.96.3.10.255"))
            m["objects"] = 3
        elif kind == "mode":
            e = c.getASSOCIATION(3).object_list
            if len(e) == 4:
                e.append(type(e)(r.ar(entry((70, 0), "0.0.96.3.10.255", [1] * 4)))[0])
                add(c, (70, 0), "0.0.96.3.10.255")
                m["objects"], m["list"] = 4, 5
            else:
                e.pop(4)
                m["list"] = 4
        elif kind == "copy":
            if m["list"] == 5 and m["objects"] == 3:
                return
            s.c.append(c.copy())
            s.m.append(dict(m))

    def canon(self, s):
        return repr(s.m)

    def invariant(self, s):
        for n, (c, m) in enumerate(zip(s.c, s.m)):
            got = {k: enc(c.get_object(k[0]).get_attr(k[1])) if isinstance(k, tuple) else len(c) - 2 if k == "objects" else len(c.getASSOCIATION(3).object_list) for k in m}
            if got != m:
                raise Mismatch(f"collection {n}: {({k: (v, m[k]) for k, v in got.items() if v != m[k]})}", "copy-state")
            for x in c:
                if x.collection is not c:
                    raise Mismatch(f"collection {n}: {x} belongs to another collection", "owner")


@unit("large values", shards=4)
def large_values(ctx):
    """values of many elements come back whole, and a copy shares none of them"""
    size = lambda n: bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else b"\x82" + n.to_bytes(2, "big")
    arr = lambda items: (lambda xs: b"\1" + size(len(xs)) + b"".join(xs))(list(items))
    MADE = {"scripts": ((9, 0), "0.0.10.0.100.255", 2, lambda n: arr((r.st(r.u16(i + 1), r.ar(r.st(r.en(1), r.u16(70), r.ln("0.0.96.3.10.255"), r.i8(4), r.en(0)))) for i in range(n)))),
            "special days": ((11, 0), "0.0.11.0.0.255", 2, lambda n: arr((r.st(r.u16(i), r.os((2000 + i).to_bytes(2, "big") + b"\1\2\xff"), r.u8(i % 7)) for i in range(n)))),
            "columns": ((7, 1), "1.0.99.1.0.255", 3, lambda n: arr((r.st(r.u16(8), r.ln("0.0.1.0.0.255"), r.i8(2), r.u16(i)) for i in range(n)))),
            "octets": ((1, 0), "0.0.96.50.0.255", 2, lambda n: b"\x09" + size(9 * n) + bytes(i & 0xff for i in range(n * 9))),
            "thresholds": ((21, 0), "0.0.16.0.0.255", 2, lambda n: arr((r.u32(i) for i in range(n))))}

    def body(case, o):
        kind, n, m = case
        key, ln, i, make = MADE[kind]
        c = server([((8, 0), "0.0.1.0.0.255", [1] * 9), ((1, 0), "0.0.96.50.9.255", [1, 1])] + ([(key, ln, [m] * (len(r.CLASSES[key][1]) + 1))]))
        x = c.get_object(ln)
        if kind == "thresholds":
            c.get_object("0.0.96.50.9.255").set_attr(2, r.u32(1))
            x.set_attr(3, r.st(r.u16(1), r.ln("0.0.96.50.9.255"), r.i8(2)))
        if kind == "columns":
            x.set_attr(6, r.CAP[0])
        v = make(n)
        st, e = outcome(x.set_attr, i, v)
        o.eq(st, "ok", f"{kind} {n}: {e!r}", "large")
        e = c.copy()
        y = e.get_object(ln)
        o.eq(enc(y.get_attr(i)), v, f"{n} {kind} in the copy", "large-copy")
        if m == 1 and key != (1, 0):
            d = load(store(c)).get_object(ln)
            o.eq(enc(d.get_attr(i)) if kind != "thresholds" else v, v, f"{n} {kind} in the type", "large-type")
        for a, b in ((x, y), (y, x)):
            now = enc(b.get_attr(i))
            w = a.get_attr(i)
            if isinstance(w, cdt.Array):
                for k in sorted({0, len(w) // 2, len(w) - 1}):
                    if 0 <= k < len(w):
                        el = w[k]
                        (el[0] if isinstance(el, cdt.Structure) else el).set(5000 + k)
                w.values.pop() if len(w) else None
            else:
                w.set(b"\x09\1\7")
            o.eq(enc(b.get_attr(i)), now, f"{n} {kind}: a change shows on the other side", "large-shared")
    ctx.all("large", [(k, n, m) for k in MADE for n in ctx.pick((0, 1, 2, 7, 8, 9, 17, 100, 130, 260), (0, 1, 2, 7, 8, 9, 15, 16, 17, 33, 65, 100, 127, 128, 130, 200, 260)) for m in (1, 3)], body)
    ctx.bound("tables, columns, octets and thresholds of up to 260 elements, read only and writable: in the type, in the copy, changed on either side")


@unit("copies", shards=8)
def copies(ctx):
    ctx.bfs("histories", CopySystem(), ctx.pick(4, 5))
    ctx.bound(f"all histories of up to {ctx.pick(4, 5)} operations (change a value, a list, the objects, the rights, copy) on a collection and up to two copies of it or of its copies")


# ------------------------------------------------------------------ documents written by hand
HEAD = "<dlms_ver>6</dlms_ver><country>7</country><country_ver>3.0</country_ver><manufacturer>ABC</manufacturer><server_type>0903616263</server_type><server_ver>1.2.3</server_ver>"


def document(version, objs, root="Objects", head=HEAD):
    f = os.path.join(env.scratch(), f"p29_{os.getpid()}_d.typ")
    with open(f, "w", encoding="utf-8") as h:
        h.write(f"<?xml version='1.0' encoding='utf-8'?><{root} version=\"{version}\">{head}{''.join(objs)}</{root}>")
    return f


def v3(key, ln, attrs):
    return f'<object name="x" ln="{ln}"><class_id>{key[0]}</class_id><version>{key[1]}</version>' + "".join(f'<attribute index="{i}">{t}</attribute>' for i, t in attrs) + "</object>"


@unit("documents", shards=4)
def documents(ctx):
    def one(case, o):
        key, i, s, form, vs = case
        ln, at, _ = r.CLASSES[key]
        d = load(document(vs, [v3(key, ln, [(i, s.hex() if form == "value" else str(s[0]))])]))
        o.eq(ident(d), (6, ident(d)[1], AV(3, 0), b"ABC", b"\x09\x03abc"), "identification", "identification")
        o.eq((int(d.country.value), d.collection_ver), (7, AV(1, 2, 3)), "country and version", "identification")
        y = d.get_object(ln)
        o.eq((int(y.CLASS_ID), int(y.VERSION)), key, "class", "class")
        blank = values(add(new(), key, ln))
        if form == "value":
            o.eq(enc(y.get_attr(i)), s, f"attribute {i}", "value")
        elif not isinstance(y.get_attr_element(i).DATA_TYPE, ut.CHOICE):
            o.eq(enc(y.get_attr(i)), blank[i], f"attribute {i}", "type")
        elif s[0] != 2 and blank[i] is None:
            o.eq(enc(y.get_attr(i)), fresh_tag(key, ln, i, s[0]), f"type of attribute {i}", "type")
        o.eq({k: v for k, v in values(y).items() if k != i}, {k: v for k, v in blank.items() if k != i}, "other attributes", "other")
    cs = [(k, i, s, f, v) for k, i, s, m in cases_attr() if m == 0 for f in ("value", "type") for v in ("3.0.0", "3.1.0", "3.2") if not (f == "value" and len(s) == 1)]
    ctx.all("version 3", cs, one)

    DEP = dependent()

    def order(case, o):
        objs = []
        for n, back in case:
            key, ln, vals = DEP[n]
            objs.append(v3(key, ln, [(i, e.hex()) for i, e in (vals[::-1] if back else vals)]))
        d = load(document("3.2.0", objs))
        o.eq(sorted(shape(d)), sorted({bytes(LN(DEP[n][1]).contents) for n, _ in case} | {bytes(LN(LDN).contents)}), "objects", "objects")
        for n, _ in case:
            y = d.get_object(DEP[n][1])
            for i, e in DEP[n][2]:
                o.eq(enc(y.get_attr(i)), e, f"{DEP[n][1]} attribute {i}", "value")
    need = {2: (0,), 3: (1,), 4: (0,), 5: (0, 6)}
    cases = []
    for k in range(1, ctx.pick(4, 5) + 1):
        for s in itertools.combinations(range(7), k):
            if all(set(need.get(n, ())) <= set(s) for n in s):
                for p in itertools.permutations(s):
                    for b in itertools.product((0, 1), repeat=k):
                        cases.append(tuple(zip(p, b)))
    ctx.all("orders", cases, order)

    def bad(case, o):
        vs, root = case
        f = document(vs, [v3((8, 0), "0.0.1.0.0.255", [(3, "100078")])], root)
        good = root == "Objects" and vs in ("3.0.0", "3.1.0", "3.2.0", "4.0.0")
        st, d = outcome(col.Collection.from_xml, f)
        os.unlink(f)
        if good:
            o.ok(st == "ok", f"{vs} {root}: {d!r}", "read")
        else:
            o.ok(st == "err" and isinstance(d, (ValueError, exc.DLMSException)), f"{vs} {root}: {d!r}", "refused")
    ctx.all("wrong documents", itertools.product(("1.0.0", "2.2.0", "3.0.0", "3.1.0", "3.2.0", "3.3.0", "4.0.0", "4.1.0", "5.0.0"), ("Objects", "objects", "template.objects", "x")), bad)

    # a type the class does not allow: only where the document insists
    TAGS = (0, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27)
    opened = [(k, i) for k in KEYS if k[0] not in (15, 71) for i in range(2, len(r.CLASSES[k][1]) + 2) if isinstance(add(new(), k, r.CLASSES[k][0]).get_attr_element(i).DATA_TYPE, ut.CHOICE)]

    def forced(case, o):
        (key, i), tag, force, vs = case
        ln = r.CLASSES[key][0]
        att = f'"{i}" forced="1"' if force else f'"{i}"'
        if vs == "4.0.0":
            ass = f'<obj ln="{ASS % 3}"><ver>1</ver><attr i="2">{r.ar(entry((15, 1), ASS % 3, [1] * 9), entry(key, ln, [1] * (len(r.CLASSES[key][1]) + 1))).hex()}</attr></obj>'
            objs = [ass, f'<obj ln="{ln}"><attr i={att}>{tag}</attr></obj>']
        else:
            objs = [f'<object name="x" ln="{ln}"><class_id>{key[0]}</class_id><version>{key[1]}</version><attribute index={att}>{tag}</attribute></object>']
        y = load(document(vs, objs)).get_object(ln)
        z = add(new(), key, ln)
        blank = values(z)
        k, w = outcome(z.set_attr, i, tag)
        free = k == "ok" and vs == "4.0.0" or blank[i] is None
        want = enc(z.get_attr(i)) if k == "ok" and free else enc(cdt.get_common_data_type_from(bytes([tag]))()) if force and free else blank[i]
        o.eq(enc(y.get_attr(i)), want, f"attribute {i} of type {tag}", "forced")
        o.eq({k: v for k, v in values(y).items() if k != i}, {k: v for k, v in blank.items() if k != i}, "other attributes", "other")
        o.eq(len(values(y)), len(blank), "attributes", "other")
    ctx.all("forced types", itertools.product(opened, TAGS, (0, 1), ("3.0.0", "3.2.0", "4.0.0")), forced)

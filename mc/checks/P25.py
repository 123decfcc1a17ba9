"""P25: access rights - what the object list of an association says is what is answered, for every access mode,
security policy and mechanism, every list, and after every history of changes on several equal collections."""
import itertools
import env
from explorer import unit, outcome, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
exc = env.mod("exceptions")
pdu = env.mod("pdu_enums")
enums = env.mod("types.implementations.enums")
mech = env.mod("cosem_interface_classes.association_ln.mechanism_id")

MODES = {0: (0, 1, 2, 3), 1: range(7), 2: range(7)}
METH = {0: (0, 1), 1: (0, 1, 2), 2: (0, 1, 2)}
READ = {0: "no", 1: "yes", 2: "no", 3: "yes", 4: "auth", 5: "no", 6: "auth"}
WRITE = {0: "no", 1: "no", 2: "yes", 3: "yes", 4: "no", 5: "auth", 6: "auth"}
LN = {"A": ((0, 0, 1, 0, 0, 255), 8, 0), "B": ((1, 0, 1, 8, 0, 255), 3, 0), "C": ((0, 0, 96, 1, 0, 255), 1, 0)}
ABSENT = (0, 0, 96, 1, 9, 255)


def arr(tag, items):
    n = len(items)
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n])) + b"".join(items)


def list_enc(objs, ver):
    """objs: [(key, {attr: mode}, {meth: mode})] as the octets of an object list"""
    out = []
    for k, attrs, meths in objs:
        ln, cid, v = LN[k]
        a = arr(1, [arr(2, [bytes([15, i & 255]), bytes([22, m]), b"\x00" if i % 2 else arr(1, [b"\x0f\x01"])]) for i, m in attrs])
        b = arr(1, [arr(2, [bytes([15, i & 255]), bytes([3 if ver == 0 else 22, m])]) for i, m in meths])
        out.append(arr(2, [bytes([18, 0, cid]), bytes([17, v]), b"\x09\x06" + bytes(ln), arr(2, [a, b])]))
    return arr(1, out)


def new_ass(c, k, ver, objs=None):
    a = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(f"0.0.40.0.{k}.255"))
    if objs is not None:
        a.set_attr(2, list_enc(objs, ver))
    return a


def name(ln):
    return cst.LogicalName(bytearray(ln))


V0 = list(pdu.SecurityPolicyVer0)
V1 = [pdu.SecurityPolicyVer1(i) for i in range(256)]


def authenticated(p):
    if isinstance(p, pdu.SecurityPolicyVer0):
        return int(p) in (1, 3)
    return bool(int(p) & 0b0010_0100)


def want(table, mode, p):
    return {"no": False, "yes": True, "auth": authenticated(p)}[table[mode]]


@unit("modes")
def modes(ctx):
    def attr(case, o):
        ver, m, i = case
        c = col.Collection()
        a = new_ass(c, 1, ver, [("A", [(j, (m + 1) % len(MODES[ver])) for j in (1, 2, 3) if j != i] + [(i, m)], [])])
        n = name(LN["A"][0])
        for p in V0 + V1:
            for who in (a, None):
                kw = {} if who is a else {"association_id": 1}
                t = a if who is a else c
                o.eq(t.is_readable(ln=n, index=i, security_policy=p, **kw), want(READ, m, p), f"readable {case} {p!r}", "readable")
                o.eq(t.is_writable(ln=n, index=i, security_policy=p, **kw), want(WRITE, m, p), f"writable {case} {p!r}", "writable")
        o.eq((a.is_readable(n, i), a.is_writable(n, i)), (READ[m] == "yes", WRITE[m] == "yes"), f"{case} no policy", "default")
        o.eq((c.is_readable(n, i, 1), c.is_writable(n, i, 1)), (READ[m] == "yes", WRITE[m] == "yes"), f"{case} no policy", "default")
        o.eq(int(a.object_list.get_attr_access(n, i)), m, f"{case} mode", "mode")
        o.eq(a.object_list.is_writable(n, {i}), WRITE[m] != "no", f"{case} by list", "list writable")
        for tr in [x.access_mode for x in a.object_list[0].access_rights.attribute_access if int(x.attribute_id) == i]:
            o.eq((tr.is_readable(), tr.is_writable()), (READ[m] != "no", WRITE[m] != "no"), f"{case} by mode", "mode")
    ctx.all("attributes", [(v, m, i) for v in (0, 1, 2) for m in MODES[v] for i in (1, 2, 3)], attr)

    def meth(case, o):
        ver, m, i, own = case
        c = col.Collection()
        a = new_ass(c, 1, ver, [("A", [], [(j, (m + 1) % len(METH[ver])) for j in (1, 2, 3) if j != i] + [(i, m)])])
        if own is not None:
            a.set_attr(6, (2, 16, 756, 5, 8, 2, own) if ver == 0 else b"\x09\x07\x60\x85\x74\x05\x08\x02" + bytes([own]))
        n = name(LN["A"][0])
        for k in (*range(8), None):
            if k is None and own is None:
                continue
            eff = own if k is None else k
            w = False if m == 0 else True if m == 1 else eff >= 1
            for mk in ([None] if k is None else [mech.MechanismIdElement(k), (mech.NONE, mech.LOW, mech.HIGH, mech.HIGH_MD5, mech.HIGH_SHA1, mech.HIGH_GMAC, mech.HIGH_SHA256, mech.HIGH_ECDSA)[k]]):
                o.eq(a.is_accessible(n, i, mk), w, f"accessible {case} mechanism {k}", "accessible")
                o.eq(c.is_accessible(n, i, 1, mk), w, f"accessible {case} mechanism {k}", "accessible")
        o.eq(int(a.object_list.get_meth_access(n, i)), m, f"{case} mode", "method mode")
    ctx.all("methods", [(v, m, i, own) for v in (0, 1, 2) for m in METH[v] for i in (1, 2, 3) for own in (None, 0, 1, 2)], meth)
    ctx.bound("3 association versions x every access mode x 4 policies of version 0 and all 256 of version 1; every method mode x 8 mechanisms and that of the association")


# ------------------------------------------------------------------ lists
def ref_find(objs, key, index, what):
    for k, attrs, meths in objs:
        if LN[k][0] == key:
            for i, m in (attrs, meths)[what]:
                if i == index:
                    return m
            return "index"
    return "object"


def queries(c, k, objs, say, must):
    """every question about association k of collection c; objs None: no list yet"""
    for key in [LN[x][0] for x in LN] + [ABSENT]:
        n = name(key)
        for i in (1, 2, 3, -1, 0, 4, 255, 257, 258, -255):
            for f, w, table in ((c.is_readable, 0, READ), (c.is_writable, 0, WRITE), (c.is_accessible, 1, None)):
                st, r = outcome(f, n, i, k) if w == 0 else outcome(f, n, i, k, mech.LOW)
                m = "list" if objs is None else ref_find(objs, key, i, w)
                if isinstance(m, str):
                    kinds = {"list": exc.DLMSException, "object": exc.NoObject, "index": ValueError}[m]
                    must(st == "err" and isinstance(r, kinds), f"{say} {f.__name__} {key} {i}: {r!r}, the {m} is absent", "absent " + m)
                else:
                    g = m > 0 if w else table[m] == "yes"
                    must(st == "ok" and r is g, f"{say} {f.__name__} {key} {i}: {r!r} instead of {g}", f.__name__)


def raise_unless(cond, msg, tag):
    if not cond:
        raise Mismatch(msg, tag)


@unit("lists", shards=4)
def lists(ctx):
    pool = [[], [(1, 1)], [(2, 3)], [(1, 1), (2, 2)], [(2, 2), (1, 3)], [(3, 0), (2, 1), (1, 3)]]
    mpool = [[], [(1, 1)], [(2, 1), (1, 0)]]
    one = [(a, m) for a in pool for m in mpool]
    cases = [(v, ()) for v in (0, 1)]
    for v in (0, 1, 2):
        for k in ("A", "B"):
            cases += [(v, ((k, a, m),)) for a, m in one]
        for ks in (("A", "B"), ("B", "A")):
            cases += [(v, ((ks[0], *x), (ks[1], *y))) for x in one[::ctx.pick(2, 1)] for y in one[::ctx.pick(2, 1)]]
        cases += [(v, (("C", *x), ("A", *y), ("B", *z))) for x in one[::7] for y in one[1::7] for z in one[2::7]]

    def body(case, o):
        ver, objs = case
        c = col.Collection()
        a = new_ass(c, 1, ver, objs)
        must = lambda cond, msg, tag: o.ok(cond, msg, tag)
        queries(c, 1, objs, f"{case}", must)
        o.eq([x.logical_name.contents for x in c.filter_by_ass(1)], [bytes(LN[k][0]) for k, *_ in objs], f"{case} objects", "objects")
        o.eq([x.logical_name.contents for x in a.get_objects()], [bytes(LN[k][0]) for k, *_ in objs], f"{case} objects", "objects")
        o.eq([x.logical_name.contents for x in a.objects], [bytes(LN[k][0]) for k, *_ in objs], f"{case} objects", "objects")
        o.eq([(x.logical_name.contents, int(x.CLASS_ID), int(x.VERSION)) for x in c][2:], sorted([(bytes(ln), cid, v) for k, *_ in objs for ln, cid, v in [LN[k]]], key=lambda t: [bytes(LN[k][0]) for k, *_ in objs].index(t[0])), f"{case}: objects made", "made")
        ref = {}
        for k, attrs, _ in objs:
            for i, m in attrs:
                if WRITE[m] != "no":
                    ref.setdefault(bytes(LN[k][0]), set()).add(i)
        o.eq({k.contents: v for k, v in c.get_writable_attr().items()}, ref, f"{case} writable", "writable attributes")
        for k, attrs, _ in objs:
            idx = [i for i, _ in attrs]
            for s in [s for r in range(len(idx) + 1) for s in itertools.combinations(idx, r)]:
                o.eq(a.object_list.is_writable(name(LN[k][0]), set(s)), all(WRITE[dict(attrs)[i]] != "no" for i in s), f"{case} {k} {s}", "list writable")
    ctx.all("lists", cases, body)
    ctx.bound("all lists of 0..2 objects and some of 3, 18 sets of rights each, 3 association versions; every object, index and question, present or absent")


# ------------------------------------------------------------------ histories
LISTS = {"x": [("A", [(1, 1), (2, 3)], [(1, 1)]), ("B", [(2, 1)], [])],
         "y": [("A", [(1, 0), (2, 1)], [(1, 0)])],
         "z": [("B", [(2, 3), (1, 2)], [(2, 1)]), ("A", [(2, 2)], [(1, 1)])]}


class Sys:
    """two collections that compare equal, each with two associations"""
    def fresh(self):
        s = type("S", (), {})()
        s.c, s.m = [], []
        for n in range(2):
            c = col.Collection()
            for k in (1, 2):
                new_ass(c, k, n)
            for ln, cid, v in LN.values():
                c.add_if_missing(ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))
            s.c.append(c)
            s.m.append({1: None, 2: None})
        return s

    def ops(self, s):
        for n in range(2):
            for k in (1, 2):
                for l in LISTS:
                    yield ("list", n, k, l)
                yield ("replace", n, k)
                if s.m[n][k]:
                    yield ("mode", n, k, 3)
                    yield ("mode", n, k, 0)
                    yield ("drop", n, k)
                    yield ("append", n, k, "x")

    def apply(self, s, op, o):
        kind, n, k = op[:3]
        c = s.c[n]
        a = c.getASSOCIATION(k)
        if kind == "list":
            a.set_attr(2, list_enc(LISTS[op[3]], n))
            s.m[n][k] = [(x, list(p), list(q)) for x, p, q in LISTS[op[3]]]
        elif kind == "replace":
            new_ass(c, k, n)
            s.m[n][k] = None
        elif kind == "mode":
            m = s.m[n][k]
            a.object_list[0].access_rights.attribute_access[0].access_mode.set(op[3])
            a.object_list[0].access_rights.method_access[0].access_mode.set(op[3] and 1) if m[0][2] else None
            x, p, q = m[0]
            m[0] = (x, [(p[0][0], op[3])] + p[1:], [(q[0][0], int(bool(op[3])))] + q[1:] if q else q)
        elif kind == "drop":
            a.object_list.pop(0)
            s.m[n][k].pop(0)
        else:
            e = LISTS[op[3]][1]
            if e[0] in [x for x, *_ in s.m[n][k]]:
                return
            a.object_list.append(type(a.object_list)(list_enc([e], n))[0])
            s.m[n][k].append((e[0], list(e[1]), list(e[2])))

    def canon(self, s):
        return repr(s.m)

    def invariant(self, s):
        for n in range(2):
            for k in (1, 2):
                queries(s.c[n], k, s.m[n][k], f"collection {n} association {k}", raise_unless)


@unit("histories", shards=8)
def histories(ctx):
    ctx.bfs("changes", Sys(), ctx.pick(3, 4))
    ctx.bound(f"all histories of up to {ctx.pick(3, 4)} changes of the object lists of two associations in each of two equal collections; all 48 questions to each association in every state")


# ------------------------------------------------------------------ clients
SAPS = (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)


@unit("clients")
def clients(ctx):
    def body(case, o):
        """case: ((association id, SAP), ...) in order of addition"""
        c = col.Collection()
        for rnd in range(2):
            lst = case if rnd == 0 else tuple((k, SAPS[(SAPS.index(s) + 1) % 8]) for k, s in case)
            for k, s in lst:
                if rnd == 0:
                    new_ass(c, k, 1, [("A" if k % 2 else "B", [], [])])
                c.getASSOCIATION(k).associated_partners_id.client_SAP.set(s)
            for s in SAPS:
                sap = enums.ClientSAP(s)
                ids = [k for k, x in lst if x == s and k]
                st, r = outcome(c.get_association_id, sap)
                st2, r2 = outcome(c.getAssociationBySAP, sap)
                st3, r3 = outcome(c.get_objects_list, sap)
                if ids:
                    o.eq((st, r), ("ok", ids[0]), f"{lst} id of {s}", "id")
                    o.ok(st2 == "ok" and r2 is c.getASSOCIATION(ids[0]), f"{lst} association of {s}: {r2!r}", "association")
                    o.eq([x.logical_name.contents for x in r3] if st3 == "ok" else r3, [bytes(LN["A" if ids[0] % 2 else "B"][0])], f"{lst} objects of {s}", "objects")
                else:
                    for q in ((st, r), (st2, r2), (st3, r3)):
                        o.ok(q[0] == "err" and isinstance(q[1], (ValueError, exc.DLMSException)), f"{lst} client {s}: {q[1]!r}", "absent")
            for k, s in lst:
                o.eq(c.getASSOCIATION(k).source_address, bytes([s << 1 | 1]), f"{lst} address", "address")
    ids = (0, 1, 2, 3)
    cases = [()]
    for r in (1, 2, 3):
        for ks in itertools.permutations(ids, r):
            for ss in itertools.product((0x10, 0x20, 0x30) if r == 3 else SAPS, repeat=r):
                cases.append(tuple(zip(ks, ss)))
    ctx.all("clients", cases, body)
    ctx.all("many", [((k, s), (m, s2)) for k in range(10) for m in range(10) if k != m for s, s2 in ((0x10, 0x10), (0x10, 0x20), (0x20, 0x10))], body)

    def empty(k, o):
        c = col.Collection()
        a = new_ass(c, k, 0)
        a.associated_partners_id.client_SAP.set(0x10)
        st, r = outcome(c.get_objects_list, enums.ClientSAP(0x10))
        o.ok(st == "err" and isinstance(r, exc.DLMSException), f"{r!r}", "empty")
        for f in (c.is_readable, c.is_writable, c.is_accessible):
            st, r = outcome(f, name(LN["A"][0]), 1, k)
            o.ok(st == "err" and isinstance(r, exc.DLMSException), f"{r!r}", "empty")
            st, r = outcome(f, name(LN["A"][0]), 1, k + 1)
            o.ok(st == "err" and isinstance(r, exc.NoObject), f"{r!r}", "no association")
    ctx.all("no list", (1, 2, 3), empty)
    ctx.bound("all assignments of 8 client addresses to up to 2 of 4 associations (3 to 3), in every order, and once changed")


# ------------------------------------------------------------------ names that differ in one group
def enc_names(objs, ver):
    """objs: [(name, class, version, {attr: mode}, {meth: mode})]"""
    out = []
    for ln, cid, v, attrs, meths in objs:
        a = arr(1, [arr(2, [bytes([15, i]), bytes([22, m]), b"\x00"]) for i, m in attrs])
        b = arr(1, [arr(2, [bytes([15, i]), bytes([3 if ver == 0 else 22, m])]) for i, m in meths])
        out.append(arr(2, [bytes([18, 0, cid]), bytes([17, v]), b"\x09\x06" + bytes(ln), arr(2, [a, b])]))
    return arr(1, out)


@unit("neighbours", shards=4)
def neighbours(ctx):
    """rights of a name are not those of a name that differs from it in a single group"""
    bases = [(0, 0, 96, 1, 0, 255), (1, 0, 0, 2, 0, 255), (0, 0, 96, 10, 1, 255)]

    def body(case, o):
        ver, x, y, both = case
        c = col.Collection()
        a = new_ass(c, 1, ver)
        rows = [(x, 1, 0, [(1, 1), (2, 3)], [(1, 1)]), (y, 1, 0, [(1, 0), (2, 1), (3, 2)], [(1, 0)])]
        a.set_attr(2, enc_names(rows if both else rows[:1], ver))
        for ln, at, me in ((x, dict(rows[0][3]), dict(rows[0][4])), (y, dict(rows[1][3]), dict(rows[1][4]))):
            n = name(ln)
            there = ln == x or both
            for t, kw in ((c, {"association_id": 1}), (a, {})):
                for i in (1, 2, 3):
                    for f, w in ((t.is_readable, READ), (t.is_writable, WRITE)):
                        st, r = outcome(f, ln=n, index=i, security_policy=pdu.SecurityPolicyVer0(0), **kw)
                        if not there:
                            o.ok(st == "err" and isinstance(r, exc.NoObject), f"{case} {ln}: {r!r}", "absent")
                        elif i not in at:
                            o.ok(st == "err" and isinstance(r, ValueError), f"{case} {ln}: {r!r}", "index")
                        else:
                            o.eq(r, w[at[i]] == "yes", f"{case} {ln} {i}", "right")
            st, r = outcome(c.is_accessible, n, 1, 1, mech.LOW)
            if there:
                o.eq(r, me[1] > 0, f"{case} {ln}", "method")
            else:
                o.ok(st == "err" and isinstance(r, exc.NoObject), f"{case} {ln}: {r!r}", "absent")
    cases = []
    for b in bases:
        for g in range(6):
            for v in (0, 1, 42, 127, 128, 254, 255):
                n = b[:g] + (v,) + b[g + 1:]
                if n != b and outcome(lambda: col.Collection().add(ut.CosemClassId(1), cdt.Unsigned(0), name(n)))[0] == "ok":
                    cases += [(ver, *p, both) for ver in (0, 1, 2) for p in ((b, n), (n, b)) for both in (0, 1)]
    ctx.all("pairs", cases, body)
    ctx.bound("3 names, each with every name that differs in one group (by 7 values), listed alone or together, in both orders, 3 association versions")

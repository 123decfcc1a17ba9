"""P23: the class of an object follows from its class identifier, version and logical name, as the Blue Book's
tables say: every pair of value groups C, D, every E in the rows of the tables, every manufacturer specific range."""
import env
import ref23
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
ver = env.mod("version")
ov = env.mod("cosem_interface_classes.overview")
impl = env.mod("cosem_interface_classes.implementations")

CID = {i: ut.CosemClassId(i) for i in range(256)}
VER = {v: cdt.Unsigned(v) for v in (0, 1, 2, 3)}
DUMMY = "unsupported"


def describe(cls):
    """what a user can tell a class by"""
    if getattr(cls, "VERSION", None) is None or not hasattr(cls, "A_ELEMENTS"):
        return DUMMY
    return (int(cls.CLASS_ID), int(cls.VERSION), tuple((el.NAME, repr(el.DATA_TYPE) if not isinstance(el.DATA_TYPE, type) else el.DATA_TYPE, int(el.classifier)) for el in cls.A_ELEMENTS))


_desc = {}


def desc(cls):
    if cls not in _desc:
        _desc[cls] = describe(cls)
    return _desc[cls]


def found(name):
    """'Data', 'data.LDN', 'AssociationLNVer1' -> class"""
    if "." in name:
        m, _, n = name.partition(".")
        return getattr(env.mod("cosem_interface_classes.implementations." + m), n)
    return getattr(col, name)


NOTHING = object()


def want(spec, ln, cid, v):
    """class, DUMMY or None (refused)"""
    allowed = ref23.resolve(spec, ln)
    if allowed is None:
        names = ref23.COMMON.get(cid)
    else:
        names = next((ref23.EXPAND[a] for a in allowed if a in ref23.EXPAND and ref23.EXPAND[a][0] == cid), None)
        names = names[1] if names else None
    if names is None or v not in names:
        return None
    n = names[v]
    return DUMMY if n == DUMMY else desc(found(n))


def look(spec, o, ln, cids, versions=(0, 1)):
    fm = col.func_maps[spec]
    l = cst.LogicalName(bytearray(ln))
    for cid in cids:
        for v in versions:
            w = want(spec, ln, cid, v)
            try:
                got = desc(col.get_type(CID[cid], VER[v], l, fm))
            except ValueError:
                got = None
            except Exception as e:
                raise Mismatch(f"{spec} {ln} class {cid} version {v}: {type(e).__name__}: {e}", "exception")
            if got != w:
                raise Mismatch(f"{spec} {'.'.join(map(str, ln))} class {cid} version {v}: got {got}, the table says {w}", "row")
            o((cid, v, got is not None))


BASIC = (1, 3, 4, 5, 7)
ALLC = tuple(sorted(ref23.COMMON)) + (2, 12, 40, 61, 63)
SPECS = ("DLMS_6", "SPODES_3", "KPZ", "KPZ1")


@unit("every value group C", shards=8)
def every_cd(ctx):
    es = ctx.pick((0, 5, 255), (0, 1, 5, 10, 63, 100, 127, 255))
    specs = ctx.pick(("DLMS_6", "KPZ1"), SPECS)

    def body(case, o):
        spec, a, c = case
        for d in range(256):
            for e in es:
                look(spec, o, (a, 0, c, d, e, 255), BASIC, (0, 1) if e == 0 else (0,))
    ctx.all("cd", [(s, a, c) for s in specs for a in (0, 1) for c in range(256)], body)
    ctx.bound(f"A in 0, 1; all 65536 pairs of C and D with E in {es}; classes {BASIC}")


@unit("every E in the rows", shards=8)
def every_e(ctx):
    def body(case, o):
        spec, a, c, d = case
        for e in range(256):
            look(spec, o, (a, 0, c, d, e, 255), ctx.pick(BASIC, ALLC))
        for e in (0, 1, 2, 4, 8, 255):
            look(spec, o, (a, 0, c, d, e, 255), ALLC, (0, 1, 2, 3))
    cases = [(s, a, c, d) for s in SPECS for a, c, d in ref23.rows(s)]
    ctx.all("e", cases, body)
    ctx.bound(f"all 256 E for the {len(cases)} combinations of table, A, C, D whose row depends on E (others: 6 values of E, all classes and versions 0..3)")


@unit("every B, F and manufacturer range", shards=8)
def every_b(ctx):
    base = [(0, 0, 1, 0, 0, 255), (0, 0, 40, 0, 1, 255), (0, 0, 42, 0, 0, 255), (0, 0, 43, 0, 3, 255), (0, 0, 44, 0, 7, 255), (0, 0, 96, 1, 0, 255), (0, 0, 96, 51, 5, 255),
            (0, 0, 96, 5, 132, 255), (0, 0, 98, 1, 0, 255), (0, 0, 25, 9, 0, 255), (0, 128, 96, 13, 1, 255), (0, 128, 154, 0, 0, 255), (1, 0, 1, 8, 0, 255), (1, 0, 98, 1, 0, 255),
            (1, 0, 131, 35, 0, 255), (1, 0, 148, 136, 0, 255), (1, 0, 94, 7, 0, 255), (1, 0, 0, 2, 0, 255), (128, 0, 5, 0, 0, 255), (0, 0, 65, 0, 0, 255), (1, 0, 240, 8, 0, 255), (4, 0, 1, 0, 0, 255),
            (0, 0, 97, 98, 0, 255), (0, 0, 11, 98, 0, 255), (1, 0, 11, 134, 0, 255)]

    def body(case, o):
        spec, ln, k = case
        for x in range(256):
            look(spec, o, ln[:k] + (x,) + ln[k + 1:], ctx.pick((1, 3, 7, 8, 15, 40, 64), ALLC))
    ctx.all("one group", [(s, ln, k) for s in SPECS for ln in base for k in range(6)], body)
    ctx.bound("all 256 values of each one of the six groups of 25 names, in all four tables")


@unit("through a collection")
def through(ctx):
    """Collection.add gives an object of that class, bound to its name and collection, or refuses"""
    lns = [(0, 0, 1, 0, 0, 255), (0, 0, 40, 0, 1, 255), (0, 0, 96, 1, 0, 255), (0, 0, 96, 5, 1, 255), (0, 0, 96, 11, 0, 255), (0, 0, 98, 1, 0, 255), (1, 0, 98, 1, 0, 255), (1, 0, 99, 1, 0, 255),
           (1, 0, 1, 8, 0, 255), (1, 0, 32, 7, 0, 255), (0, 0, 25, 9, 0, 255), (0, 0, 22, 0, 0, 255), (0, 0, 25, 6, 0, 255), (0, 0, 43, 0, 0, 255), (0, 0, 128, 100, 0, 255), (0, 0, 21, 0, 1, 255)]

    def make(spec):
        c = col.Collection()
        if spec != "DLMS_6":
            c.set_country_ver(ver.AppVersion(3, 0))
        if spec in ("KPZ", "KPZ1"):
            c.set_manufacturer(b"KPZ")
            c.set_server_ver(0, ver.AppVersion(1, 3, 29 if spec == "KPZ1" else 30))
        c.set_spec()
        return c

    def body(case, o):
        spec, ln = case
        for cid in ALLC:
            for v in (0, 1, 2, 3):
                c = make(spec)
                n = len(c)
                w = want(spec, ln, cid, v)
                st, obj = outcome(c.add, CID[cid], VER[v], cst.LogicalName(bytearray(ln)))
                if w is None or w == DUMMY:
                    o.ok(st == "err" and isinstance(obj, ValueError), f"{spec} {ln} class {cid} version {v}: {obj!r}, the table has no such object", "refusal")
                    o.eq(len(c), n, "objects after the refusal", "refusal")
                else:
                    o.ok(st == "ok", f"{spec} {ln} class {cid} version {v}: {obj!r}", "construction")
                    o.eq(desc(type(obj)), w, f"{spec} {ln} {cid} {v}", "class")
                    o.eq(obj.logical_name.contents, bytes(ln), "logical name", "name")
                    o.ok(obj.collection is c and c.get(bytes(ln)) is obj, "membership", "member")
    ctx.all("add", [(s, ln) for s in SPECS for ln in lns], body)

    def spec_of(case, o):
        """the table in use follows from country, country version, manufacturer and server version"""
        country, cv, man, sv, own = case
        c = col.Collection(country=ov.CountrySpecificIdentifiers(country))
        if cv:
            c.set_country_ver(ver.AppVersion(*cv))
        if man:
            c.set_manufacturer(man)
        if sv:
            c.set_server_ver(0, ver.AppVersion(*sv))
        if own:
            c.set_collection_ver(ver.AppVersion(*own))
        sv = sv or own
        c.set_spec()
        w = "DLMS_6"
        if country == 7:
            if cv == (3, 0):
                w = "SPODES_3"
            if man == b"KPZ":
                w = "KPZ1" if sv and tuple(sv) < (1, 3, 30) else "KPZ"
        for ln, cid in (((0, 0, 96, 11, 0, 255), 1), ((0, 128, 96, 13, 1, 255), 1), ((0, 0, 96, 11, 3, 255), 1), ((1, 0, 94, 7, 0, 255), 7)):
            o.eq(desc(type(c.add(CID[cid], VER[1 if cid == 7 else 0], cst.LogicalName(bytearray(ln))))), want(w, ln, cid, 1 if cid == 7 else 0), f"{case} {ln}", "table")
    ctx.all("table in use", [(k, cv, m, sv, own) for k in (7, 44, 13) for cv in (None, (3, 0), (2, 0), (3, 1), (4, 0)) for m in (None, b"KPZ", b"ITE", b"KPX")
                             for sv in (None, (1, 3, 29), (1, 3, 30), (1, 3, 31), (1, 2, 99), (1, 4, 0), (0, 9, 0), (2, 0, 0)) for own in ((None, (1, 3, 29), (1, 3, 30)) if m == b"KPZ" else (None,))], spec_of)
    ctx.bound("16 names x all classes x versions 0..3 in four tables; 720 identifications of a meter")


@unit("versions not known")
def version_none(ctx):
    """without a version, that of the objects of the class already there"""
    def body(case, o):
        have, ask = case
        c = col.Collection()
        for i, (cid, v, ln) in enumerate(have):
            c.add(CID[cid], VER[v], cst.LogicalName(ln))
        cid, ln = ask
        vs = [v for k, v, _ in have if k == cid] + ([0] if cid == 1 else [])
        st, obj = outcome(c.add, CID[cid], None, cst.LogicalName(ln))
        if not vs:
            o.ok(st == "err" and isinstance(obj, ValueError), f"{case}: {obj!r}", "no version")
        else:
            o.ok(st == "ok", f"{case}: {obj!r}", "no version")
            o.eq(int(obj.VERSION), vs[0], f"{case}", "version")
    A = [(15, v, "0.0.40.0.1.255") for v in (0, 1, 2)] + [(64, v, "0.0.43.0.0.255") for v in (0, 1)] + [(27, v, "0.0.2.0.0.255") for v in (0, 1)] + [(47, v, "0.0.25.6.0.255") for v in (0, 1)]
    O2 = {15: "0.0.40.0.3.255", 64: "0.0.43.0.2.255", 27: "0.2.2.0.0.255", 47: "0.2.25.6.0.255"}
    asks = [(15, "0.0.40.0.2.255"), (64, "0.0.43.0.1.255"), (27, "0.1.2.0.0.255"), (47, "0.1.25.6.0.255"), (1, "0.0.96.1.0.255")]
    ctx.all("in order", [((h,), a) for h in A for a in asks] + [((), a) for a in asks] + [((h, g), a) for h in A for g in A if h[0] != g[0] for a in asks]
            + [((h, (g[0], g[1], O2[g[0]])), a) for h in A for g in A if h[0] == g[0] and h[1] != g[1] for a in asks if a[0] == h[0]], body)
    ctx.bound("all sets of up to 2 objects of other classes and versions x 5 classes asked for, in one process one after another")

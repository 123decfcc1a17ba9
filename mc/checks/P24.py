"""P24: a collection is a map from logical names to objects: all histories of adding, replacing and removing against a
model, every kind of key, the named accessors, and the identification values that may be set once."""
import itertools
import env
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
ver = env.mod("version")
ov = env.mod("cosem_interface_classes.overview")
exc = env.mod("exceptions")
structs = env.mod("types.implementations.structs")
coid = env.mod("types.cosemObjectInstanceId")
enums = env.mod("enums")

LDN = (0, 0, 42, 0, 0, 255)
UNIVERSE = {  # name -> [(class, version)]
    (0, 0, 40, 0, 1, 255): [(15, 0), (15, 1)],
    (0, 0, 40, 0, 0, 255): [(15, 1)],
    (1, 0, 1, 8, 0, 255): [(3, 0), (4, 0)],
    (1, 0, 41, 7, 0, 255): [(3, 0)],
    (0, 0, 1, 0, 0, 255): [(8, 0)],
    (0, 0, 25, 0, 0, 255): [(41, 0)],
    LDN: [(1, 0)],
}
txt = lambda ln: ".".join(map(str, ln))
name = lambda ln: cst.LogicalName(bytearray(ln))
VALID = {1: lambda ln: True}


def keys(ln):
    """every kind of value that names an object"""
    n = name(ln)
    inst = ut.CosemObjectInstanceId(bytes(ln))
    d = ut.CosemAttributeDescriptor(ut.CosemClassId(8), inst, ut.CosemObjectAttributeId(2))
    s = structs.CaptureObjectDefinition()
    s.logical_name.set(txt(ln))
    v = structs.ValueDefinition()
    v.logical_name.set(txt(ln))
    a = structs.ActionItem()
    a.script_logical_name.set(txt(ln))
    out = {"octets": bytes(ln), "text": txt(ln), "name": n, "instance": inst, "descriptor": d, "method descriptor": ut.CosemMethodDescriptor(ut.CosemClassId(8), inst, ut.CosemObjectMethodId(1)),
           "capture object": s, "value definition": v, "action item": a}
    return out


KEYS = {ln: keys(ln) for ln in list(UNIVERSE) + [(1, 0, 9, 9, 9, 255)]}


class Sys:
    def fresh(self):
        s = type("S", (), {})()
        s.c = col.Collection()
        s.m = {LDN: (1, 0)}
        s.obj = {LDN: s.c.get(bytes(LDN))}
        return s

    def ops(self, s):
        for ln, kinds in UNIVERSE.items():
            for k in kinds:
                yield ("add", ln, k)
                yield ("missing", ln, k)
            yield ("remove", ln)
        yield ("add", (1, 0, 1, 8, 0, 255), (1, 0))          # not of these classes
        yield ("missing", (1, 0, 1, 8, 0, 255), (200, 0))
        yield ("add-none", (0, 0, 40, 0, 2, 255), 15)
        yield ("add-none", (1, 0, 2, 8, 0, 255), 3)

    def apply(self, s, op, o):
        k, ln = op[0], op[1]
        if k == "remove":
            had = ln in s.m and ln != LDN
            o.eq(s.c.try_remove(name(ln)), had, f"{op}", "remove")
            if had:
                del s.m[ln], s.obj[ln]
            return
        if k == "add-none":
            cid = op[2]
            vs = [v for c, v in s.m.values() if c == cid]
            st, r = outcome(s.c.add, ut.CosemClassId(cid), None, name(ln))
            o.eq(st, "ok" if vs else "err", f"{op}: {r!r}", "add-none")
            if vs:
                s.m[ln] = (cid, vs[0])
                s.obj[ln] = r
                o.eq(int(r.VERSION), vs[0], f"{op}", "add-none")
            else:
                o.ok(isinstance(r, ValueError), f"{op}: {r!r}", "add-none")
            return
        cid, v = op[2]
        valid = op[2] in UNIVERSE.get(ln, ())
        f = s.c.add if k == "add" else s.c.add_if_missing
        st, r = outcome(f, class_id=ut.CosemClassId(cid), version=cdt.Unsigned(v), logical_name=name(ln))
        if k == "missing" and ln in s.m:
            o.eq(st, "ok", f"{op}: {r!r}", k)
            o.ok(r is s.obj[ln], f"{op} gave another object", k)
        elif not valid:
            o.ok(st == "err" and isinstance(r, ValueError), f"{op}: {r!r}", "refusal")
        else:
            o.eq(st, "ok", f"{op}: {r!r}", k)
            o.eq((int(r.CLASS_ID), int(r.VERSION), r.logical_name.contents), (cid, v, bytes(ln)), f"{op}", k)
            o.ok(r.collection is s.c and r is not s.obj.get(ln), f"{op}: collection", k)
            s.m[ln] = (cid, v)
            s.obj[ln] = r

    def canon(self, s):
        return tuple(s.m.items())

    def invariant(self, s):
        c, m = s.c, s.m
        eq = lambda got, want, what, tag: (_ for _ in ()).throw(Mismatch(f"{what}: got {got!r}, reference says {want!r}", tag)) if got != want else None
        eq(len(c), len(m), "len", "len")
        eq([o.logical_name.contents for o in c], [bytes(k) for k in m], "iteration", "order")
        eq([o.logical_name.contents for o in c.values()], [bytes(k) for k in m], "values", "order")
        for ln, ks in KEYS.items():
            want = s.obj.get(ln)
            eq(c.get(bytes(ln)) is want, True, f"get {txt(ln)}", "get")
            for kind, key in ks.items():
                eq(c.is_in_collection(key), want is not None, f"is_in_collection {txt(ln)} by {kind}", "in")
                st, r = outcome(c.get_object, key)
                if want is None:
                    if not (st == "err" and isinstance(r, exc.NoObject)):
                        raise Mismatch(f"get_object {txt(ln)} by {kind}: {r!r}", "absent")
                elif r is not want:
                    raise Mismatch(f"get_object {txt(ln)} by {kind}: {r!r}", "object")
                eq(c.get_object2(key) is want, True, f"get_object2 {txt(ln)} by {kind}", "object2")
        for cid in (1, 3, 4, 8, 15, 41, 7):
            want = [s.obj[ln] for ln in m if m[ln][0] == cid]
            got = c.get_objects_by_class_id(cid)
            eq([id(x) for x in got], [id(x) for x in want], f"objects of class {cid}", "class")
            got = list(col.class_id_filter(c, ut.CosemClassId(cid)))
            eq([id(x) for x in got], [id(x) for x in want], f"filter of class {cid}", "class")
            st, v = outcome(c.find_version, ut.CosemClassId(cid))
            eq(int(v) if st == "ok" else None, m[next(ln for ln in m if m[ln][0] == cid)][1] if want else None, f"version of class {cid}", "version")
        vers = {}
        for cid, v in m.values():
            vers.setdefault(cid, set()).add(v)
        st, r = outcome(c.get_class_version)
        if any(len(v) > 1 for v in vers.values()):
            eq(st, "err", f"get_class_version {r!r}", "versions")
        else:
            eq({int(k): int(v) for k, v in r.items()} if st == "ok" else r, {k: min(v) for k, v in vers.items()}, "class versions", "versions")
        st, r = outcome(c.get_n_phases)
        el = [ln for ln in m if ln[0] == 1]
        eq(r if st == "ok" else type(r).__name__, (3 if any(41 <= ln[2] <= 60 for ln in el) else 1) if el else "NoObject", "phases", "phases")
        order = [txt(ln) for ln in KEYS]
        for vals in (order, order[::-1], order[-1:]):
            st, r = outcome(c.get_first, vals)
            first = next((ln for v in vals for ln in m if txt(ln) == v), None)
            eq((r is s.obj[first]) if first else isinstance(r, exc.NoObject), True, f"get_first {vals}", "first")
        eq([(a.contents, int(b), int(v)) for a, b, v in c.get_objects_descriptions()], [(bytes(k), *v) for k, v in m.items()], "descriptions", "descriptions")
        for attr, ln in ACCESSORS.items():
            if ln in KEYS or len(m) < 3:
                st, r = outcome(getattr, c, attr)
                want = s.obj.get(ln)
                eq(r is want if want else isinstance(r, exc.NoObject), True, f"accessor {attr}: {r!r}", "accessor")


class Asked(Sys):
    """the same histories, with every kind of question asked before each operation: nothing an answer leaves behind may show in
    a later one"""
    def apply(self, s, op, o):
        c = s.c
        for cid in (1, 3, 4, 8, 15, 41):
            c.get_objects_by_class_id(cid)
            outcome(c.find_version, ut.CosemClassId(cid))
        outcome(c.get_class_version)
        outcome(c.get_n_phases)
        outcome(c.get_objects_descriptions)
        outcome(c.get_first, [txt(ln) for ln in KEYS])
        for ln, ks in KEYS.items():
            c.is_in_collection(ks["name"])
            outcome(c.get_object, ks["name"])
            outcome(c.get_object2, ks["text"])
        for a in ("clock", "current_association", "COMMUNICATION_PORT_PARAMETER"):
            outcome(getattr, c, a)
        super().apply(s, op, o)


ACCESSORS = {"LDN": LDN, "current_association": (0, 0, 40, 0, 0, 255), "PUBLIC_ASSOCIATION": (0, 0, 40, 0, 1, 255), "COMMUNICATION_PORT_PARAMETER": (0, 0, 96, 12, 4, 255), "clock": (0, 0, 1, 0, 0, 255),
             "activity_calendar": (0, 0, 13, 0, 0, 255), "special_day_table": (0, 0, 11, 0, 0, 255), "TCP_UDP_setup": (0, 0, 25, 0, 0, 255), "IPv4_setup": (0, 0, 25, 1, 0, 255),
             "boot_image_transfer": (0, 0, 44, 0, 128, 255), "firmware_image_transfer": (0, 0, 44, 0, 0, 255), "RU_EXTENDED_PASSPORT_DATA": (0, 0, 94, 7, 1, 255), "firmware_version": (0, 0, 96, 1, 2, 255),
             "device_type": (0, 0, 96, 1, 1, 255), "manufacturing_date": (0, 0, 96, 1, 4, 255), "RU_LOAD_LOCK_STATUS": (0, 0, 96, 4, 3, 255), "firmwares_description": (0, 0, 128, 100, 0, 255),
             "serial_number": (0, 0, 96, 1, 0, 255), "RU_MAGNETIC_EFFECT": (0, 0, 96, 51, 3, 255), "RU_HF_FIELD_EFFECT": (0, 0, 96, 51, 4, 255), "RU_ELECTRIC_SEAL_STATUS": (0, 0, 96, 51, 5, 255),
             "RU_CLOSE_ELECTRIC_SEAL": (0, 0, 96, 51, 6, 255), "RU_ERASE_MAGNETIC_EVENTS": (0, 0, 96, 51, 7, 255), "RU_ALARM_REGISTER_2": (0, 0, 97, 98, 1, 255), "RU_FILTER_ALARM_2": (0, 0, 97, 98, 11, 255),
             "RU_DAILY_PROFILE": (1, 0, 98, 2, 0, 255), "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": (1, 0, 11, 134, 0, 255), "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": (1, 0, 12, 134, 0, 255)}
CHANNEL = {"getASSOCIATION": lambda k: (0, 0, 40, 0, k, 255), "getIECHDLCSetup": lambda k: (0, k, 22, 0, 0, 255), "getIPv4Setup": lambda k: (0, k, 25, 1, 0, 255),
           "getDISCONNECT_CONTROL": lambda k: (0, k, 96, 3, 10, 255), "getARBITRATOR": lambda k: (0, k, 96, 3, 20, 255)}
CLASSES = {"clock": (8, 0), "activity_calendar": (20, 0), "special_day_table": (11, 0), "TCP_UDP_setup": (41, 0), "IPv4_setup": (42, 0), "boot_image_transfer": (18, 0), "firmware_image_transfer": (18, 0),
           "RU_EXTENDED_PASSPORT_DATA": (7, 1), "RU_DAILY_PROFILE": (7, 1), "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": (3, 0), "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": (3, 0), "current_association": (15, 1),
           "PUBLIC_ASSOCIATION": (15, 1)}


@unit("histories", shards=8)
def histories(ctx):
    ctx.bfs("collection", Sys(), ctx.pick(3, 4))
    ctx.bfs("asked in between", Asked(), ctx.pick(2, 3))
    ctx.bound(f"all histories of up to {ctx.pick(3, 4)} of 31 operations over 7 names; in every state: 9 kinds of keys x 8 names, order, class and version queries, named accessors")


@unit("large", shards=2)
def large(ctx):
    """collections of many objects"""
    def body(n, o):
        c = col.Collection()
        lns = [(1, i // 240, 1 + i // 40 % 2, 8, i % 40, 255) if i % 3 else (0, i // 240, 96, 50, i % 240, 255) for i in range(n)]
        lns = list(dict.fromkeys(lns))
        made = {LDN: c.get(bytes(LDN))}
        for ln in lns:
            made[ln] = c.add(ut.CosemClassId(3 if ln[0] else 1), cdt.Unsigned(0), name(ln))

        def look(what):
            got = list(c)
            o.eq((len(c), [tuple(x.logical_name.contents) for x in got]), (len(made), list(made)), f"{n} objects, {what}: order", "large")
            o.ok(all(a is b for a, b in zip(got, made.values())), f"{n} objects, {what}: objects", "large")
            o.ok(all(c.get_object(bytes(ln)) is x and c.get(bytes(ln)) is x and c.is_in_collection(bytes(ln)) for ln, x in made.items()), f"{n} objects, {what}: looked up", "large")
            for cid in (1, 3):
                o.eq([tuple(x.logical_name.contents) for x in c.get_objects_by_class_id(cid)], [ln for ln in made if (3 if ln[0] else 1) == cid], f"{n} objects, {what}: class {cid}", "large")
        look("added")
        for k, ln in enumerate(lns):
            if k % 5 == 2:
                c.try_remove(name(ln))
                del made[ln]
        look("some removed")
        for k, ln in enumerate(lns):
            if k % 10 == 2:
                made[ln] = c.add(ut.CosemClassId(3 if ln[0] else 1), cdt.Unsigned(0), name(ln))
            elif k % 7 == 1 and ln in made:
                o.ok(c.add_if_missing(ut.CosemClassId(3 if ln[0] else 1), cdt.Unsigned(0), name(ln)) is made[ln], f"{n} objects: {ln} added though not missing", "large")
            elif k % 7 == 4 and ln in made:
                made[ln] = c.add(ut.CosemClassId(3 if ln[0] else 1), cdt.Unsigned(0), name(ln))
        look("some added again")
    ctx.all("large", (8, 16, 17, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 255, 256, 257, 300, 400), body)
    ctx.bound("collections of 23 sizes up to 400 objects")


@unit("accessors")
def accessors(ctx):
    """with every object a named accessor stands for: it, and no other, comes and goes"""
    def body(attr, o):
        c = col.Collection()
        for a, ln in ACCESSORS.items():
            if a != attr and a != "LDN":
                cid, v = CLASSES.get(a, (1, 0))
                c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))
        if attr != "LDN":
            rejects(o, lambda: getattr(c, attr), exc.NoObject, attr, "absent")
        cid, v = CLASSES.get(attr, (1, 0))
        for turn in range(2):
            n = c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(ACCESSORS[attr]))
            o.ok(getattr(c, attr) is n, f"{attr} turn {turn}", "object")
        if attr != "LDN":
            c.try_remove(name(ACCESSORS[attr]))
            rejects(o, lambda: getattr(c, attr), exc.NoObject, attr, "removed")
    ctx.all("named", list(ACCESSORS), body)

    def channel(case, o):
        fn, k = case
        c = col.Collection()
        cid, v = {"getASSOCIATION": (15, 1), "getIECHDLCSetup": (23, 1), "getIPv4Setup": (42, 0), "getDISCONNECT_CONTROL": (70, 0), "getARBITRATOR": (68, 0)}[fn]
        for j in range(6):
            if j != k:
                c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(CHANNEL[fn](j)))
        rejects(o, lambda: getattr(c, fn)(k), exc.NoObject, f"{fn}({k})", "absent")
        n = c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(CHANNEL[fn](k)))
        o.ok(getattr(c, fn)(k) is n, f"{fn}({k})", "object")
    ctx.all("by channel", [(f, k) for f in CHANNEL for k in range(6)], channel)
    def boot(text, o):
        """the version of the boot loader: the first four characters of the description of the firmware"""
        c = col.Collection()
        o.eq(c.boot_version, "unknown", "boot version without the object", "boot")
        n = c.add(ut.CosemClassId(1), cdt.Unsigned(0), name(ACCESSORS["firmwares_description"]))
        o.eq(c.boot_version, "unknown", "boot version of an object without value", "boot")
        n.set_attr(2, (b"\x09" + bytes([len(text)]) + text))
        o.eq(c.boot_version, text[:4].decode("cp1251"), "boot version", "boot")
        n.clear_attr(2)
        o.eq(c.boot_version, "unknown", "boot version of a cleared object", "boot")
    ctx.all("boot version", [bytes(0x30 + i for i in range(n)) for n in range(9)] + ["ИПУЭ1.02".encode("cp1251"), b"B1.2rest", b"a_b-c"], boot)
    ctx.bound(f"{len(ACCESSORS)} named accessors each absent, present, replaced and removed while all others are present; 5 accessors by channel x 6 channels")


T = lambda h: cdt.get_instance_and_pdu_from_value(bytes.fromhex(h))[0]
AV = ver.AppVersion
VALUES = {
    "dlms_ver": [6, 5, 7],
    "country": [0, 7, 44],
    "country_ver": [AV(3, 0), AV(0, 0), AV(3, 1)],
    "manufacturer": [b"KPZ", b"KPX", b"ITE"],
    "server_type": ["09024d31", "09024d32", "0a024d31", "0a03414243", "0900", "09034d3100"],
    "collection_ver": [AV(1, 0, 0), AV(1, 0, 1)],
    "server_ver": [(0, AV(1, 2, 3)), (0, AV(1, 2, 4)), (0, AV(1, 3, 0)), (0, AV(1, 2)), (1, AV(2, 0, 0)), (0, AV(0, 0, 0))],
}


class Ident:
    """identification: what is set once can only be confirmed"""
    def __init__(self, start):
        self.start = start

    def fresh(self):
        s = type("S", (), {})()
        s.c = col.Collection(country=ov.CountrySpecificIdentifiers(self.start))
        s.m = {"dlms_ver": 6, "country": self.start, "country_ver": None, "manufacturer": None, "server_type": None, "collection_ver": None, "server_ver": {}}
        return s

    def ops(self, s):
        for k, vs in VALUES.items():
            for i in range(len(vs)):
                yield (k, i)
        yield ("force-type", 1)
        yield ("force-ver", 1)
        yield ("clear-ver",)
        yield ("spec",)

    def apply(self, s, op, o):
        k = op[0]
        c, m = s.c, s.m
        if k == "clear-ver":
            c.clear_server_ver()
            m["server_ver"] = {}
            return
        if k == "force-type":
            v = VALUES["server_type"][op[1]]
            c.set_server_type(T(v), force=True)
            m["server_type"] = v
            return
        if k == "force-ver":
            i, v = VALUES["server_ver"][op[1]]
            c.set_server_ver(i, v, force=True)
            m["server_ver"] = {**m["server_ver"], i: v}
            return
        if k == "spec":
            st, r = outcome(c.set_spec)
            o.eq(st, "ok", f"set_spec with {m}: {r!r}", "spec")
            return
        v = VALUES[k][op[1]]
        if k == "server_ver":
            i, v = v
            st, r = outcome(c.set_server_ver, i, v)
            old = m["server_ver"].get(i)
            ok = old is None or ((v.major, v.minor) == (old.major, old.minor) and v <= old)
            o.eq(st, "ok" if ok else "err", f"{op} over {m['server_ver']}: {r!r}", k)
            if ok and old is None:
                m["server_ver"] = {**m["server_ver"], i: v}
        else:
            arg = {"server_type": T, "country": ov.CountrySpecificIdentifiers}.get(k, lambda x: x)(v)
            st, r = outcome(getattr(c, "set_" + k), arg)
            ok = m[k] is None or (m[k] == v and k != "collection_ver")
            o.eq(st, "ok" if ok else "err", f"{op} over {m[k]}: {r!r}", k)
            if ok:
                m[k] = v
        if st == "err":
            o.ok(isinstance(r, ValueError), f"{op}: {r!r}", k)

    def canon(self, s):
        return repr(s.m)

    def invariant(self, s):
        c, m = s.c, s.m
        got = {"dlms_ver": c.dlms_ver, "country": int(c.country), "country_ver": c.country_ver, "manufacturer": c.manufacturer, "server_type": c.server_type.encoding.hex() if c.server_type is not None else None,
               "collection_ver": c.collection_ver, "server_ver": dict(c.server_ver)}
        for k in m:
            if got[k] != m[k]:
                raise Mismatch(f"{k}: got {got[k]!r}, reference says {m[k]!r}", k)
        str(c)


@unit("identification", shards=4)
def identification(ctx):
    for start in (7, 0):
        ctx.bfs(f"country {start}", Ident(start), ctx.pick(3, 5))
    ctx.bound(f"all histories of up to {ctx.pick(3, 5)} of 28 identification assignments")


def near(ln):
    """the names that differ from it in exactly one group"""
    out = []
    for g in range(6):
        for v in (0, 1, 42, 127, 128, 254, 255):
            if v != ln[g]:
                out.append(ln[:g] + (v,) + ln[g + 1:])
    return out


@unit("neighbours", shards=4)
def neighbours(ctx):
    """two names that differ in a single group are two names: pairs in one collection"""
    def kinds(ln):
        for cid, v in ((1, 0), (8, 0), (7, 1)):
            c = col.Collection()
            if outcome(c.add, ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))[0] == "ok":
                return cid, v
        return None

    def body(case, o):
        a, b = case
        ka, kb = kinds(a), kinds(b)
        if ka is None or kb is None or b == LDN:
            o(None)
            return
        c = col.Collection()
        x = c.get(bytes(a)) if a == LDN else c.add(ut.CosemClassId(ka[0]), cdt.Unsigned(ka[1]), name(a))
        for kind, key in keys(b).items():
            o.eq(c.is_in_collection(key), False, f"{b} by {kind} with {a}", "absent")
            o.ok(c.get_object2(key) is None, f"{b} by {kind} with {a}", "absent")
            rejects(o, lambda: c.get_object(key), exc.NoObject, f"{b} by {kind}", "absent")
        o.eq(c.try_remove(name(b)), False, f"{b} with {a}", "absent")
        rejects(o, lambda: c.get_first([txt(b)]), exc.NoObject, f"{b}", "absent")
        y = c.add_if_missing(ut.CosemClassId(kb[0]), cdt.Unsigned(kb[1]), name(b))
        o.ok(y is not x, f"{a} {b}", "same")
        for kind, key in keys(b).items():
            o.ok(c.get_object(key) is y and c.get_object2(key) is y and c.is_in_collection(key), f"{b} by {kind} with {a}", "object")
        for kind, key in keys(a).items():
            o.ok(c.get_object(key) is x, f"{a} by {kind} with {b}", "object")
        o.ok(c.get_first([txt(b), txt(a)]) is y and c.get_first([txt(a), txt(b)]) is x, f"{a} {b}", "first")
        o.eq(c.try_remove(name(b)), True, f"{b}", "remove")
        o.eq(c.is_in_collection(name(b)), False, f"{b}", "removed")
        o.ok(c.get_object(name(a)) is x, f"{a} after the removal of {b}", "object")
        o.eq(c.try_remove(name(a)), a != LDN, f"{a}", "remove")
        o.eq(c.is_in_collection(name(a)), a == LDN, f"{a}", "removed")
    bases = [LDN, (0, 0, 96, 1, 0, 255), (1, 0, 0, 2, 0, 255), (0, 0, 1, 0, 0, 255), (0, 0, 96, 10, 1, 255)]
    ctx.all("pairs", [(a, b) for a in bases for b in near(a)] + [(b, a) for a in bases[1:] for b in near(a) if b != LDN], body)
    ctx.bound("5 names, each with every name that differs in one group (by 7 values), in both orders, by all 9 kinds of keys")


@unit("questions")
def questions(ctx):
    channel = lambda n: 0

    def phases(case, o):
        c = col.Collection()
        for n, (a, cc) in enumerate(case):
            c.add(ut.CosemClassId(3), cdt.Unsigned(0), name((a, channel(n), cc, 7 if a == 1 else 0, 0, 255)))
        el = [cc for a, cc in case if a == 1]
        if el:
            o.eq(c.get_n_phases(), 3 if any(41 <= x <= 60 for x in el) else 1, f"phases of {case}", "phases")
        else:
            rejects(o, c.get_n_phases, exc.NoObject, f"{case}", "phases")
    mk = lambda a, cc: outcome(lambda: col.Collection().add(ut.CosemClassId(3), cdt.Unsigned(0), name((a, 0, cc, 7 if a == 1 else 0, 0, 255))))[0] == "ok"
    one = [(1, cc) for cc in range(1, 100) if mk(1, cc)]
    other = [(a, cc) for a in (6, 7, 8) for cc in (1, 41, 50, 60) if mk(a, cc)]
    ctx.all("phases", [(x,) for x in one + other] + [(x, y) for x in other for y in one] + [p for x in one for y in one[::4] if x != y for p in ((x, y),)], phases)
    channel = lambda n: (1, 0)[n % 2]
    ctx.all("phases of other channels", [(x,) for x in one] + [(x, y) for x in one[::3] for y in one[::5] if x != y], phases)

    def equal(case, o):
        """collections are equal by manufacturer, type of the server and version of the collection"""
        made = []
        for k, (m, t, v) in enumerate(case):
            c = col.Collection(country=ov.CountrySpecificIdentifiers((7, 44)[k]))
            if m is not None:
                c.set_manufacturer(m)
            if t is not None:
                c.set_server_type(T(t))
            if v is not None:
                c.set_collection_ver(v)
            made.append(c)
        o.eq(made[0] == made[1], case[0] == case[1], f"{case}", "equality")
        o.eq(len(set(made)), 1 if case[0] == case[1] else 2, f"{case} as keys", "equality")
        made[1].set_server_ver(0, AV(1, 2, 3))
        o.eq(made[0] == made[1], case[0] == case[1], f"{case} other firmware", "equality")
    one = list(itertools.product((None, b"KPZ", b"KPX"), (None, "09024d31", "09024d32"), (None, AV(1, 0, 0), AV(1, 0, 1))))
    ctx.all("equality", [(x, y) for x in one for y in one], equal)

    def attr(case, o):
        ln, cid, v = case
        c = col.Collection()
        others = [k for k in ATTRS if k != case]
        for l2, c2, v2 in others + [case]:
            c.add(ut.CosemClassId(c2), cdt.Unsigned(v2), name(l2))
        obj = c.get(bytes(ln))
        d = lambda i, l=ln: ut.CosemAttributeDescriptor(ut.CosemClassId(cid), ut.CosemObjectInstanceId(bytes(l)), ut.CosemObjectAttributeId(i))
        el = {1: obj.logical_name}
        for i, e in obj.get_index_with_attributes():
            if i > 1 and ATTRS[case].get(i) is not None:
                obj.set_attr(i, bytes.fromhex(ATTRS[case][i]))
                el[i] = bytes.fromhex(ATTRS[case][i])
        for i, w in el.items():
            g = c.get_attr(d(i))
            o.ok(g is obj.get_attr(i), f"{ln} {i}: another value", "attribute")
            o.eq(g.encoding, b"\x09\x06" + bytes(ln) if i == 1 else w, f"{ln} {i}", "attribute")
        rejects(o, lambda: c.get_attr(d(1, (9, 9, 9, 9, 9, 9))), exc.NoObject, f"{ln}", "absent")
    ctx.all("attributes", list(ATTRS), attr)

    def copying(case, o):
        """objects of either collection, in their order; some objects have no value"""
        a, b, some = case
        x, y = col.Collection(), col.Collection()
        for c, which in ((x, a), (y, b)):
            for i in which:
                ln, cid, v = list(ATTRS)[i]
                c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))
        for i in b:
            if i != some:
                key = list(ATTRS)[i]
                for k, e in ATTRS[key].items():
                    y.get(bytes(key[0])).set_attr(k, bytes.fromhex(e))
        o.eq(x.copy_objects_attr_values_from(y), all(i in a for i in b), f"{case} all were there", "copying")
        for i in a:
            key = list(ATTRS)[i]
            got = x.get(bytes(key[0]))
            fresh = col.Collection().add(ut.CosemClassId(key[1]), cdt.Unsigned(key[2]), name(key[0]))
            for k, e in ATTRS[key].items():
                d = fresh.get_attr(k)
                w = e if i in b and i != some else d.encoding.hex() if d is not None else None
                g = got.get_attr(k)
                o.eq(g.encoding.hex() if g is not None else None, w, f"{case} {key[0]} attribute {k}", "copying")
                src = y.get(bytes(key[0]))
                o.ok(src is None or g is None or g is not src.get_attr(k), f"{case} {key[0]} {k} shared", "copying")
        o.eq((len(x), len(y)), (len(a) + 1, len(b) + 1), f"{case} objects", "copying")
        o.eq(list(map(x.copy_obj_attr_values_from, y.values())), [o.logical_name.contents in [bytes(LDN)] + [bytes(list(ATTRS)[i][0]) for i in a] for o in y.values()], f"{case} one by one", "copying")
    parts = [p for n in range(len(ATTRS) + 1) for p in itertools.permutations(range(len(ATTRS)), n) if n < 4]
    ctx.all("copying", [(a, b, s) for a in parts if list(a) == sorted(a) for b in parts for s in (None, 0, 2)], copying)

    def retyped(case, o):
        """both sides have a value already, of the same or of another type: then it is refused or taken, never passed over"""
        a, b, one = case
        x, y = col.Collection(), col.Collection()
        for c, e in ((x, a), (y, b)):
            c.add(ut.CosemClassId(1), cdt.Unsigned(0), name((0, 0, 96, 50, 0, 255))).set_attr(2, bytes.fromhex(e))
        src = y.get(bytes((0, 0, 96, 50, 0, 255)))
        st, v = outcome(x.copy_obj_attr_values_from, src) if one else outcome(x.copy_objects_attr_values_from, y)
        if a[:2] == b[:2]:
            o.eq((st, v), ("ok", True), f"{case}", "copying")
        if v is True:
            o.eq(x.get(bytes((0, 0, 96, 50, 0, 255))).get_attr(2).encoding.hex(), b, f"{case} value", "copying")
        else:
            o.eq(x.get(bytes((0, 0, 96, 50, 0, 255))).get_attr(2).encoding.hex(), a, f"{case} refused", "copying")
        o.eq(src.get_attr(2).encoding.hex(), b, f"{case} source", "copying")
    kinds = ["00", "0300", "0301", "1107", "120007", "0600000007", "0fff", "0900", "0903616263", "0a0161", "1602", "040780"]
    ctx.all("retyped", [(a, b, k) for a in kinds for b in kinds for k in (0, 1)], retyped)

    def walking(case, o):
        """objects are removed and added while the values are walked through"""
        c = col.Collection()
        for ln, cid, v in (list(ATTRS)[i] for i in case[0]):
            c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))
        before = [o.logical_name.contents for o in c]
        seen = []
        for n, x in enumerate(c.values()):
            seen.append(x.logical_name.contents)
            if case[1] in ("remove", "both"):
                c.try_remove(x.logical_name)
            if case[1] in ("add", "both") and n < 3:
                c.add(ut.CosemClassId(1), cdt.Unsigned(0), name((0, 0, 96, 1, n, 255)))
        o.eq(seen, before, f"{case} objects walked through", "walking")
    ctx.all("walking", [(p, how) for p in parts for how in ("", "remove", "add", "both")], walking)

    class Odd(cdt.Structure):
        """a structure where octets that look like a name come before the name"""
        first: cdt.OctetString
        second: cdt.LongUnsigned
        target: cst.LogicalName
        last: cst.LogicalName
    def odd(case, o):
        x, y, z = case
        c = col.Collection()
        for ln, cid, v in ATTRS:
            c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(ln))
        s = Odd()
        s.first.set(" ".join(f"{v:02x}" for v in x))
        s.target.set(txt(y))
        s.last.set(txt(z))
        o.ok(c.get_object(s) is c.get(bytes(y)) and c.get_object2(s) is c.get(bytes(y)) and c.is_in_collection(s), f"{case}", "structure")
    ctx.all("structures", list(itertools.product([ln for ln, *_ in ATTRS], repeat=3)), odd)
    ctx.bound("the number of phases of every single electricity object and pairs of objects; attributes by descriptor; values copied between all pairs of collections of up to 3 of 5 objects, some without values; walks while objects come and go")


ATTRS = {((0, 0, 1, 0, 0, 255), 8, 0): {3: "10003c", 4: "1105", 8: "0300", 9: "1602"},
         ((1, 0, 1, 8, 0, 255), 3, 0): {2: "0600000007", 3: "02020ffe161e"},
         ((0, 0, 40, 0, 1, 255), 15, 1): {9: "0906000028000000"},
         ((0, 0, 96, 3, 10, 255), 70, 0): {2: "0301", 3: "1601", 4: "1604"},
         ((0, 0, 22, 0, 0, 255), 23, 1): {2: "1605", 3: "1101", 9: "120011"}}

"""P45: looking at a meter changes nothing, and meters share nothing."""
import enum
import inspect
import io
import itertools
import contextlib
import types
import env
import ref26 as r
from explorer import unit, outcome, Mismatch, _Silent as Quiet

col = env.mod("cosem_interface_classes.collection")
rep = env.mod("cosem_interface_classes.reports")
obis = env.mod("relation_to_OBIS")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
ver = env.mod("version")
ic = env.mod("cosem_interface_classes.cosem_interface_class")
enums = env.mod("types.implementations.enums")

AV = ver.AppVersion
KEYS = [k for k in r.CLASSES if k != (40, 2)]
ASS = "0.0.40.0.%d.255"
#: what answers with the time of day of this computer, or with a thing the caller goes on to use up
SKIP = {"get_current_time", "it_index_with_meth", "objects"}


def LN(s):
    return cst.LogicalName(s)


def add(c, key, ln):
    return c.add(class_id=ut.CosemClassId(key[0]), version=cdt.Unsigned(key[1]), logical_name=LN(ln))


def enc(v):
    return None if v is None else (type(v).__name__, bytes(v.encoding))


def values(x):
    d = {i: enc(x.get_attr(i)) for i in range(1, x.get_attr_length() + 1)}
    d.update({-i: enc(x.get_record_time(i)) for i in range(2, x.get_attr_length() + 1)})
    d["m"] = tuple(enc(x.get_meth(i)) for i in range(1, len(x.M_ELEMENTS or ()) + 1))
    return d


def shape(c):
    return [(k, int(x.CLASS_ID), int(x.VERSION), type(x).__name__, values(x)) for k, x in ((bytes(x.logical_name.contents), x) for x in c)]


def ident(c):
    return (c.dlms_ver, str(c.country), str(c.country_ver), c.manufacturer, enc(c.server_type), {k: str(v) for k, v in c.server_ver.items()}, str(c.collection_ver), str(c))


def show(v, deep=0):
    """an answer as plain data"""
    if isinstance(v, ic.COSEMInterfaceClasses):
        return ("object", bytes(v.logical_name.contents))
    if isinstance(v, cdt.CommonDataType):
        return enc(v)
    if isinstance(v, enum.Enum):
        return (type(v).__name__, v.name)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, dict):
        return tuple((show(k, deep + 1), show(x, deep + 1)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return tuple(show(x, deep + 1) for x in v)
    if isinstance(v, (types.GeneratorType, filter, map, zip)) or hasattr(v, "__next__"):
        return tuple(show(x, deep + 1) for x in v)
    if isinstance(v, type):
        return v.__name__
    c = getattr(v, "contents", None)
    if isinstance(c, (bytes, bytearray)):
        return (type(v).__name__, bytes(c))
    t = str(v)
    return type(v).__name__ if " at 0x" in t else (type(v).__name__, t)


def ask(fn):
    """answer of a query, or the kind of refusal"""
    with contextlib.redirect_stdout(io.StringIO()):
        k, v = outcome(lambda: show(fn()))
    return (k, v if k == "ok" else type(v).__name__)


# ------------------------------------------------------------------ meters share nothing
SAMPLES = {(7, 1): {2: [], 3: [r.ar(r.CAP[0]), r.ar(*r.CAP)], 6: []},
           (21, 0): {2: [], 3: []},
           (71, 0): {2: [], 3: [], 4: [], 5: []}}


def samples(key, i):
    s = r.CLASSES[key][1][i - 2][1]
    if s is None:
        s = SAMPLES[key][i]
    return [s[0], s[-1]] if len(s) > 1 else list(s)


def helpers(c, key):
    """objects others of the class refer to"""
    if key in ((7, 1), (21, 0), (71, 0)):
        add(c, (8, 0), "0.0.1.0.0.255")
        add(c, (3, 0), "1.0.1.8.0.255")
    if key[0] == 15:
        add(c, (8, 0), "0.0.1.0.0.255")


def alter(v):
    """changes every number, bit and octet string inside of a value; the number of places"""
    n = 0
    if isinstance(v, (cdt.Array, cdt.Structure)):
        n = sum([alter(e) for e in v])
    elif isinstance(v, cdt.BitString):
        if len(v):
            n = outcome(v.inverse, 0)[0] == "ok"
    elif isinstance(v, cdt.Digital):
        n = any(outcome(v.set, k)[0] == "ok" for k in ((1, 2) if v.decode() != 1 else (2, 3)))
    elif isinstance(v, cdt.OctetString):
        e = bytes(v.encoding)
        n = any(outcome(v.set, k)[0] == "ok" and bytes(v.encoding) != e for k in (r.os(b"zz"), r.ln("1.2.3.4.5.6"), r.dt12b, r.d5b, r.t4b))
    return int(n)


class Twins:
    """one object of a meter under operation; the same object of a second meter, of an untouched one and of one made afterwards must not notice"""
    def __init__(self, key):
        self.key = key
        self.ln, self.at, _ = r.CLASSES[key]
        self.blank = values(self.make())
        x = self.make()
        self.fill(x)
        self.filled = values(x)
        self.todo = [("set", i, s) for i in range(2, len(self.at) + 2) for s in samples(key, i)]
        self.todo += [("clear", i) for i in range(2, len(self.at) + 2)]
        self.todo += [("time", i) for i in (2, len(self.at) + 1)]
        self.todo += [("grow", i) for i in range(2, len(self.at) + 2) if any(s[0] == 1 for s in samples(key, i))]
        self.todo += [("edit", i) for i in range(2, len(self.at) + 2) if any(s[0] in (1, 2) for s in samples(key, i))]
        self.todo += [("meth",)]

    def make(self):
        c = col.Collection()
        helpers(c, self.key)
        return add(c, self.key, self.ln)

    def fill(self, x):
        for i in range(2, len(self.at) + 2):
            for s in samples(self.key, i)[:1]:
                outcome(x.set_attr, i, s)

    def fresh(self):
        a, b, u = self.make(), self.make(), self.make()
        self.fill(b)
        tables = [(e.NAME, e.DATA_TYPE if isinstance(e.DATA_TYPE, type) else id(e.DATA_TYPE), e.default, e.classifier) for e in a.A_ELEMENTS]
        return types.SimpleNamespace(a=a, b=b, u=u, tables=tables)

    def ops(self, s):
        return self.todo

    def apply(self, s, op, o):
        x = s.a
        if op[0] == "set":
            k, v = outcome(x.set_attr, op[1], op[2])
            o((op, k))
        elif op[0] == "clear":
            x.clear_attr(op[1])
        elif op[0] == "time":
            x.set_record_time(op[1], cdt.DateTime(r.dt25b))
        elif op[0] == "grow":
            a = x.get_attr(op[1])
            if isinstance(a, cdt.Array):
                o((op, outcome(a.append)[0], len(a)))
        elif op[0] == "edit":
            o((op, alter(x.get_attr(op[1]))))
        elif op[0] == "meth":
            for i in range(1, len(x.M_ELEMENTS or ()) + 1):
                m = x.get_meth(i)
                if isinstance(m, cdt.Array):
                    outcome(m.append)
                alter(m)

    def invariant(self, s):
        def same(got, want, what):
            if got != want:
                bad = [k for k in want if got.get(k) != want[k]]
                raise Mismatch(f"{what}: {[(k, want[k], got.get(k)) for k in bad[:3]]}", what)
        same(values(s.b), self.filled, "other meter")
        same(values(s.u), self.blank, "untouched meter")
        n = self.make()
        same(values(n), self.blank, "new meter")
        self.fill(n)
        same(values(n), self.filled, "new meter filled")
        t = [(e.NAME, e.DATA_TYPE if isinstance(e.DATA_TYPE, type) else id(e.DATA_TYPE), e.default, e.classifier) for e in s.a.A_ELEMENTS]
        if t != s.tables:
            raise Mismatch(f"the table of attributes changed: {t} was {s.tables}", "tables")

    def canon(self, s):
        return repr(values(s.a))


@unit("isolation", shards=8)
def isolation(ctx):
    n = ctx.pick(3, 4)
    for j, key in enumerate(KEYS):
        if j % ctx.nshards != ctx.shard:
            continue
        s, ctx.shard, m, ctx.nshards = ctx.shard, 0, ctx.nshards, 1
        try:
            t = Twins(key)
            ctx.bfs(f"{key}", t, n if len(t.todo) <= 24 or n == 2 else n - 1)
        finally:
            ctx.shard, ctx.nshards = s, m
    ctx.bound(f"all sequences of up to {n} settings, clearings, record times and element additions on an object of each class (one less for classes with more than 24 operations)")


# ------------------------------------------------------------------ asking an object
def queries(x):
    q = {}
    for n, m in inspect.getmembers(type(x)):
        if n.startswith("_") or n in SKIP:
            continue
        if isinstance(m, property):
            q[n] = lambda n=n: getattr(x, n)
        elif n.startswith(("get_", "is_")) and callable(m):
            try:
                ps = [p for p in inspect.signature(getattr(x, n)).parameters.values() if p.default is p.empty]
            except (TypeError, ValueError):
                continue
            if not ps:
                q[n] = lambda n=n: getattr(x, n)()
            elif len(ps) == 1 and ps[0].name in ("i", "index", "value") and ps[0].annotation is not None:
                for i in (1, 2, 3):
                    q[f"{n} {i}"] = lambda n=n, i=i: getattr(x, n)(i)
    q["str"] = lambda: str(x)
    q["repr"] = lambda: type(repr(x)).__name__
    q["hash"] = lambda: hash(x)
    q["iteration"] = lambda: list(x)
    q["items"] = lambda: list(x.get_index_with_attributes())
    q["validate"] = lambda: x.validate()
    q["report"] = lambda: rep.get_obj_report(x, tuple(i for i in range(1, x.get_attr_length() + 1) if x.get_attr(i) is not None))
    q["texts"] = lambda: [str(v) for v in x]
    q["reprs"] = lambda: [repr(v) for v in x]
    q["built-in"] = lambda: [None if v is None else repr(outcome(v.decode)) for v in x]
    q["own reports"] = lambda: [str(getattr(v, "report", None)) for v in x]
    q["copies"] = lambda: [None if v is None else v.copy() for v in x]
    q["lengths"] = lambda: [len(v) if isinstance(v, (cdt.Array, cdt.Structure, cdt.BitString)) else None for v in x]
    q["elements"] = lambda: [[enc(e) for e in v] if isinstance(v, (cdt.Array, cdt.Structure)) else None for v in x]
    q["nested"] = lambda: [[(enc(a), enc(b)) for a in v for b in v] if isinstance(v, (cdt.Array, cdt.Structure)) else None for v in x]
    q["encode text"] = lambda: [outcome(x.encode, i, "1")[0] for i in range(2, x.get_attr_length() + 1)]
    q["name"] = lambda: col.get_name(x.logical_name)
    q["group"] = lambda: col.get_relation_group(x.logical_name)
    q["class"] = lambda: col.get_class_id(x)
    q["media"] = lambda: col.get_media_id(x.logical_name)
    return q


STATES = ("blank", "first", "last", "even", "odd")


def put(x, key, state):
    at = r.CLASSES[key][1]
    for i in range(2, len(at) + 2):
        s = samples(key, i)
        if not s or state == "blank" or (state == "even" and i % 2) or (state == "odd" and i % 2 == 0):
            continue
        w = r.CLASSES[key][1][i - 2][1] or s
        outcome(x.set_attr, i, s[-1] if state == "last" else s[0] if state == "first" else w[len(w) // 2])


def subject(key, state):
    c = col.Collection()
    helpers(c, key)
    x = add(c, key, r.CLASSES[key][0])
    if key in ((21, 0), (71, 0)) and state != "blank":
        reg = c.get_object("1.0.1.8.0.255")
        reg.set_attr(2, r.u32(9))
        reg.set_attr(3, r.SU)
        x.set_attr(*((3, r.VALDEF[0]) if key == (21, 0) else (2, r.VALDEF[0])))
        outcome(x.set_attr, *((2, r.ar(r.u32(5), r.u32(6))) if key == (21, 0) else (3, r.u32(5))))
    put(x, key, state)
    if key == (7, 1) and state in ("first", "last"):
        outcome(x.set_attr, 6, r.CAP[0])
        reg = c.get_object("1.0.1.8.0.255")
        reg.set_attr(2, r.u32(9))
        outcome(x.set_attr, 2, r.ar(r.st(r.dt12)) if state == "first" else r.ar(r.st(r.dt12, r.u32(7)), r.st(r.dt12b, r.u32(8))))
    return c, x


@unit("queries", shards=8)
def asking(ctx):
    def body(case, o):
        key, state = case
        c, x = subject(key, state)
        names = sorted(queries(x))
        # the answer to each question when nothing else was asked of this meter
        alone = {}
        for n in names:
            c2, x2 = subject(key, state)
            alone[n] = ask(queries(x2)[n])
        was = shape(c)
        q = queries(x)
        for a in names:
            for b in names:
                got = ask(q[a])
                o((a, got[0]))
                if got != alone[a]:
                    raise Mismatch(f"{key} {state}: {a} answers {got}, asked alone of another such meter {alone[a]} (next {b})", "answer")
                got = ask(q[b])
                if got != alone[b]:
                    raise Mismatch(f"{key} {state}: {b} after {a} answers {got}, asked alone {alone[b]}", "answer")
            now = shape(c)
            if now != was:
                raise Mismatch(f"{key} {state}: {a}, with every other question after it, changed the meter: {[(p, q) for p, q in zip(was, now) if p != q][:1]}", "changed")
        ctx.transitions += 2 * len(names) ** 2
    ctx.all("pairs", [(k, s) for k in KEYS for s in STATES], body)
    ctx.bound(f"every ordered pair of questions put to an object of each of {len(KEYS)} classes in {len(STATES)} states of its attributes")


# ------------------------------------------------------------------ asking a collection
def meter():
    c = col.Collection()
    c.set_manufacturer(b"ABC")
    c.set_country_ver(AV(3, 0))
    c.set_server_type(cdt.get_instance_and_pdu_from_value(b"\x09\x03abc")[0])
    c.set_server_ver(0, AV(1, 2, 3))
    c.set_spec()
    lns = [((15, 1), ASS % 1), ((15, 1), ASS % 3), ((8, 0), "0.0.1.0.0.255"), ((3, 0), "1.0.1.8.0.255"), ((3, 0), "1.0.1.8.1.255"), ((1, 0), "0.0.96.50.9.255"), ((70, 0), "0.0.96.3.10.255"),
           ((9, 0), "0.0.10.0.100.255"), ((20, 0), "0.0.13.0.0.255"), ((11, 0), "0.0.11.0.0.255"), ((7, 1), "1.0.99.1.0.255"), ((23, 1), "0.0.22.0.0.255"), ((18, 0), "0.0.44.0.0.255")]
    lns += [((1, 0), n) for n in ("0.0.96.12.4.255", "0.0.97.98.1.255", "0.0.97.98.11.255", "0.0.96.51.6.255", "0.0.96.51.5.255", "0.0.96.51.7.255", "0.0.96.51.4.255", "0.0.96.51.3.255", "0.0.96.4.3.255",
                                  "0.0.96.1.1.255", "0.0.96.1.2.255", "0.0.96.1.4.255", "0.0.96.1.0.255", "0.0.128.100.0.255")]
    lns += [((42, 0), "0.0.25.1.0.255"), ((41, 0), "0.0.25.0.0.255"), ((7, 1), "1.0.98.2.0.255"), ((7, 1), "0.0.94.7.1.255"), ((3, 0), "1.0.11.134.0.255"), ((3, 0), "1.0.12.134.0.255"), ((18, 0), "0.0.44.0.128.255")]
    for key, ln in lns:
        x = add(c, key, ln)
        if key[0] not in (1, 7, 15):
            put(x, key, "last" if key[0] in (9, 11, 20, 42) else "first")
    p = c.get_object("1.0.99.1.0.255")
    p.set_attr(6, r.CAP[0])
    p.set_attr(3, r.ar(*r.CAP))
    m = {ASS % 1: lambda k, i: 1, ASS % 3: lambda k, i: 3 if i % 2 else 1}
    for a in (ASS % 3, ASS % 1):
        x = c.get_object(a)
        x.set_attr(3, r.st(r.i8(16 if a == ASS % 1 else 48), r.u16(1)))
        x.set_attr(6, r.os(bytes.fromhex("60857405080201")))
        x.set_attr(2, r.ar(*[r.st(r.u16(k[0]), r.u8(k[1]), r.ln(n), r.st(r.ar(*[r.st(r.i8(i), r.en(m[a](k, i)), b"\0") for i in range(1, len(r.CLASSES[k][1]) + 2)]), r.ar()))
                             for k, n in (lns if a == ASS % 3 else lns[:6])]))
    return c


def coll_queries(c):
    q = {}
    for n, m in inspect.getmembers(type(c)):
        if not n.startswith("_") and isinstance(m, property) and n not in ("current_time",):
            q[n] = lambda n=n: getattr(c, n)
    objs = lambda: list(c)
    L3 = LN(ASS % 3)
    q.update({
        "len": lambda: len(c), "iteration": lambda: list(c), "values": lambda: c.values(), "str": lambda: str(c), "hash": lambda: hash(c), "equal": lambda: c == c,
        "class versions": lambda: c.get_class_version(), "phases": lambda: c.get_n_phases(), "version of 15": lambda: c.find_version(ut.CosemClassId(15)),
        "present": lambda: [c.is_in_collection(n) for n in (ASS % 3, "1.0.1.8.1.255", "1.0.2.8.0.255")],
        "object": lambda: c.get_object("1.0.1.8.0.255"), "object2": lambda: [c.get_object2(n) for n in ("1.0.1.8.0.255", "1.0.2.8.0.255")], "missing": lambda: c.get_object("1.0.2.8.0.255"),
        "obis": lambda: c.get(bytes((1, 0, 1, 8, 0, 255))),
        "of association": lambda: c.filter_by_ass(3), "of client": lambda: c.get_objects_list(enums.ClientSAP(48)), "of public": lambda: c.get_objects_list(enums.ClientSAP(16)),
        "first": lambda: c.get_first(["1.0.2.8.0.255", "1.0.1.8.1.255"]), "registers": lambda: c.get_objects_by_class_id(3), "descriptions": lambda: c.get_objects_descriptions(),
        "writable": lambda: c.get_writable_attr(), "association": lambda: c.getASSOCIATION(3), "by sap": lambda: c.getAssociationBySAP(enums.ClientSAP(48)), "hdlc": lambda: c.getIECHDLCSetup(),
        "disconnect": lambda: c.getDISCONNECT_CONTROL(), "association id": lambda: c.get_association_id(enums.ClientSAP(48)),
        "script": lambda: c.get_script_names(LN("0.0.10.0.100.255"), cdt.LongUnsigned(1)),
        "readable": lambda: [c.is_readable(LN("0.0.1.0.0.255"), i, 3) for i in (1, 2, 3)], "writes": lambda: [c.is_writable(LN("0.0.1.0.0.255"), i, 3) for i in (1, 2, 3)],
        "accessible": lambda: c.is_accessible(L3, 1, 3),
        "name and type": lambda: c.get_name_and_type(col.structs.CaptureObjectDefinition(r.CAP[1])),
        "tree": lambda: tree(c.get_attr_tree(3)) if "tree" else None,
        "object tree": lambda: tree(col.get_object_tree(objs(), ["g", "c"])),
        "sorted": lambda: col.get_sorted(objs(), ["l"]), "sorted by name": lambda: col.get_sorted(objs(), ["n"]), "filtered": lambda: col.get_filtered(objs(), [col.LNPattern("1.0.1.8.(0-4).255")]),
        "copy": lambda: shape(c.copy()),
        "by descriptor": lambda: c.get_attr(ut.CosemAttributeDescriptor(ut.CosemClassId(8), ut.CosemObjectInstanceId(bytes((0, 0, 1, 0, 0, 255))), ut.CosemObjectAttributeId(3))),
        "objects of 3": lambda: c.getASSOCIATION(3).get_objects(),
        "reports": lambda: [rep.get_obj_report(x, tuple(i for i, v in x.get_index_with_attributes() if v is not None)) for x in c],
        "texts": lambda: [[str(v) for v in x] for x in c],
    })
    return q


def tree(t):
    if isinstance(t, dict):
        return tuple((show(k), tree(v)) for k, v in t.items())
    return show(t)


@unit("collections", shards=8)
def asking_collections(ctx):
    names = sorted(coll_queries(meter()))
    alone = {n: ask(coll_queries(meter())[n]) for n in names}

    def body(a, o):
        c, other = meter(), meter()
        was, who = shape(c), ident(c)
        q = coll_queries(c)
        for b in names:
            for n in (a, b):
                got = ask(q[n])
                if got != alone[n]:
                    raise Mismatch(f"{n} (of the pair {a}, {b}) answers {got}, asked alone {alone[n]}", "answer")
                o((n, got[0]))
            ctx.transitions += 2
            if ident(c) != who:
                raise Mismatch(f"{a}, {b} changed the identification", "changed")
        now = shape(c)
        if now != was:
            raise Mismatch(f"{a}, with every other question after it, changed the collection: {[(p, q) for p, q in zip(was, now) if p != q][:1]}", "changed")
        if shape(other) != was:
            raise Mismatch("another collection changed", "other")
    ctx.all("pairs", names, body)
    good = sum(alone[n][0] == "ok" for n in names)
    ctx.bound(f"every ordered pair of {len(names)} questions put to a collection of 35 objects ({good} of them answered)")


class Colls:
    """two collections and what is made after: operations on the first are not seen by the others"""
    def fresh(self):
        a, b = meter(), meter()
        return types.SimpleNamespace(a=a, b=b)

    def __init__(self):
        m = meter()
        self.was = (shape(m), ident(m))
        e = col.Collection()
        self.empty = (shape(e), ident(e))
        self.lim = None

    def ops(self, s):
        return ("add", "add missing", "remove", "register", "clock", "script", "profile", "object list", "server version", "clear versions", "grow", "name", "record time", "copy from", "secret", "copy", "alter", "take list", "take versions", "take descriptions")

    def apply(self, s, op, o):
        c = s.a

        def do():
            if op == "add":
                add(c, (3, 0), "1.0.2.8.0.255")
            elif op == "add missing":
                c.add_if_missing(class_id=ut.CosemClassId(3), version=cdt.Unsigned(0), logical_name=LN("1.0.3.8.0.255"))
            elif op == "remove":
                c.try_remove(LN("1.0.1.8.1.255"))
            elif op == "register":
                x = c.get_object("1.0.1.8.0.255")
                x.clear_attr(2)
                x.set_attr(2, r.u16(77))
                x.set_attr(3, r.SU2)
            elif op == "clock":
                c.get_object("0.0.1.0.0.255").set_attr(3, r.i16(-5))
            elif op == "script":
                c.get_object("0.0.10.0.100.255").set_attr(2, r.ar(r.st(r.u16(9), r.ar())))
            elif op == "profile":
                p = c.get_object("1.0.99.1.0.255")
                p.clear_attr(3)
                p.set_attr(3, r.ar(r.CAP[1]))
            elif op == "object list":
                a = c.getASSOCIATION(3)
                a.object_list.pop(2)
            elif op == "server version":
                c.set_server_ver(5, AV(9, 9, 9))
            elif op == "clear versions":
                c.clear_server_ver()
            elif op == "grow":
                c.get_object("0.0.10.0.100.255").scripts.append()
            elif op == "name":
                c.LDN.set_attr(2, r.os(b"ABC12345"))
            elif op == "record time":
                c.get_object("1.0.1.8.0.255").set_record_time(2, cdt.DateTime(r.dt25))
            elif op == "copy from":
                c.get_object("0.0.1.0.0.255").clear_attr(3)
                c.get_object("0.0.96.3.10.255").clear_attr(4)
                c.copy_obj_attr_values_from(s.b.get_object("0.0.1.0.0.255"))
                c.copy_obj_attr_values_from(s.b.get_object("0.0.96.3.10.255"))
                c.copy_obj_attr_values_from(s.b.get_object("0.0.13.0.0.255"))
            elif op == "alter":
                for n in ("0.0.1.0.0.255", "0.0.96.3.10.255", "0.0.13.0.0.255"):
                    for v in list(c.get_object(n))[1:]:
                        alter(v)
            elif op == "secret":
                c.getASSOCIATION(3).set_attr(7, r.os(b"87654321"))
            elif op == "copy":
                d = c.copy()
                d.get_object("0.0.1.0.0.255").set_attr(3, r.i16(55))
                d.try_remove(LN("1.0.1.8.0.255"))
                d.set_server_ver(6, AV(9, 9, 9))
                d.clear_server_ver()
            elif op == "take list":
                c.getASSOCIATION(3).get_objects().clear()
                c.get_objects_by_class_id(3).clear()
                c.filter_by_ass(3).clear()
            elif op == "take versions":
                c.get_class_version().clear()
                w = c.get_writable_attr()
                w.clear()
            elif op == "take descriptions":
                c.get_objects_descriptions().clear()
                t = c.get_attr_tree(3)
                getattr(t, "clear", lambda: None)()
        with contextlib.redirect_stdout(io.StringIO()):
            look = lambda: (shape(c), ident(c), [ask(f) for f in (lambda: c.getASSOCIATION(3).get_objects(), lambda: c.get_objects_by_class_id(3), lambda: c.filter_by_ass(3), lambda: c.get_class_version(),
                                                                  lambda: c.get_writable_attr(), lambda: c.get_objects_descriptions(), lambda: tree(c.get_attr_tree(3)), lambda: c.values())])
            before = look() if op.startswith(("take", "copy")) and op != "copy from" else None
            k, v = outcome(do)
        o((op, k))
        if before is not None and look() != before:
            raise Mismatch(f"{op} changed the collection", "changed")

    def invariant(self, s):
        m, e = meter(), col.Collection()
        for c, w, what in ((s.b, self.was, "the other collection"), (m, self.was, "a collection made afterwards"), (e, self.empty, "an empty collection made afterwards")):
            got = (shape(c), ident(c))
            if got != w:
                raise Mismatch(f"{what}: {[(p, q) for p, q in itertools.zip_longest(got[0], w[0]) if p != q][:1]} {got[1]} {w[1]}", "shared")

    def canon(self, s):
        both = {id(v) for x in s.b for v in x}
        return repr((shape(s.a), ident(s.a), [(n, i) for n, x in enumerate(s.a) for i, v in enumerate(x) if v is not None and id(v) in both]))


@unit("meters", shards=8)
def meters(ctx):
    n = ctx.pick(3, 4)
    ctx.bfs("operations", Colls(), n)
    ctx.bound(f"all sequences of up to {n} of 20 operations on one of two collections")


# ------------------------------------------------------------------ names after a logical name is changed
@unit("names", shards=2)
def names(ctx):
    NS = ["1.0.1.8.0.255", "0.0.1.0.0.255", "0.0.42.0.0.255", "1.0.99.1.0.255", "0.0.40.0.3.255", "1.0.2.8.0.255"]

    def tell(x):
        return (col.get_name(x), show(col.get_relation_group(x)), show(col.get_media_id(x)), str(x), hash(x))

    want = {n: tell(LN(n)) for n in NS}

    def body(case, o):
        a = LN(case[0])
        held = {a: 1}
        o.eq(tell(a), want[case[0]], "name", "name")
        for n in case[1:]:
            a.set(n)
            o.eq(tell(a), want[n], f"name after the same object was made {n}", "name")
            for m in case:
                o.eq(tell(LN(m)), want[m], f"name of {m} after another was made {n}", "name")
    ctx.all("renamed", [p for k in (2, 3) for p in itertools.product(NS, repeat=k)], body)


# ------------------------------------------------------------------ values handed out are the caller's own
@unit("values", shards=2)
def handed(ctx):
    def spoil(v):
        if isinstance(v, list):
            for x in v:
                spoil(x)
            v.clear()
        elif isinstance(v, (dict, set, bytearray)):
            v.clear()

    def body(case, o):
        key, i, s = case
        x = subject(key, "blank")[1]
        x.set_attr(i, s)
        v = x.get_attr(i)
        if v is None:           # a secret without a mechanism
            return
        k, d = outcome(v.decode)
        if k == "ok":
            spoil(d)
        o.eq(bytes(v.encoding), s, "value after its built-in form was emptied", "decode")
        c = v.copy()
        o.eq(bytes(c.encoding), s, "copy", "copy")
        if isinstance(c, cdt.Array):
            c.clear()
        elif isinstance(c, cdt.BitString) and len(c):
            c.inverse(0)
        elif isinstance(c, cdt.Structure):
            for e in c:
                if isinstance(e, cdt.Array):
                    e.clear()
                elif isinstance(e, cdt.Digital):
                    outcome(e.set, 1 if e.decode() != 1 else 2)
        o.eq(bytes(v.encoding), s, "value after its copy was changed", "copy")
        w = type(v)(bytes(s)) if not isinstance(v, cdt.Array) else None
        if w is not None:
            o.eq(bytes(w.encoding), s, "value made of the octets", "again")
        mine = bytearray(s)
        y = subject(key, "blank")[1]
        k, _ = outcome(y.set_attr, i, mine)
        if k == "ok" and y.get_attr(i) is not None:
            e = bytes(y.get_attr(i).encoding)
            mine[:] = bytes(len(mine))
            o.eq(bytes(y.get_attr(i).encoding), e, "value after the buffer it came from was overwritten", "buffer")
        z = subject(key, "blank")[1]
        z.set_attr(i, s)
        z.clear_attr(i)
        if outcome(z.set_attr, i, v)[0] == "ok":
            w = z.get_attr(i)
            if isinstance(w, cdt.Array):
                outcome(w.append)
            elif isinstance(w, cdt.Digital):
                outcome(w.set, 1 if w.decode() != 1 else 2)
        o.eq(bytes(v.encoding), s, "value after it was given to another object", "given")
    ctx.all("values", [(k, i, s) for k in KEYS for i, (n, _) in enumerate(r.CLASSES[k][1], 2) for s in (r.CLASSES[k][1][i - 2][1] or ())], body)


# ------------------------------------------------------------------ values by default are the caller's own too
@unit("defaults", shards=2)
def defaults(ctx):
    def walk(t, seen):
        if isinstance(t, ut.CHOICE):
            for u in t.get_types():
                walk(u, seen)
        elif isinstance(t, type) and t not in seen:
            seen.append(t)
            for e in getattr(t, "ELEMENTS", ()) or ():
                if hasattr(e, "TYPE"):
                    walk(e.TYPE, seen)
            walk(getattr(t, "TYPE", None), seen)

    ts = []
    for k in KEYS:
        x = subject(k, "blank")[1]
        for e in tuple(x.A_ELEMENTS) + tuple(x.M_ELEMENTS or ()):
            walk(e.DATA_TYPE, ts)

    def body(t, o):
        a, b = t(), t()
        e = bytes(b.encoding)
        o.eq(bytes(a.encoding), e, "value by default", "default")
        if isinstance(a, cdt.Array):
            outcome(a.append)
        n = alter(a)
        o((t.__name__, n, bytes(a.encoding)))
        o.eq(bytes(b.encoding), e, "another value by default after one was changed", "shared")
        o.eq(bytes(t().encoding), e, "value by default made after one was changed", "shared")
        d = t(bytes(a.encoding)) if outcome(t, bytes(a.encoding))[0] == "ok" else None
        if d is not None:
            f = bytes(d.encoding)
            alter(a)
            o.eq(bytes(d.encoding), f, "value made of another's octets after that was changed", "octets")
        k, g = outcome(t, b)
        if k == "ok":
            alter(g)
            o.eq(bytes(b.encoding), e, "value another was made from, after that was changed", "from")
    good = [t for t in ts if outcome(t)[0] == "ok"]
    ctx.all("types", good, body)
    ctx.bound(f"{len(good)} types of attributes, methods and their elements")

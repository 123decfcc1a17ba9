"""P39: documents of every version that can be read - each attribute on its own, whatever surrounds it."""
import itertools
import os
import xml.etree.ElementTree as ET
import env
import ref26 as r
from typelib import col, cst, ut, cdt, exc, AV, KEYS, MAN, VER, OPEN, LN, enc, plain, values, type_file, library, get
from explorer import unit, outcome, rejects

V2, V3, V4 = ("2.0.0", "2.1.0", "2.2.0"), ("3.1.0", "3.2.0"), ("4.0.0",)
CL, DC, RG = ((8, 0), "0.0.1.0.0.255"), ((70, 0), "0.0.96.3.10.255"), ((3, 0), "1.0.1.8.0.255")


def head(t, v=VER):
    return f"<dlms_ver>6</dlms_ver><country>7</country><country_ver>3.0</country_ver><manufacturer>{MAN}</manufacturer><server_type>{(bytes([9, len(t)]) + t).hex()}</server_type><server_ver>{v}</server_ver>"


def write(root, objs, h="", f="d.xml"):
    """root: tag and attributes"""
    with open(f, "w", encoding="utf-8") as h_:
        h_.write(f"<?xml version='1.0' encoding='utf-8'?><{root}>{h}{''.join(objs)}</{root.split(' ')[0]}>")
    return f


def obj(key, ln, attrs, cls=True, ver=True, tag="attribute", key_name="index"):
    """attrs: (index, text[, tag])"""
    return (f'<object name="x" ln="{ln}">' + (f"<class_id>{key[0]}</class_id>" if cls else "") + (f"<version>{key[1]}</version>" if ver else "")
            + "".join(f'<{a[2] if len(a) > 2 else tag} {key_name}="{a[0]}">{a[1]}</{a[2] if len(a) > 2 else tag}>' for a in attrs) + "</object>")


def fresh(*objs):
    """a collection that has these objects (and the device name)"""
    c = col.Collection()
    for key, ln in objs:
        c.add(ut.CosemClassId(key[0]), cdt.Unsigned(key[1]), LN(ln))
    return c


def names(c):
    """logical names of the objects, without the device name that every collection has"""
    return sorted(x.logical_name.contents for x in c if x.logical_name.contents != b"\0\0\x2a\0\0\xff")


def samples():
    for key in KEYS:
        ln, at, _ = r.CLASSES[key]
        for i, (_, ss) in enumerate(at, 2):
            for s in ss or ():
                yield key, ln, i, s


# ------------------------------------------------------------------ one attribute
@unit("attributes", shards=8)
def attributes(ctx):
    def body(case, o):
        (key, ln, i, s), v, form, present = case
        c = fresh((key, ln), CL) if present else fresh(CL)
        have = names(c)
        if form == "type":
            t = str(s[0])
        else:
            t = s.hex() if form == "value" else s.hex().upper()
        f = write(f'Objects version="{v}"', [obj(key, ln, [(i, t)], tag="attr" if form == "VALUE" and v in V4 else "attribute")])
        st, e = outcome(c.from_xml2, f)
        if not present and v in V4:
            o.ok((st == "err" and isinstance(e, ValueError)) == (ln != CL[1]), f"document for an absent object: {e!r}", "absent")
            o.eq(names(c), have, "objects", "objects")
            return
        o.ok(st == "ok", f"{e!r}", "read")
        if not present and v in V3:
            o.eq(names(c), have, "objects", "objects")
            return
        o.eq(names(c), sorted({*have, LN(ln).contents}), "objects", "objects")
        x = c.get_object(ln)
        o.eq((int(x.CLASS_ID), int(x.VERSION)), key, "class", "class")
        blank = fresh((key, ln)).get_object(ln)
        if form != "type" and len(s) > 1:
            o.eq(enc(x.get_attr(i)), s, f"attribute {i} of {v}", "value")
        elif form == "type":
            if isinstance(blank.get_attr_element(i).DATA_TYPE, ut.CHOICE) and blank.get_attr(i) is None and s[0] != 2:
                blank.set_attr(i, s[0])
                o.eq(enc(x.get_attr(i)), enc(blank.get_attr(i)), f"type of attribute {i}", "type")
                blank.clear_attr(i)
            else:
                o.eq(enc(x.get_attr(i)), enc(blank.get_attr(i)), f"attribute {i}, of which only the type is given", "type")
        o.eq({k: w for k, w in values(x).items() if k != i}, {k: w for k, w in values(blank).items() if k != i}, "other attributes", "other")
        z = fresh(CL).get_object(CL[1])
        if ln != CL[1]:
            o.eq(values(c.get_object(CL[1])), values(z), "other objects", "other")
    with library():
        cs = [(s, v, f, p) for s in samples() for v in V2 + V3 + V4 for f in ("value", "VALUE") + (("type",) if v in V2 else ()) for p in (True, False)]
        ctx.all("attribute", cs, body)
    ctx.bound(f"{len(cs)} documents: every sample value of every attribute of {len(KEYS)} class versions x 6 document versions, object present or not, value or type")


# ------------------------------------------------------------------ what is wrong harms nothing else
#: (attribute, text, value it gives or None)
CLOCK = [(3, r.i16(180).hex(), r.i16(180)), (7, r.i8(-60).hex(), r.i8(-60)), (8, r.bo(1).hex(), r.bo(1)), (9, r.en(2).hex(), r.en(2))]
WRONG = [(10, r.en(2).hex(), None), (200, r.en(2).hex(), None), (6, "1203", None), (6, "0f", None), (6, "0f0f0f", None), (5, "xyzw", None), (5, "", None), (5, "090", None), (5, "0901", None), (5, r.os(b"\0" * 11).hex(), None), (0, r.en(1).hex(), None)]


@unit("wrong attributes", shards=8)
def wrong(ctx):
    def body(case, o):
        v, first, attrs, after = case
        c = fresh(CL, DC, RG)
        objs = [obj(*CL, [a[:2] for a in attrs]), obj(*DC, [(4, r.en(3).hex())])]
        f = write(f'Objects version="{v}"', objs[::-1] if first else objs)
        st, e = outcome(c.from_xml2, f)
        o.ok(st == "ok", f"{attrs}: {e!r}", "read")
        blank = values(fresh(CL).get_object(CL[1]))
        for i, t, w in attrs:
            if w:
                blank[i] = w
        o.eq(values(c.get_object(CL[1])), blank, f"clock after {attrs}", "value")
        o.eq(enc(c.get_object(DC[1]).get_attr(4)), r.en(3), "other object", "other")
        # attributes given again
        st, e = outcome(c.from_xml2, f)
        o.ok(st == "ok", f"{e!r}", "again")
        o.eq(values(c.get_object(CL[1])), blank, f"clock after {attrs} twice", "again")
    with library():
        pool = CLOCK + WRONG
        cs = [(v, p, a, 0) for v in V2[::2] + V3 + V4 for p in (False, True) for n in range(ctx.pick(4, 5)) for a in itertools.permutations(pool, n)
              if n < 3 or any(x[2] for x in a)]
        ctx.all("sequences", cs, body)

        def index(case, o):
            v, t = case
            c = fresh(CL)
            f = write(f'Objects version="{v}"', [obj(*CL, [(t, r.i16(60).hex())])])
            rejects(o, lambda: c.from_xml2(f), ValueError, f"attribute index {t!r}", "index")
            o.eq(values(c.get_object(CL[1])), values(fresh(CL).get_object(CL[1])), "values after the refusal", "index")
        ctx.all("index", itertools.product(V2 + V3 + V4, ("x", "", "3x", "-", "3.0")), index)

        def doc(case, o):
            v, root = case
            c = fresh(CL)
            f = write(f'{root} version="{v}"' if v else root, [obj(*CL, [(3, r.i16(60).hex())])])
            good = root == "Objects" and v in V2 + V3 + V4
            if good:
                c.from_xml2(f)
                o.eq(enc(c.get_object(CL[1]).get_attr(3)), r.i16(60), "time zone", "value")
            else:
                rejects(o, lambda: c.from_xml2(f), (ValueError, exc.DLMSException), f"{root} {v}", "refusal")
                o.eq(values(c.get_object(CL[1])), values(fresh(CL).get_object(CL[1])), "values after the refusal", "refusal")
        ctx.all("documents", itertools.product(("", "1.0.0", *V2, "2.3.0", "3.0.0", *V3, "3.3.0", *V4, "4.1.0", "5.0.0", "x"), ("Objects", "objects", "template.objects", "x")), doc)
    ctx.bound(f"all orders of up to 3 (thorough 4) of 4 good and {len(WRONG)} wrong attributes x 5 versions, before or after another object; read twice; 5 wrong indexes; 14 versions x 4 roots")


# ------------------------------------------------------------------ objects
@unit("objects", shards=4)
def objects(ctx):
    POOL = [(CL, (3, r.i16(180))), (DC, (4, r.en(3))), (RG, (3, r.SU)), (((3, 0), "1.0.2.8.0.255"), (3, r.SU2)), (((1, 0), "0.0.96.1.0.255"), (2, r.os(b"12")))]

    def body(case, o):
        v, have, given, cls, vers = case
        c = fresh(*[POOL[n][0] for n in have])
        f = write(f'Objects version="{v}"', [obj(*POOL[n][0], [(POOL[n][1][0], POOL[n][1][1].hex())], cls, vers) for n in given])
        st, e = outcome(c.from_xml2, f)
        if v in V4:
            bad = [n for n in given if n not in have]
            o.eq(st, "err" if bad else "ok", f"{e!r}", "absent")
            if bad:
                o.ok(isinstance(e, ValueError), f"{e!r}", "absent")
                given = given[:given.index(bad[0])]
            made = set()
        else:
            o.ok(st == "ok", f"{e!r}", "read")
            if v in V3:
                made = set()
            elif not cls:
                made, given = set(), ()
            else:
                made, known = set(), {(1, 0), *(POOL[n][0][0] for n in have)}      # the device name is Data
                todo = list(given)
                for _ in range(3):                       # without a version: that of another object of its class
                    for n in list(todo):
                        if n in have or n in made or vers or POOL[n][0][0] in known:
                            todo.remove(n)
                            known.add(POOL[n][0][0])
                            if n not in have:
                                made.add(n)
        o.eq(names(c), sorted(LN(POOL[n][0][1]).contents for n in {*have, *made}), f"objects, {have} with {given}", "objects")
        for n in {*have, *made}:
            (key, ln), (i, w) = POOL[n]
            want = values(fresh(POOL[n][0]).get_object(ln))
            if n in given:
                want[i] = w
            o.eq(values(c.get_object(ln)), want, f"values of {ln}", "value")
    with library():
        sets = [s for k in range(len(POOL) + 1) for s in itertools.combinations(range(len(POOL)), k)]
        seqs = [s for k in range(ctx.pick(4, 6)) for s in itertools.permutations(range(len(POOL)), k)]
        ctx.all("objects", [(v, h, g, cl, ve) for v in ("2.2.0", "3.2.0", "4.0.0") for h in sets for g in seqs for cl, ve in (((True, True), (True, False), (False, True)) if v[0] == "2" else ((True, True),))], body)
    ctx.bound("5 objects: any present, any sequence of up to 3 (thorough 5) in the document, with and without class and version")


# ------------------------------------------------------------------ objects that need each other
def dependent():
    mon = [r.st(r.u16(3), r.ln("1.0.1.8.0.255"), r.i8(2)), r.st(r.u16(1), r.ln("0.0.96.50.9.255"), r.i8(2))]
    act = r.st(*r.ACT)
    return (((3, 0), "1.0.1.8.0.255", ((2, r.u32(9)), (3, r.SU))),
            ((1, 0), "0.0.96.50.9.255", ((2, r.u16(9)),)),
            ((71, 0), "0.0.17.0.0.255", ((2, mon[0]), (3, r.u32(1)), (4, r.u32(2)), (5, r.u32(3)), (11, act))),
            ((71, 0), "0.0.17.0.1.255", ((2, mon[1]), (3, r.u16(1)), (4, r.u16(2)), (5, r.u16(3)), (11, act))),
            ((21, 0), "0.0.16.0.0.255", ((3, mon[0]), (2, r.ar(r.u32(5), r.u32(6))))))


@unit("dependencies", shards=8)
def dependencies(ctx):
    DEP = dependent()
    need = {2: (0,), 3: (1,), 4: (0,)}

    def body(case, o):
        v, order = case
        c = col.Collection()
        f = write(f'Objects version="{v}"', [obj(DEP[n][0], DEP[n][1], [(i, e.hex()) for i, e in (DEP[n][2][::-1] if back else DEP[n][2])]) for n, back in order])
        st, e = outcome(c.from_xml2, f)
        o.ok(st == "ok", f"{e!r}", "read")
        o.eq(names(c), sorted(LN(DEP[n][1]).contents for n, _ in order), "objects", "objects")
        for n, _ in order:
            for i, e in DEP[n][2]:
                o.eq(enc(c.get_object(DEP[n][1]).get_attr(i)), e, f"{DEP[n][1]} attribute {i}", "value")
    with library():
        cs = []
        for k in range(1, ctx.pick(4, 5) + 1):
            for s in itertools.combinations(range(5), k):
                if all(set(need.get(n, ())) <= set(s) for n in s):
                    cs += [(v, tuple(zip(p, b))) for v in V2 for p in itertools.permutations(s) for b in itertools.product((0, 1), repeat=k)]
        ctx.all("orders", cs, body)
    ctx.bound(f"{len(cs)} documents: all orders of up to 4 (thorough 5) objects that refer to each other and of their attributes")


# ------------------------------------------------------------------ templates for one type
#: shown as a report only
REPORT = {((8, 0), 4), ((70, 0), 2)}


def several(ss):
    return len({s[0] for s in ss}) > 1


@unit("templates", shards=8)
def templates(ctx):
    with library():
        cs = []
        for key in KEYS:
            ln, at, _ = r.CLASSES[key]
            t = b"t" + bytes([key[0], key[1]])
            for i, (_, ss) in enumerate(at, 2):
                for s in ss or ():
                    if len(s) > 1 and i not in OPEN.get(key, ()):
                        many = several(ss)
                        if many and s[0] in (1, 2):
                            continue
                        cs.append((key, ln, i, s, t + (bytes([i, s[0]]) if many else b"")))
                        type_file(cs[-1][4], [(key, ln, [(i, str(s[0]))] if many else [])])
        T = b"two"
        type_file(T, [(*CL, []), (*DC, [])])

        def body(case, o):
            (key, ln, i, s, t), decode = case
            a = get(t)
            a.get_object(ln).set_attr(i, s)
            if decode and (plain(s) != s or (key, i) in REPORT):
                return
            a.to_xml("a.xml", root_tag="template.objects", is_decode=bool(decode))
            tree = ET.parse("a.xml")
            root = tree.getroot()
            for el in list(root):
                if el.tag != "object":
                    root.remove(el)
            root.extend(ET.fromstring(f"<h>{head(t)}</h>"))
            root.attrib["decode"] = str(decode)
            for ob in root.findall("object"):
                for el in list(ob):
                    if ob.attrib["ln"] != ln or el.attrib.get("index") != str(i):
                        ob.remove(el)
                    else:
                        el.tag = "attr"
                if ob.attrib["ln"] != ln:
                    root.remove(ob)
            tree.write("b.xml", encoding="utf-8")
            c, used = col.Collection.from_xml3("b.xml")
            o.eq({bytes(k.contents): v for k, v in used.items()}, {bytes(LN(ln).contents): {i}}, "used attributes", "used")
            o.eq((c.manufacturer, c.collection_ver), (MAN.encode(), AV.from_str(VER)), "type", "type")
            x = c.get_object(ln)
            o.eq(enc(x.get_attr(i)), s, f"attribute {i}", "value")
            z = get(t).get_object(ln)
            o.eq({k: v for k, v in values(x).items() if k != i}, {k: v for k, v in values(z).items() if k != i}, "other attributes", "other")
            a.to_xml("a.xml", with_comment=True)
            d = get(t)
            d.from_xml2("a.xml")
            o.eq(values(d.get_object(ln)), values(a.get_object(ln)), "values saved with comments", "comments")
        ctx.all("values", [(c, d) for c in cs for d in (0, 1)], body)

        def sets(case, o):
            ver_, root, decode, objs = case
            f = write(f'{root} version="{ver_}" decode="{decode}"', [obj((0, 0), ln, [(i, text[decode]) for i, text, _ in at], False, False, "attr") for ln, at in objs], head(T))
            bad = root != "template.objects" or ver_ != "4.0.0" or any(ln not in (CL[1], DC[1]) for ln, _ in objs)
            st, e = outcome(col.Collection.from_xml3, f)
            if bad:
                o.ok(st == "err" and isinstance(e, (ValueError, exc.DLMSException)), f"{root} {ver_} {objs}: {e!r}", "refusal")
            else:
                o.ok(st == "ok", f"{e!r}", "read")
                c, used = e
                o.eq({bytes(k.contents): v for k, v in used.items()}, {bytes(LN(ln).contents): {a[0] for a in at} for ln, at in objs}, "used attributes", "used")
                for ln in (CL[1], DC[1]):
                    want = values(get(T).get_object(ln))
                    for n, at in objs:
                        want |= {i: w for i, _, w in at if n == ln and w}
                    o.eq(values(c.get_object(ln)), want, f"values of {ln}", "value")
            for ln in (CL[1], DC[1]):
                o.eq(values(get(T).get_object(ln)), values(fresh((CL if ln == CL[1] else DC)).get_object(ln)), "the type itself", "library")
        ac = [(3, (r.i16(180).hex(), "180"), r.i16(180)), (9, (r.en(2).hex(), "2"), r.en(2)), (30, ("1601", "1"), None), (7, ("1203", "900"), None)]
        ad = [(4, (r.en(3).hex(), "3"), r.en(3)), (3, (r.en(9).hex(), "x"), None)]
        oc = [(CL[1], a) for n in range(4) for a in itertools.permutations(ac, n)]
        od = [(DC[1], a) for n in range(3) for a in itertools.permutations(ad, n)]
        docs = [(), *[(x,) for x in oc + od], *[p for x in oc for y in od for p in ((x, y), (y, x))], ((CL[1], ()), ("0.0.1.0.1.255", ())), (("1.0.1.8.0.255", ((2, ("1601", "1"), None),)),)]
        ctx.all("sets", [("4.0.0", "template.objects", d, x) for d in (0, 1) for x in docs] + [(v, rt, 0, (oc[1],)) for v in ("1.0.0", "2.0.0", "3.2.0", "4.0.0", "4.1.0", "5.0.0") for rt in ("Objects", "template.objects", "x")], sets)
    ctx.bound(f"{len(cs)} attribute values as octets and as text; documents with up to 3 good and wrong attributes of one object with up to 2 of another, in both orders; 6 versions x 3 roots")


# ------------------------------------------------------------------ the head of a document
@unit("head", shards=4)
def heads(ctx):
    """what a document says of the device itself: protocol, country, its specification, manufacturer, type and version"""
    H = {"dlms_ver": ((None, None), ("6", 6), ("5", 5)), "country": ((None, None), ("7", 7), ("0", 0)), "country_ver": ((None, None), ("3.0", AV(3, 0)), ("2.1", AV(2, 1))),
         "manufacturer": ((None, None), ("KPZ", b"KPZ"), ("ABC", b"ABC")), "server_type": ((None, None), ("09024d31", "09024d31"), ("0900", "0900")),
         "server_ver": ((None, None), ("1.2.3", AV(1, 2, 3)), ("0.0.1", AV(0, 0, 1)))}

    def state(c):
        return {"dlms_ver": c.dlms_ver, "country": int(c.country), "country_ver": c.country_ver, "manufacturer": c.manufacturer,
                "server_type": None if c.server_type is None else enc(c.server_type).hex(), "server_ver": dict(c.server_ver), "collection_ver": c.collection_ver}

    def body(case, o):
        v, way, *pick = case
        c = fresh(CL)
        want = state(c)
        h = ""
        bad = False
        for (n, vs), i in zip(H.items(), pick):
            t, x = vs[i]
            if t is None:
                continue
            h += f'<{n}{" instance=" + chr(34) + "2" + chr(34) if n == "server_ver" and way == "instance" else ""}>{t}</{n}>'
            if n == "server_ver":
                if way == "new":
                    want["collection_ver"] = x
                else:
                    want["server_ver"] = {2 if way == "instance" else 0: x}
            elif want[n] is None or want[n] == b"" or n in ("country_ver",) and not want[n]:
                want[n] = x
            else:
                bad |= want[n] != x
        f = write(f'Objects version="{v}"', [obj(*CL, [(3, "1000b4")])] if way != "new" else [], h)
        if way == "new":
            k, c = outcome(col.Collection.from_xml, f)
        else:
            k, e = outcome(c.from_xml2, f)
        o.eq(k, "err" if bad else "ok", f"head {h}", "head-read")
        if not bad:
            got = state(c)
            o.eq({n: got[n] for n in want}, want, f"identification from {h}", "identification")
    picks = list(itertools.product(range(3), repeat=6))
    two = [(a, b) for a in ("1.2.3", "1.2.4", "1.3.0") for b in ("1.2.3", "1.2.4", "1.3.0")]

    def several(case, o):
        v, (a, b) = case
        c = fresh(CL)
        f = write(f'Objects version="{v}"', [obj(*CL, [(3, "1000b4")])], f'<server_ver instance="1">{a}</server_ver><server_ver>{b}</server_ver>')
        o.eq(outcome(c.from_xml2, f)[0], "ok", "two instances", "head-read")
        o.eq(dict(c.server_ver), {1: AV.from_str(a), 0: AV.from_str(b)}, "versions of two instances", "identification")
    def first(case, o):
        """a type file names the version of the type first"""
        v, vs = case
        k, c = outcome(col.Collection.from_xml, write(f'Objects version="{v}"', [], "".join(f'<server_ver{i}>{x}</server_ver>' for i, x in vs)))
        o.eq((k, c.collection_ver if k == "ok" else c), ("ok", AV.from_str(vs[0][1])), f"version of the type {vs}", "first")

    def mixed(case, o):
        """in a document of version 4 both names of the element are known"""
        c = fresh(CL)
        k, e = outcome(c.from_xml2, write('Objects version="4.0.0"', [obj(*CL, [(i, x, tag) for (i, x, _), tag in case])]))
        o.eq(k, "ok", f"{case}: {e!r}", "read")
        x, blank = c.get_object(CL[1]), fresh(CL).get_object(CL[1])
        given = {i: w for (i, _, w), _ in case}
        o.eq(values(x), {**values(blank), **given}, f"{case}", "mixed")

    def kept(case, o):
        """only the type is given of an attribute that has a value: the value stays"""
        v, tag, e = case
        c = fresh(RG)
        x = c.get_object(RG[1])
        if e is not None:
            x.set_attr(2, e)
        k, err = outcome(c.from_xml2, write(f'Objects version="{v}"', [obj(*RG, [(2, str(tag)), (3, r.SU.hex())])]))
        o.eq(k, "ok", f"{err!r}", "read")
        blank = fresh(RG).get_object(RG[1])
        blank.set_attr(2, tag)
        o.eq(enc(x.get_attr(2)), e if e is not None else enc(blank.get_attr(2)), f"type {tag} over {e and e.hex()}", "kept")
        o.eq(enc(x.get_attr(3)), r.SU, "the other attribute", "other")

    with library():
        ctx.all("mixed", [tuple(zip(p, tags)) for n in (1, 2, 3, 4) for p in itertools.permutations(CLOCK, n) for tags in itertools.product(("attr", "attribute"), repeat=n)], mixed)
        ctx.all("kept", itertools.product(V2, (5, 6, 16, 18), (None, r.u32(7), r.u16(9), r.i16(-3))), kept)
        ctx.all("first", [(v, tuple((f' instance="{i}"' if i is not None else "", x) for i, x in zip(ids, xs))) for v in ("3.0.0", "3.2.0", "4.0.0") for n in (1, 2, 3) for xs in itertools.permutations(("1.2.3", "1.10.0", "0.9.9"), n) for ids in ((0, 1, 2)[:n], (None,) * n)], first)
        ctx.all("heads", [(v, w, *p) for v, w in (("2.2.0", "plain"), ("3.2.0", "plain"), ("4.0.0", "plain"), ("3.2.0", "instance"), ("3.0.0", "new")) for p in picks], body)
        ctx.all("instances", list(itertools.product(("2.2.0", "3.1.0", "4.0.0"), two)), several)
